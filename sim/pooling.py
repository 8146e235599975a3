"""Pooled statistics over simulated runs: sums of centred scores with their exact variances."""
import math


def add(pool, key, resid, var, n=1):
    v = pool.get(key)
    if v is None:
        pool[key] = [resid, var, n]
    else:
        v[0] += resid
        v[1] += var
        v[2] += n


def judge(pool, prior, sigma=5.0, minvar=30.0, prefix=""):
    """Keys whose centred sum is more than sigma standard deviations from 0 (and, when `prior` is the
    pool of an independent first sample, deviates in the same direction there)."""
    bad = []
    for k in sorted(pool):
        if not k.startswith(prefix):
            continue
        s, v, n = pool[k]
        if v < minvar:
            continue
        z = s / math.sqrt(v)
        if abs(z) > sigma:
            if prior is not None:
                q = prior.get(k)
                if q is None or q[1] < minvar or q[0] / math.sqrt(q[1]) * z <= 0 or abs(q[0]) / math.sqrt(q[1]) < sigma:
                    continue
            bad.append((k, {"z": round(z, 2), "n": n, "mean_deviation": s / max(n, 1)}))
    return bad
