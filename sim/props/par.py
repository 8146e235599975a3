"""Shared by C13 and C14: one simulated parallel routing call."""
import math

import model
import oracles
import pool
import rng
import session
from props.common import *


def cores(r):
    return r.choice([1, 2, 2, 3, 4, 5]) if r.random() < 0.93 else r.choice([6, 7, 8, 9, 12, 16])


def gen_plan(r, tier):
    w = model.gen_world(r)
    w["nan"] = 0.0
    if r.random() < 0.5:
        w["dc"] = r.choice([0.2, 0.5, 1.0, 1.9])
    if r.random() < 0.25:
        w["track"] = r.sample(model.TRACKABLE, r.randint(1, 3))
    w["steep"] = r.random() < 0.1
    xs, ys, _ = gen_cells(r, w, r.choice(["interior", "interior", "any", "near-edge", "one"]))
    plan = {"world": w, "key": r.getrandbits(31), "n": cores(r), "cpus": r.choice([1, 1, 2, 2, 3, 4, 8, 64]), "np": r.choice([1, 1, 2, 3, 5]),
            "iters": r.choice([1, 2, 3, 5, 8, 12]), "xs": xs, "ys": ys, "sched": r.getrandbits(32),
            "start": r.choice(["fork", "fork", "spawn"])}
    if r.random() < 0.03:
        plan.update(n=r.choice([2, 3]), np=r.choice([17, 40, 101]), iters=r.choice([2, 5]))
    if r.random() < 0.02:
        plan.update(n=r.choice([1, 2]), np=2, iters=r.choice([60, 150]))
    if r.random() < 0.008:                      # beyond the 61 to 64 workers some systems allow
        plan.update(n=r.choice([33, 62, 70]), np=1)
    if plan["n"] > 5:
        plan["iters"] = min(plan["iters"], 5 if plan["n"] < 33 else 2)
    return plan


def build(plan):
    from dorado import particle_track as pt
    return pt.Particles(model.make_params(plan["world"]))


def state_of(part):
    """Everything observable of a particle object, for before/after comparison."""
    import numpy as np
    out = {}
    for k, v in sorted(vars(part).items()):
        if isinstance(v, np.ndarray):
            out[k] = (v.shape, str(v.dtype), v.tobytes())
        else:
            out[k] = repr(v)
    return out


def call(plan, part, sched, start, faults=(), st=None, cpus=None):
    """(history or None, exception or None, cluster)"""
    from dorado.parallel_routing import parallel_routing
    import multiprocessing
    with pool.Cluster(sched, start, faults, cpus or plan.get("cpus", 8)) as c:
        res = exc = None
        try:
            res = parallel_routing(part, plan["iters"], plan["np"], list(plan["xs"]), list(plan["ys"]), plan["n"])
        except KeyboardInterrupt as e:
            if not c.fired:
                raise
            exc = e
        except Exception as e:
            exc = e
        c.left = c.left_behind() + len(multiprocessing.active_children())
    if st is not None:
        st.add("op.parallel_routing")
        st.add("probe.worker-processes", c.forks)
        st.add("probe.start-" + start)
        for f in c.fired:
            st.add("fault.worker-" + f)
        st.events.update(repr((c.trace, snap(res), type(exc).__name__)).encode())
    return res, exc, c


def steps(ref, walk, p):
    """Legality of one particle's history; yields (direction, base, dt, tolerance)."""
    X, Y, T = walk["xinds"][p], walk["yinds"][p], walk["travel_times"][p]
    for j in range(1, len(X)):
        a, b = (X[j - 1], Y[j - 1]), (X[j], Y[j])
        k = model.step_index(a, b)
        if k is None or k == 4 or ref.weights(*a)[0][k] <= 0 or ref.absorbing(*a):
            raise Violation("history-mixed-up", particle=p, point=j, step=(a, b), why="not a legal step")
        base = ref.base_time(a[0], a[1], k)
        tol = ref.time_tol(a[0], a[1], k, T[j])
        dt = T[j] - T[j - 1]
        if not (base * (1 - ref.dc / 2) - 2 * tol <= dt <= base * (1 + ref.dc / 2) + 2 * tol):
            raise Violation("history-mixed-up", particle=p, point=j, step=(a, b), dt=dt, law=base,
                            why="time does not belong to the step")
        yield k, base, dt, tol


def diffusions(ref, walk, lo, hi):
    """Normalised diffusion draws (in [-.5, .5]) recoverable from particles lo..hi-1, in order."""
    out = []
    if ref.dc <= 0:
        return out
    for p in range(lo, hi):
        for k, base, dt, tol in steps(ref, walk, p):
            if base > 0 and tol < 1e-7 * base * ref.dc:
                out.append((dt / base - 1) / ref.dc)
    return out


def coincidences(a, b, eps=2e-7):
    """How many values of a also occur in b."""
    import bisect
    s = sorted(b)
    n = 0
    for x in a:
        i = bisect.bisect_left(s, x - eps)
        if i < len(s) and s[i] <= x + eps:
            n += 1
    return n


def improbable(n, la, lb, eps=2e-7):
    """n coincidences among la x lb independent values: certainly not chance?"""
    lam = la * lb * 2 * eps
    return n >= 3 and lam < 0.05 or n >= 20 and lam < 1
