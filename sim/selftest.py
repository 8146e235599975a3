"""The simulator's own determinism: one seed is one execution.

Every check's first runs are simulated in fresh interpreters with different hash seeds and numbers of
workers; the digests of everything recorded in them must be identical.
"""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import boot

RUNS = {"C10": 24, "C11": 24, "C12": 24, "C13": 24, "C14": 12, "C16": 24}
SKIP_ONLY = None


def ids():
    d = os.path.join(boot.VERIF, "sim", "props")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == "c" and f[1:3].isdigit())


def digests(pid, runs, hashseed, jobs, seed):
    env = {k: v for k, v in os.environ.items() if k != "VERIF_BOOTED"}
    env.update(VERIF_HASHSEED=str(hashseed), VERIF_SEED=str(seed), VERIF_TIER="quick")
    p = subprocess.run([sys.executable, "-B", os.path.join(boot.VERIF, "sim", "run.py"), pid, "--runs", str(runs),
                        "--jobs", str(jobs), "--digests", "--no-evidence"], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    out = p.stdout.decode(errors="replace")
    return [l for l in out.splitlines() if l.startswith("D ")], p.returncode, out


def main(a):
    bad = 0

    def one(pid):
        n = RUNS.get(pid, 60)
        x = digests(pid, n, 0, 1, a.seed)
        y = digests(pid, n, 4711, 3, a.seed)
        return pid, n, x, y
    with ThreadPoolExecutor(4) as ex:
        for pid, n, x, y in ex.map(one, ids()):
            ok = x[0] == y[0] and len(x[0]) == n
            # (a violation stops a search early: the digests up to it still have to agree)
            if not ok and (x[1] == 1 or y[1] == 1):
                m = min(len(x[0]), len(y[0]))
                dx, dy = dict(l[2:].split(" ", 1) for l in x[0]), dict(l[2:].split(" ", 1) for l in y[0])
                ok = m > 0 and all(dx[k] == dy[k] for k in dx if k in dy)
            print("%s: %d runs, %s" % (pid, n, "identical in two interpreters" if ok else "NOT REPEATABLE"))
            if not ok:
                bad += 1
                for l, m in zip(x[0], y[0]):
                    if l != m:
                        print("   first difference:", l, m)
                        break
                if x[1] == 2 or y[1] == 2:
                    print(x[2][-800:], y[2][-800:])
    return 1 if bad else 0
