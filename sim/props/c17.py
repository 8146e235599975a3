"""C17: exposure accounting over whole histories."""
import json
import math
import sys
import warnings

import model
import oracles
import session
from props.common import *

BIG = 1e300


def weights(region, row, a):
    """Sum over the steps from index a on, weighted by their ends in the region (region: cell -> 0/1)."""
    X, Y, T = row
    tot = 0.0
    for j in range(max(a, 1), len(T)):
        n = region(X[j - 1], Y[j - 1]) + region(X[j], Y[j])
        if n:
            tot += (T[j] - T[j - 1]) * (0.5 * n)
    return tot


def rows(walk, p):
    return walk["xinds"][p], walk["yinds"][p], walk["travel_times"][p]


def tol(walk, p):
    T = walk["travel_times"][p]
    return 1e-11 * (len(T) + 4) * max(1e-6, max(abs(t) for t in T))


def close(a, b, t):
    return abs(a - b) <= t


def chunks(L, W, f):
    """(rows, columns) of every chunk, in order: fixed size, the last of each direction takes the rest."""
    n, m = L // f, W // f
    for r in range(n):
        for c in range(m):
            yield (r * f, L if r == n - 1 else (r + 1) * f), (c * f, W if c == m - 1 else (c + 1) * f)


class Account:
    """Incremental account: kept across operations, restarts and regimes, by what each call appended."""

    def __init__(self, regions):
        self.regions = regions
        self.e = {name: [] for name in regions}

    def __call__(self, sess, ev):
        if ev.op["op"] == "clear" or ev.after is None:
            self.e = {name: [] for name in self.regions}
            return
        for name, reg in self.regions.items():
            e = self.e[name]
            if ev.op["op"] == "restart" and ev.op.get("cut") is not None:
                e[:] = [weights(lambda x, y: int(reg[x, y]), rows(ev.after, p), 0) for p in range(len(ev.after["xinds"]))]
                continue
            for p, a in enumerate(ev.app):
                if p >= len(e):
                    e.append(0.0)
                e[p] += weights(lambda x, y: int(reg[x, y]), rows(ev.after, p), a)


class C(SessionCheck):
    id = "C17"
    quick = 6000
    thorough = 40000
    mix = {"gen": 1.2, "step": 5, "target": 3, "regime": 1.2, "restart": 1.2, "cut": 0.4, "clear": 0.2,
           "int-step": 0.5, "int-target": 0.5}
    long_rate = 0.004
    world = {}
    rule = ("generated sessions (re-entries, unmoved particles, late seeds, restarts, interrupts) with an account of "
            "the time spent in 3-5 random regions kept move by move; after random operations exposure_time, the region "
            "of interest's flags and the chunked maps are compared with it; non-trivial: a compared exposure is not 0")
    states = "distinct (region, entries and exits seen, whether restarted, particles) tuples"

    def tweak(self, r, plan, tier):
        w = plan["world"]
        plan["regions"] = [r.choice(["block", "random", "block", "random"]) for _ in range(r.choice([1, 2, 2]))]
        for op in plan["ops"]:
            op["ask"] = r.random() < 0.3
            if r.random() < 0.25:
                f = r.choice([1, 2, 2, 3, 4, 5, min(w["L"], w["W"]), 25])
                op["chunk"] = [r.choice(["systemwide", "localized"]), f,
                               r.choice(["all", "random", "block", "types", "types"]), r.choice(["i8", "f8", "i2"])]
            if op["ask"]:
                op["dt"] = r.choice(["i8", "i4", "u1", "f8"])
                op["on"] = r.choice(["live", "live", "ret", "json"])
                op["verb"] = r.choice([None, None, None, True, False])
                op["split"] = r.random()
                if r.random() < 0.05:
                    op["eline"] = int(2 ** r.uniform(0, 9))
        return plan

    def regions(self, plan):
        import numpy as np
        w = plan["world"]
        L, W = w["L"], w["W"]
        out = {}
        for i, k in enumerate(plan["regions"]):
            out["r%d" % i] = model.region(w, k, i)
            out["not r%d" % i] = 1 - out["r%d" % i]
        a = out["r0"]
        half = model.region(w, "random", 77)
        out["r0 part 1"], out["r0 part 2"] = a * half, a * (1 - half)
        out["all"] = np.ones((L, W), dtype=int)
        out["nothing"] = np.zeros((L, W), dtype=int)
        return out

    def oracles(self, st):
        return [lambda s, e: self.acc(s, e), self.ask]

    def run(self, plan, st):
        self.regs = self.regions(plan)
        self.acc = Account(self.regs)
        self.parts = [("all", ["r%d" % i, "not r%d" % i]) for i in range(len(plan["regions"]))]
        self.parts.append(("r0", ["r0 part 1", "r0 part 2"]))
        super().run(plan, st)

    def ask(self, sess, ev):
        import numpy as np
        from dorado import particle_track as pt
        st, op = sess.stats, ev.op
        live = sess.part.walk_data
        if live is None or ev.after is None or not ev.after["xinds"]:
            return
        walk = ev.after
        if any(x != x or abs(x) > BIG for r in walk["travel_times"] for x in r):
            return
        n = len(walk["xinds"])
        if op.get("ask"):
            data = live
            if op["on"] == "ret" and isinstance(ev.ret, dict) and same_walk(snap(ev.ret), walk):
                data = ev.ret
            elif op["on"] == "json":
                data = json.loads(json.dumps(walk))
            kw = {} if op["verb"] is None else {"verbose": op["verb"]}

            def expo(d, reg):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    st.add("op.exposure_time")
                    e = pt.exposure_time(d, reg.astype(op["dt"]), **kw)
                if len(e) != len(d["xinds"]):
                    raise Violation("wrong-number-of-exposures", returned=len(e), particles=len(d["xinds"]))
                return [float(x) for x in e]
            if op.get("eline") is not None:
                tr = session.LineInterrupt(op["eline"])
                sys.settrace(tr)
                try:
                    expo(data, self.regs["r0"])
                except KeyboardInterrupt:
                    if not tr.fired:
                        raise
                    st.add("fault.query-interrupted")
                finally:
                    sys.settrace(None)
            got = {name: expo(data, reg) for name, reg in self.regs.items()}
            if not same_walk(snap(data), walk):
                raise Violation("query-changed-history", first=diff_walk(walk, snap(data)))
            st.events.update(repr(sorted(got.items())).encode())
            for name, reg in self.regs.items():
                for p in range(n):
                    t = tol(walk, p)
                    want = self.acc.e[name][p]
                    if not close(got[name][p], want, t):
                        raise Violation("exposure-off-account", region=name, particle=p, exposure=got[name][p],
                                        account=want, points=len(walk["xinds"][p]))
                    if want > 0:
                        st.nontrivial = True
                flags = [[int(reg[x, y]) for x, y in zip(walk["xinds"][p], walk["yinds"][p])] for p in range(n)]
                cross = max((sum(1 for a, b in zip(f, f[1:]) if a != b) for f in flags), default=0)
                if cross >= 2:
                    st.add("probe.region-re-entered")
                st.state("c17", name, min(cross, 6), n, sess.regime)
            for whole, parts in self.parts:
                for p in range(n):
                    s = sum(got[q][p] for q in parts)
                    want = got[whole][p] if whole != "all" else walk["travel_times"][p][-1] - walk["travel_times"][p][0]
                    if not close(s, want, 2 * tol(walk, p)):
                        raise Violation("exposures-do-not-add-up", regions=parts, particle=p, sum=s, expected=want)
            # split at a random record of each particle
            cut = [int(op["split"] * 7919 * (p + 1)) % len(walk["xinds"][p]) for p in range(n)]
            a = {k: [r[:c + 1] for r, c in zip(v, cut)] for k, v in walk.items()}
            b = {k: [r[c:] for r, c in zip(v, cut)] for k, v in walk.items()}
            ea, eb = expo(a, self.regs["r0"]), expo(b, self.regs["r0"])
            for p in range(n):
                if not close(ea[p] + eb[p], got["r0"][p], 2 * tol(walk, p)):
                    raise Violation("split-exposure-differs", particle=p, cut=cut[p], parts=(ea[p], eb[p]),
                                    whole=got["r0"][p])
            # the recorded flags tell the same as the region itself
            roi = ev.ref.roi
            if roi is not None and "roi_flag" in walk:
                er = expo(data, (roi == 1).astype(int))
                for p in range(n):
                    X, Y, T = rows(walk, p)
                    fl = walk["roi_flag"][p]
                    if any(f is None for f in fl):
                        continue
                    want = math.fsum((T[j] - T[j - 1]) * 0.5 * (fl[j - 1] + fl[j]) for j in range(1, len(T)))
                    if not close(er[p], want, tol(walk, p)):
                        raise Violation("flags-disagree-with-exposure", particle=p, exposure=er[p], from_flags=want)
                    st.add("probe.roi-flag-compared")
        if op.get("chunk"):
            self.maps(sess, ev, live, walk, *op["chunk"])

    def maps(self, sess, ev, live, walk, kind, f, mask, dt="i8"):
        import numpy as np
        from dorado import spatial
        st, w = sess.stats, sess.w
        L, W = w["L"], w["W"]
        if mask == "all":
            m = np.ones((L, W), dtype=int)
        elif mask == "types":                   # cell types: channel cells (1) among ocean, land and edge cells
            m = np.where(model.region(w, "random", 6) == 1, 1, np.array([0, 2, -1])[np.arange(L * W).reshape(L, W) % 3])
        else:
            m = model.region(w, mask, 5)
        m = m.astype(dt)
        grid = np.linspace(0, 1, L * W).reshape(L, W)
        grid[::3, ::2] = np.nan
        keep = m.copy(), grid.copy()
        got = getattr(spatial, kind)(live, grid, m, f)
        st.add("op.spatial-" + kind)
        if not same_walk(snap(live), walk):
            raise Violation("query-changed-history", query=kind, first=diff_walk(walk, snap(live)))
        if not (m == keep[0]).all() or not np.array_equal(grid, keep[1], equal_nan=True):
            raise Violation("query-changed-input", query=kind)
        ch = list(chunks(L, W, f))
        if len(got) != len(ch):
            raise Violation("wrong-number-of-chunks", returned=len(got), expected=len(ch), chunk=f, grid=(L, W))
        n = len(walk["xinds"])
        seen = [0] * n
        for i, ((r0, r1), (c0, c1)) in enumerate(ch):
            res = got[i]
            if not (m[r0:r1, c0:c1] == 1).any():
                if isinstance(res, list) or not (res != res):
                    raise Violation("chunk-outside-the-region-not-nan", chunk=i, returned=repr(res)[:200])
                for p in range(n):
                    if r0 <= walk["xinds"][p][0] < r1 and c0 <= walk["yinds"][p][0] < c1:
                        seen[p] += 1
                continue
            if kind == "systemwide":
                reg = lambda x, y: int(m[x, y] == 1)
            else:
                reg = lambda x, y: int(m[x, y] == 1 and r0 <= x < r1 and c0 <= y < c1)
            if not isinstance(res, list):
                raise Violation("chunk-without-list", chunk=i, returned=repr(res)[:200])
            mine, also = [], []
            for p in range(n):
                x, y = walk["xinds"][p][0], walk["yinds"][p][0]
                if r0 <= x < r1 and c0 <= y < c1:
                    mine.append(p)
                    also.append(p)
                    seen[p] += 1
                elif r0 <= x <= r1 and c0 <= y <= c1:
                    also.append(p)
            want = {p: weights(reg, rows(walk, p), 0) for p in also}

            def fits(ps):
                return len(ps) == len(res) and all(close(float(e), want[p], tol(walk, p)) for e, p in zip(res, ps))
            st.state("c17m", kind, f, mask, i, len(mine))
            if fits(mine):
                if mine:
                    st.add("probe.chunk-with-particles")
                continue
            if fits(also):
                st.known("chunk-lists-neighbours-particles", query=kind, chunk=i, rows=(r0, r1), columns=(c0, c1),
                         extra_starts=[(walk["xinds"][p][0], walk["yinds"][p][0]) for p in also if p not in mine][:5])
                continue
            raise Violation("chunk-off-account", query=kind, chunk=i, rows=(r0, r1), columns=(c0, c1),
                            returned=[float(e) for e in res][:20], expected=[want[p] for p in mine][:20])
        if f <= min(L, W) and any(s != 1 for s in seen):
            raise HarnessError("reference chunks do not tile the grid")


CHECK = C()
