"""C26: an interpolator from unstruct2grid grids every data set as a call of its own would."""
import copy
import math
import sys
import threading
import warnings

import boot
import model
import rng
import session
import threads
from props.common import *


def gen_points(r):
    n = r.choice([3, 4, 5, 8, 12, 20, 40])
    if r.random() < 0.01:
        n = r.choice([300, 700])                # (where narrow integer types would wrap)
    kind = r.choice(["scatter", "scatter", "lattice", "skew", "line", "clusters"])
    pts = []
    m = r.choice([4, 8, 16])
    for i in range(n):
        if kind == "lattice":
            p = (i % 4 * 1.0, i // 4 * 1.0)
        elif kind == "skew":
            p = (i % 4 + 0.25 * (i // 4), i // 4 * 1.5)
        elif kind == "line":
            p = (i * 0.75, 0.0) if r.random() < 0.9 else (i * 0.75, 2.0)
        elif kind == "clusters":
            p = (r.choice([0, 6]) + r.randrange(9) / 8.0, r.choice([0, 4]) + r.randrange(9) / 8.0)
        else:
            p = (r.randrange(8 * m) / 8.0, r.randrange(8 * m) / 8.0)
        pts.append(p)
    pts = list(dict.fromkeys(pts))
    while len(pts) < 3 or len({p[0] for p in pts}) < 2 or len({p[1] for p in pts}) < 2:
        pts.append((r.randrange(64) / 8.0, r.randrange(64) / 8.0))
        pts = list(dict.fromkeys(pts))
    o = r.choice([(0, 0), (0, 0), (-4.5, 2.25), (624080.0, 3346870.0), (-128.0, 16.0)])
    return [[p[0] + o[0], p[1] + o[1]] for p in pts]


def gen_boundary(r, pts):
    x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
    y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
    w, h = x1 - x0, y1 - y0

    def at(a, b):
        return [round(x0 + a * w + 0.0137, 4), round(y0 + b * h + 0.0071, 4)]
    k = r.choice(["box", "box", "triangle", "free", "hourglass", "all", "L"])
    if k == "box":
        a, b = sorted((r.random(), r.random()))
        c, d = sorted((r.random(), r.random()))
        return [at(a, c), at(a, d), at(b, d), at(b, c)]
    if k == "triangle":
        return [at(r.random(), r.random()) for _ in range(3)]
    if k == "free":
        # star-shaped about a point, so that it does not cross itself
        cx, cy, m = r.uniform(0.3, 0.7), r.uniform(0.3, 0.7), r.choice([4, 5, 7])
        return [at(cx + q * math.cos(t), cy + q * math.sin(t)) for q, t in
                ((r.uniform(0.1, 0.8), 2 * math.pi * (i + 0.3) / m) for i in range(m))]
    if k == "hourglass":
        e = r.choice([0.001, 0.02, 0.1])
        return [at(0.05, 0.05), at(0.95, 0.05), at(0.5 + e, 0.5), at(0.95, 0.95), at(0.05, 0.95), at(0.5 - e, 0.5)]
    if k == "L":
        return [at(0.1, 0.1), at(0.9, 0.1), at(0.9, 0.4), at(0.35, 0.4), at(0.35, 0.9), at(0.1, 0.9)]
    return [at(-1, -1), at(-1, 2), at(2, 2), at(2, -1)]


def values(d, n):
    """The data set of a plan as a list of floats."""
    import random
    r = random.Random(d["seed"])
    k = d["kind"]
    if k == "const":
        v = [d["c"]] * n
    elif k == "int":
        v = [r.randrange(-5, 6) for _ in range(n)]
    elif k == "zero":
        v = [0.0] * n
    elif k == "one-hot":
        v = [0.0] * n
        v[r.randrange(n)] = d["c"]
    elif k == "dry":
        v = [float("nan") if r.random() < 0.2 else r.uniform(0, 3) for _ in range(n)]
    else:
        v = [d["c"] * r.uniform(-1, 1) for _ in range(n)]
    return v


def inside(poly, x, y):
    """(inside, distance to the border)"""
    res, dist = False, float("inf")
    n = len(poly)
    for i in range(n):
        (ax, ay), (bx, by) = poly[i], poly[(i + 1) % n]
        if (ay > y) != (by > y) and x < (bx - ax) * (y - ay) / (by - ay) + ax:
            res = not res
        l2 = (bx - ax) ** 2 + (by - ay) ** 2
        t = 0.0 if l2 == 0 else max(0.0, min(1.0, ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / l2))
        dist = min(dist, math.hypot(x - ax - t * (bx - ax), y - ay - t * (by - ay)))
    return res, dist


class Ref:
    """Every node's neighbours and whether it lies inside, worked out by hand."""

    def __init__(self, g):
        self.g = g
        pts, cs = g["pts"], float(g["cs"])
        x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
        self.nx = int(math.ceil((max(p[0] for p in pts) - x0) / cs) + 1)
        self.ny = int(math.ceil((max(p[1] for p in pts) - y0) / cs) + 1)
        self.near, self.in_, self.sure = [], [], True
        for i in range(self.ny):                                # from the top row down
            y = y0 + cs * (self.ny - 1 - i)
            for j in range(self.nx):
                x = x0 + cs * j
                d = sorted((math.hypot(p[0] - x, p[1] - y), q) for q, p in enumerate(pts))
                self.near.append(d)
                if g["boundary"] is None:
                    self.in_.append(True)
                else:
                    a, dist = inside(g["boundary"], x, y)
                    self.in_.append(a)
                    if dist < 1e-6:
                        self.sure = False
        self.rows, self.cols = list(range(self.ny)), list(range(self.nx))

    def shape(self, v):
        """Rows and columns left after cropping (borders without any value)."""
        if self.g["boundary"] is None or not self.g["crop"]:
            return self.rows, self.cols
        rs = [i for i in self.rows if any(self.in_[i * self.nx + j] for j in self.cols)]
        cs = [j for j in self.cols if any(self.in_[i * self.nx + j] for i in self.rows)]
        if not rs:
            return [], []
        return list(range(rs[0], rs[-1] + 1)), list(range(cs[0], cs[-1] + 1))

    def judge(self, a, v, what):
        import numpy as np
        g = self.g
        a = np.asarray(a)
        if not self.sure:
            return
        if any(x != x for x in v) and g["boundary"] is not None and g["crop"]:
            return                              # (borders without data are cropped as well)
        rows, cols = self.shape(v)
        if a.size == 0 and not rows:
            return
        if a.shape != (len(rows), len(cols)):
            raise Violation("wrong-shape", call=what, got=list(a.shape), expected=[len(rows), len(cols)],
                            grid=dict(g, pts=len(g["pts"])))
        k = g["k"]
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                q = r * self.nx + c
                got = float(a[i, j])
                if not self.in_[q]:
                    if got == got:
                        raise Violation("value-outside-boundary", call=what, node=[r, c], got=got)
                    continue
                d = self.near[q]
                use = d[:k]
                far = use[-1][0]
                tied = len(d) > k and d[k][0] <= far * (1 + 1e-9) + 1e-12
                cand = [v[p] for dist, p in d if dist <= far * (1 + 1e-9) + 1e-12]
                if any(x != x for x in cand):
                    continue                        # (a missing sample takes part)
                scale = max(abs(x) for x in cand) * 1e-9
                lo, hi = min(cand), max(cand)
                if not lo - scale <= got <= hi + scale:
                    raise Violation("value-outside-neighbours", call=what, node=[r, c], got=got, neighbours=cand[:8])
                if tied and not (use[0][0] == 0.0 and (k == 1 or use[1][0] > 0)):
                    continue
                if use[0][0] == 0.0:
                    same = [v[p] for dist, p in use if dist == 0.0]
                    want = sum(same) / len(same)
                else:
                    want = sum(v[p] / dist for dist, p in use) / sum(1 / dist for dist, p in use)
                if not abs(got - want) <= scale + 1e-300:
                    raise Violation("wrong-value", call=what, node=[r, c], got=got, expected=want,
                                    neighbours=[[dist, v[p]] for dist, p in use])


class Fault(session.LineInterrupt):
    def __init__(self, n, exc):
        super().__init__(n)
        self.exc = exc

    def line(self, frame, event, arg):
        if event == "line":
            self.n -= 1
            if self.n < 0 and not self.fired and not threads.shielded(frame):
                self.fired = 1
                raise self.exc
        return self.line


class C(Check):
    id = "C26"
    quick = 6000
    thorough = 60000
    rule = ("one to three interpolators over generated point sets, fed with series of data sets of different kinds and "
            "types in seeded order, repeatedly, interrupted or out of memory at a line and repeated, and from two or "
            "three threads switched at single lines; every grid against neighbours and weights worked out by hand; "
            "non-trivial: an interpolator was used more than once")
    states = "distinct (point set, neighbours, boundary, series of data sets) tuples"
    real = Check.real + ["scipy and matplotlib.path", "Python threads (one at a time)"]
    stub = ["thread scheduler (line-level baton)"] + Check.stub

    def gen(self, r, tier):
        grids = []
        for _ in range(r.choice([1, 1, 2, 3])):
            pts = gen_points(r)
            w = max(max(p[i] for p in pts) - min(p[i] for p in pts) for i in (0, 1))
            cs = next(c for c in (r.choice([0.25, 0.5, 1, 1.0, 2]), 0.5, 1, 2, 4, 8, 16, 32, 64) if w / c <= 24)
            grids.append({"pts": pts, "cs": cs, "k": min(len(pts), r.choice([1, 1, 2, 3, 3, 4, 6, 10])),
                          "boundary": gen_boundary(r, pts) if r.random() < 0.5 else None, "crop": r.random() < 0.6,
                          "form": r.choice(["list", "tuples", "array"])})
        data = [{"kind": r.choice(["any", "any", "any", "int", "const", "zero", "one-hot", "dry"]),
                 "seed": r.getrandbits(30), "c": r.choice([1.0, 1.0, 3.5, -2.0, 1e6, 1e-6]),
                 "form": r.choice(["list", "array", "array", "f4", "int", "readonly", "strided"])} for _ in range(r.choice([2, 3, 4, 6]))]
        calls = []
        for _ in range(r.randint(3, 12)):
            c = {"g": r.randrange(len(grids)), "d": r.randrange(len(data))}
            if r.random() < 0.1:
                c["line"] = int(2 ** r.uniform(0, 6))
                c["exc"] = r.choice(["int", "mem"])
            calls.append(c)
        plan = {"grids": grids, "data": data, "calls": calls, "threads": None,
                "start": [r.randrange(len(data)) for _ in grids]}
        if r.random() < 0.4:
            n = r.choice([2, 2, 3])
            p = r.choice([1, 2, 4, 10])
            plan["threads"] = {"per": [[{"g": r.randrange(len(grids)), "d": r.randrange(len(data))}
                                        for _ in range(r.choice([1, 2, 3]))] for _ in range(n)],
                               "sched": [[r.randrange(n), 1 + int(r.expovariate(1.0 / p))]
                                         for _ in range(r.choice([20, 60, 200]))],
                               "build": r.random() < 0.3}
        return plan

    def data(self, plan, g, d):
        import numpy as np
        spec = plan["data"][d]
        v = values(spec, len(plan["grids"][g]["pts"]))
        f = spec["form"]
        if f == "int" and any(x != x or abs(x) > 1e9 for x in v):
            f = "array"
        if f == "list":
            return list(v), [float(x) for x in v]
        if f == "f4":
            a = np.array(v, dtype="f4")
        elif f == "int":
            a = np.array(v).astype(int)
        elif f == "strided":
            a = np.array([v, v]).T.copy()[:, 0]
        else:
            a = np.array(v)
        if f == "readonly":
            a.setflags(write=False)
        return a, [float(x) for x in a]

    def coords(self, g):
        import numpy as np
        if g["form"] == "tuples":
            return [tuple(p) for p in g["pts"]]
        if g["form"] == "array":
            return np.array(g["pts"])
        return [list(p) for p in g["pts"]]

    def build(self, plan, g, d):
        import numpy as np
        import dorado.particle_track as pt
        gr = plan["grids"][g]
        xy = self.coords(gr)
        q, v = self.data(plan, g, d)
        b = copy.deepcopy(gr["boundary"])
        given = (np.array(xy).tolist(), np.array(q).tolist(), copy.deepcopy(b))
        kw = {}
        if gr["k"] != 3:
            kw["k_nearest_neighbors"] = gr["k"]
        if b is not None:
            kw["boundary"] = b
        if not gr["crop"]:
            kw["crop"] = False
        f, a = pt.unstruct2grid(xy, q, gr["cs"], **kw)
        if repr((np.array(xy).tolist(), np.array(q).tolist(), b)) != repr(given):
            raise Violation("inputs-modified", grid=g, data=d)
        return f, a, v

    def run(self, plan, st):
        import numpy as np
        refs = [Ref(g) for g in plan["grids"]]
        funcs, results = [], []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for g in range(len(plan["grids"])):
                rng.use(rng.Stream(rng.mix(1, g)))
                f, a, v = self.build(plan, g, plan["start"][g])
                funcs.append(f)
                self.keep(refs, results, g, a, v, "unstruct2grid", plan["start"][g])
                st.add("op.unstruct2grid")
            for c in plan["calls"]:
                q, v = self.data(plan, c["g"], c["d"])
                if c.get("line") is not None:
                    exc = KeyboardInterrupt() if c["exc"] == "int" else MemoryError("simulated")
                    tr = Fault(c["line"], exc)
                    a = None
                    try:
                        sys.settrace(tr)
                        a = funcs[c["g"]](q)
                    except (KeyboardInterrupt, MemoryError):
                        if not tr.fired:
                            raise
                        st.add("fault.gridding-" + c["exc"])
                    finally:
                        sys.settrace(None)
                    if a is not None and not tr.fired:
                        self.keep(refs, results, c["g"], a, v, "call", c["d"])
                a = funcs[c["g"]](q)
                if repr(np.array(q).tolist()) != repr(np.array(self.data(plan, c["g"], c["d"])[0]).tolist()):
                    raise Violation("inputs-modified", grid=c["g"], data=c["d"])
                self.keep(refs, results, c["g"], a, v, "call", c["d"])
                st.add("op.grid-%s" % plan["data"][c["d"]]["kind"])
            if plan["threads"]:
                self.concurrently(plan, st, refs, funcs, results)
        # nothing that was returned before has changed since
        for a, was, what in results:
            if a.shape != was.shape or a.tobytes() != was.tobytes():
                raise Violation("earlier-result-changed", call=what)
        st.nontrivial = any(sum(1 for c in plan["calls"] if c["g"] == g) >= 1 for g in range(len(funcs)))
        for g in plan["grids"]:
            st.state("c26", repr(g["pts"]), g["k"], g["cs"], repr(g["boundary"]), repr(plan["calls"]))
        for a, was, _ in results:
            st.events.update(repr(was.shape).encode() + repr(was.tolist()).encode())

    def keep(self, refs, results, g, a, v, how, d):
        import numpy as np
        what = {"by": how, "interpolator": g, "data": d}
        refs[g].judge(a, v, what)
        a = np.asarray(a)
        results.append((a, a.copy(), what))

    def concurrently(self, plan, st, refs, funcs, results):
        t = plan["threads"]
        out = []

        def body(i):
            def f():
                for c in t["per"][i]:
                    rng.use_thread(threading.get_ident(), rng.Stream(rng.mix(2, i)))
                    q, v = self.data(plan, c["g"], c["d"])
                    if t["build"]:
                        f2, a, v = self.build(plan, c["g"], c["d"])
                        out.append((c["g"], a, v, c["d"]))
                    out.append((c["g"], funcs[c["g"]](q), v, c["d"]))
            return f
        b = threads.Baton([body(i) for i in range(len(t["per"]))], t["sched"])
        b.run()
        for e in b.errors:
            if e is not None:
                raise e
        st.add("probe.thread-switches", len(b.switches))
        for g, a, v, d in out:
            self.keep(refs, results, g, a, v, "call in a thread", d)

    def simplify(self, plan):
        if plan["threads"]:
            yield dict(plan, threads=None)
        for i in range(len(plan["calls"])):
            yield dict(plan, calls=plan["calls"][:i] + plan["calls"][i + 1:])


CHECK = C()
