"""C29: percentile maps give each chunk's own exposure percentiles, whenever and wherever they are computed."""
import copy
import math
import sys
import threading
import warnings

import boot
import model
import rng
import session
import threads
from props import mini
from props.common import *
from props.c26 import Fault

PERC = (0.50, 0.75, 0.90)
SLACK = 0.004                       # of probability, and of the range of times: the resolution of the curve


def usable(item):
    return sorted(x for x in item if x != 0 and x == x) if isinstance(item, list) else []


class Curve:
    """The smoothed distribution of a chunk's times (Gaussian kernels, Scott's width), between its ends."""

    def __init__(self, t):
        import numpy as np
        from scipy.special import ndtr
        t = np.array(t, dtype="f8")
        h = t.std(ddof=1) * len(t) ** -0.2
        self.x = np.linspace(t.min(), t.max(), 4001)
        F = ndtr((self.x[:, None] - t[None, :]) / h).mean(axis=1)
        self.G = (F - F[0]) / (F[-1] - F[0])
        self.range = t.max() - t.min()

    def band(self, p):
        import numpy as np
        lo = np.interp(p - SLACK, self.G, self.x) - SLACK * self.range
        hi = np.interp(p + SLACK, self.G, self.x) + SLACK * self.range
        return lo, hi


def local_filter(a, size, thr):
    """(cleaned map, cells whose outliers are a matter of rounding)"""
    import numpy as np
    out, unsure = np.full(a.shape, np.nan), np.zeros(a.shape, bool)
    k = size // 2
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if a[i, j] != a[i, j]:
                continue
            v = [a[p, q] for p in range(max(0, i - k), min(a.shape[0], i + k + 1))
                 for q in range(max(0, j - k), min(a.shape[1], j + k + 1)) if a[p, q] == a[p, q]]
            v.sort()
            med = (v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2
            dev = sorted(abs(x - med) for x in v)
            mad = (dev[(len(v) - 1) // 2] + dev[len(v) // 2]) / 2
            if mad == 0:
                out[i, j] = med
                continue
            if mad < 1e-9 * abs(med) or any(abs(d - thr * mad) < 1e-9 * (abs(med) + d) for d in dev):
                unsure[i, j] = True
            keep = [x for x in v if abs(x - med) <= thr * mad]
            out[i, j] = sum(keep) / len(keep) if keep else np.nan
    return out, unsure


class C(Check):
    id = "C29"
    quick = 1500
    thorough = 15000
    rule = ("chunk maps of generated runs (moved, restarted, grown between maps) and generated lists of times, turned "
            "into percentile maps with seeded chunk sizes, units, windows and thresholds, repeatedly, interrupted or out "
            "of memory at a line, and from threads; percentiles against the mixture distribution, smoothing against a "
            "restatement; non-trivial: a chunk with percentiles and one without, or several with")
    states = "distinct (lists, chunk size, unit, window, threshold) tuples"
    real = Check.real + ["scipy.stats", "Python threads (one at a time)"]
    stub = ["thread scheduler (line-level baton)"] + Check.stub

    def gen(self, r, tier):
        plan = {"key": r.getrandbits(48), "threads": None}
        rf = r.choice([1, 2, 3, 4])
        plan["rf"] = rf
        if r.random() < 0.4:
            w = model.gen_world(r, L=r.choice([6, 8, 9, 12]), W=r.choice([6, 8, 9, 12]), ct=r.choice([None, "ring"]))
            rf = plan["rf"] = r.choice([3, 4, 5])
            plan["world"] = w
            plan["ops"] = [mini.gen_op(r, w, True)] + [mini.gen_op(r, w) for _ in range(r.choice([6, 10, 16]))]
            for op in plan["ops"]:
                if op["op"] == "gen":
                    op["n"] = r.choice([6, 12, 20])
            plan["L"], plan["W"] = w["L"], w["W"]
            plan["which"] = r.choice(["systemwide", "localized"])
        else:
            nr, nc = r.choice([1, 1, 2, 3, 4, 6]), r.choice([1, 2, 3, 4, 5])
            plan["L"], plan["W"] = nr * rf + r.randrange(rf), nc * rf + r.randrange(rf)
            plan["lists"] = [self.times(r, nr * nc) for _ in range(r.choice([1, 1, 2]))]
        calls = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            c = {"d": r.randrange(4), "td": r.choice([1, 1, 60, 3600.0, 86400, 0.5]), "ws": r.choice([None, 1, 3, 5, 7]),
                 "thr": r.choice([None, 3, 1, 2.5, 1e9])}
            if r.random() < 0.15:
                c["fault"] = [int(2 ** r.uniform(0, 8)), r.choice(["int", "mem"])]
            calls.append(c)
        plan["calls"] = calls
        if r.random() < 0.15:
            k = r.choice([2, 3])
            plan["threads"] = [k, [[r.randrange(k), 1 + int(r.expovariate(1.0 / r.choice([3, 30])))]
                                   for _ in range(r.choice([10, 40, 100]))]]
        return plan

    def times(self, r, n):
        out = []
        scale = r.choice([1.0, 10.0, 3600.0, 1e5])
        for _ in range(n):
            k = r.choice(["many", "many", "few", "four", "five", "same", "none", "nan", "zeros", "empty", "ints"])
            m = r.choice([5, 6, 8, 12, 30])
            base = scale * r.uniform(0.1, 3)
            v = [round(base * r.uniform(0.5, 1.5), 4) for _ in range(m)]
            if k == "nan":
                out.append("nan")
                continue
            if k == "few":
                v = v[:r.choice([1, 2, 3])]
            elif k == "four":
                v = [v[i % 4] for i in range(m)]
            elif k == "five":
                v = [v[i % 5] for i in range(m)]
            elif k == "same":
                v = [v[0]] * m
            elif k == "none":
                v = []
            elif k == "zeros":
                v = v[:r.choice([4, 5])] + [0.0] * r.choice([1, 3])
            elif k == "empty":
                v = [None] + v                  # (a missing time)
            elif k == "ints":
                v = [r.randrange(0, 12) for _ in range(m)]
            if k != "same" and r.random() < 0.2:
                v.append(base * 40)
            r.shuffle(v)
            out.append(v)
        return out

    def run(self, plan, st):
        import numpy as np
        elev = np.zeros((plan["L"], plan["W"]))
        if "lists" in plan:
            data = [[float("nan") if x == "nan" else [float("nan") if y is None else y for y in x] for x in lst]
                    for lst in plan["lists"]]
        else:
            data = self.simulate(plan, st, elev)
        rf = plan["rf"]
        n = (plan["L"] // rf) * (plan["W"] // rf)
        if not n or not data:
            return
        kept = copy.deepcopy(data)
        results = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            raw = {}
            for c in plan["calls"]:
                d = c["d"] % len(data)
                if len(data[d]) != n:
                    raise Violation("wrong-number-of-chunks", got=len(data[d]), expected=n)
                for x in (dict(c, ws=1, fault=None), c):
                    maps = self.call(plan, st, data[d], elev, x)
                    results.append((maps, [m.copy() for m in maps]))
                    if x["ws"] == 1 and (d, x["td"]) not in raw:
                        raw[d, x["td"]] = results[-1][1]
                        self.judge_raw(plan, st, kept[d], maps, x)
                    self.judge_smooth(raw[d, x["td"]], maps, x)
                st.state("c29", repr(kept[d]), rf, c["td"], c["ws"], c["thr"])
            if plan["threads"]:
                self.concurrently(plan, st, data, elev, raw, results)
        if repr(data) != repr(kept):
            raise Violation("inputs-modified")
        for maps, was in results:
            if any(a.tobytes() != b.tobytes() for a, b in zip(maps, was)):
                raise Violation("earlier-result-changed")
            st.events.update(repr([m.tolist() for m in was]).encode())

    def simulate(self, plan, st, elev):
        import numpy as np
        import dorado.particle_track as pt
        from dorado import spatial
        rng.use(rng.Stream(rng.mix(plan["key"], "run")))
        part = pt.Particles(model.make_params(plan["world"]))
        roi = np.array(model.region(plan["world"], "block", 3))
        out = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for i, op in enumerate(plan["ops"]):
                mini.do(part, op)
                if i % 5 == 4 or i == len(plan["ops"]) - 1:
                    out.append(getattr(spatial, plan["which"])(part.walk_data, elev, roi, plan["rf"]))
        st.add("op.chunk-maps", len(out))
        return [[x if isinstance(x, list) else float("nan") for x in m] for m in out]

    def call(self, plan, st, lists, elev, c):
        import numpy as np
        from dorado import spatial
        kw = {}
        if c["ws"] is not None:
            kw["window_size"] = c["ws"]
        if c["thr"] is not None:
            kw["threshold"] = c["thr"]
        args = (lists, elev, c["td"], plan["rf"])
        res = None
        if c.get("fault"):
            exc = KeyboardInterrupt() if c["fault"][1] == "int" else MemoryError("simulated")
            tr = Fault(c["fault"][0], exc)
            try:
                sys.settrace(tr)
                res = spatial.compute_thresholds(*args, **kw)
            except (KeyboardInterrupt, MemoryError):
                if not tr.fired:
                    raise
                st.add("fault.percentiles-" + c["fault"][1])
            finally:
                sys.settrace(None)
        if res is None:
            res = spatial.compute_thresholds(*args, **kw)
        st.add("op.percentiles")
        maps = [np.asarray(m, dtype="f8") for m in res]
        want = (plan["L"] // plan["rf"], plan["W"] // plan["rf"])
        if len(maps) != 3 or any(m.shape != want for m in maps):
            raise Violation("wrong-shape", got=[m.shape for m in maps], expected=want)
        return maps

    def judge_raw(self, plan, st, lists, maps, c):
        cols = plan["W"] // plan["rf"]
        some = none = 0
        for i, item in enumerate(lists):
            t = usable(item)
            got = [float(m[i // cols, i % cols]) for m in maps]
            if len(set(t)) < 5:
                none += 1
                if any(g == g for g in got):
                    raise Violation("percentiles-of-too-few-times", chunk=i, got=got, times=t[:8])
                continue
            some += 1
            curve = Curve(t)
            for p, g in zip(PERC, got):
                lo, hi = curve.band(p)
                if not lo / c["td"] * (1 - 1e-12) <= g <= hi / c["td"] * (1 + 1e-12):
                    raise Violation("wrong-percentile", chunk=i, percentile=p, got=g, between=[lo / c["td"], hi / c["td"]],
                                    times=t[:12], unit=c["td"])
            if not got[0] <= got[1] <= got[2]:
                raise Violation("percentiles-out-of-order", chunk=i, got=got)
        if some > 1 or some and none:
            st.nontrivial = True

    def judge_smooth(self, raw, maps, c):
        size, thr = 5 if c["ws"] is None else c["ws"], 3 if c["thr"] is None else c["thr"]
        for k in range(3):
            want, unsure = local_filter(raw[k], size, thr)
            for i in range(want.shape[0]):
                for j in range(want.shape[1]):
                    a, b = float(maps[k][i, j]), float(want[i, j])
                    if (a == a) != (b == b) or b == b and not unsure[i, j] and not abs(a - b) <= 1e-9 * abs(b):
                        raise Violation("wrong-smoothing", percentile=PERC[k], chunk=[i, j], got=a, expected=b, window=size,
                                        threshold=thr, raw=raw[k].tolist())

    def concurrently(self, plan, st, data, elev, raw, results):
        k, sched = plan["threads"]
        out = []

        def body(i):
            def f():
                c = dict(plan["calls"][i % len(plan["calls"])], fault=None)
                d = (c["d"] + i) % len(data)
                rng.use_thread(threading.get_ident(), rng.Stream(rng.mix(2, i)))
                out.append((d, c, self.call(plan, session.Stats(), data[d], elev, c)))
            return f
        b = threads.Baton([body(i) for i in range(k)], sched)
        b.run()
        for e in b.errors:
            if e is not None:
                raise e
        st.add("probe.thread-switches", len(b.switches))
        for d, c, maps in out:
            results.append((maps, [m.copy() for m in maps]))
            if (d, c["td"]) not in raw:
                x = dict(c, ws=1, fault=None)
                raw[d, c["td"]] = self.call(plan, st, data[d], elev, x)
                self.judge_raw(plan, st, data[d], raw[d, c["td"]], x)
            self.judge_smooth(raw[d, c["td"]], maps, c)

    def simplify(self, plan):
        if plan["threads"]:
            yield dict(plan, threads=None)
        if len(plan["calls"]) > 1:
            for i in range(len(plan["calls"])):
                yield dict(plan, calls=plan["calls"][:i] + plan["calls"][i + 1:])
        if "lists" in plan:
            if len(plan["lists"]) > 1:
                for x in plan["lists"]:
                    yield dict(plan, lists=[x])
            for i, lst in enumerate(plan["lists"]):
                for j, x in enumerate(lst):
                    if x != "nan":
                        yield dict(plan, lists=plan["lists"][:i] + [lst[:j] + ["nan"] + lst[j + 1:]] + plan["lists"][i + 1:])
        elif len(plan["ops"]) > 1:
            for i in range(1, len(plan["ops"])):
                yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])


CHECK = C()
