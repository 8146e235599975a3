"""C30: the same flow handed over in any sufficient form gives the same run; insufficient input is refused."""
import copy
import math
import warnings

import boot
import model
import rng
import session
from props import mini
from props.common import *

PARAMS = {"theta": 1.0, "gamma": 0.05, "diff_coeff": 0.2, "dry_depth": 0.1, "steepest_descent": False}


def flow(w):
    """(depth, stage, topography, velocity down the rows, velocity along the columns, ROI): exactly convertible numbers."""
    import numpy as np
    g = rng.nprng(rng.mix("c30", w["seed"]))
    L, W = w["L"], w["W"]
    depth = g.integers(1, 13, (L, W)) * 0.25
    depth[g.random((L, W)) < w["dryness"]] = 0.0
    depth[g.random((L, W)) < 0.1] *= 0.0625                      # (some below the usual dry depth)
    stage = 8.0 + g.integers(0, 9, (L, W)) * 0.125
    topo = stage - depth
    a = g.random() * 6.3
    vr = w["speed"] * (math.sin(a) + 0.5 * (2 * g.random((L, W)) - 1))
    vc = w["speed"] * (math.cos(a) + 0.5 * (2 * g.random((L, W)) - 1))
    still = (depth == 0) | (g.random((L, W)) < w["still"])
    vr[still], vc[still] = 0.0, 0.0
    roi = (g.random((L, W)) < 0.4).astype(int)
    return depth, stage, topo, vr, vc, roi


def d8():
    """The geometry of the eight directions, as it is when none is given."""
    import numpy as np
    from math import pi
    q, h = np.sqrt(2), np.sqrt(0.5)
    return {"distances": np.array([[q, 1, q], [1, 1, 1], [q, 1, q]]),
            "ivec": np.array([[-h, 0, h], [-1, 0, 1], [-h, 0, h]]), "jvec": np.array([[-h, -1, -h], [0, 0, 0], [h, 1, h]]),
            "iwalk": np.array([[-1, 0, 1]] * 3), "jwalk": np.array([[-1] * 3, [0] * 3, [1] * 3]),
            "angles": np.array([[3 * pi / 4, pi / 2, pi / 4], [pi, 0, 0], [5 * pi / 4, 3 * pi / 2, 7 * pi / 4]])}


class C(Check):
    id = "C30"
    quick = 4000
    thorough = 40000
    rule = ("generated flows with exactly convertible numbers, handed over in two to five seeded forms (depth, stage and "
            "topography in every sufficient choice; discharge, velocity or both; axis conventions; missing values or high "
            "ground in dry cells; defaults spelled out; types and memory layouts), one parameter object filled in seeded "
            "order with attempts on the way; the same operations under the same draws; non-trivial: two forms moved")
    states = "distinct (flow, form) pairs"

    def gen(self, r, tier):
        w = {"L": r.choice([5, 6, 8, 10]), "W": r.choice([5, 6, 7, 9, 12]), "seed": r.getrandbits(32), "dx": r.choice([1.0, 5.0, 10.0]),
             "dryness": r.choice([0, 0.1, 0.3]), "speed": r.choice([0.5, 1.0, 3.0]), "still": r.choice([0, 0, 0.2]),
             "roi": r.random() < 0.4, "ct": r.random() < 0.3, "track": []}
        par = {}
        if r.random() < 0.6:
            par = {"theta": r.choice([1.0, 0.0, 2.0]), "gamma": r.choice([0.05, 0.0, 0.5, 1.0]), "diff_coeff": r.choice([0.2, 0.0, 1.0]),
                   "dry_depth": r.choice([0.1, 0.25, 0.01]), "steepest_descent": r.random() < 0.15}
            par = {k: v for k, v in par.items() if r.random() < 0.5}
        w["par"] = par
        if r.random() < 0.3:
            w["track"] = r.sample(model.TRACKABLE, r.randint(1, 3))
        xs, ys = list(range(1, w["L"] - 1)), list(range(1, w["W"] - 1))
        ops = [mini.gen_op(r, w, True)] + [mini.gen_op(r, w) for _ in range(r.choice([3, 6, 10]))]
        for op in ops:
            if op["op"] == "gen":
                op.update(n=r.choice([1, 2, 3]), m="random", xs=r.sample(xs, min(3, len(xs))), ys=r.sample(ys, min(3, len(ys))))
        forms = [self.gen_form(r, w) for _ in range(r.choice([2, 2, 3, 4]))]
        return {"world": w, "key": r.getrandbits(48), "ops": ops, "forms": forms}

    def gen_form(self, r, w):
        f = {"give": r.choice(["ds", "dt", "st", "st", "dst"]), "vel": r.choice(["q", "q", "uv", "uv", "both", "uv+qx", "uv+qy", "q+u"]),
             "model": r.choice([None, "DeltaRCM", "DeltaRCM", "ANUGA", "Delft3D", ""]),
             "nan": r.sample(["depth", "stage", "q", "high"], r.choice([0, 0, 1, 2])),
             "spell": [k for k in PARAMS if r.random() < 0.3], "layout": r.choice(["C", "C", "C", "F", "strided", "read-only"]),
             "order": r.getrandbits(20) if r.random() < 0.5 else None,
             "ints": r.sample(["dx", "theta", "roi", "ct", "track"], r.choice([0, 0, 1, 2])),
             "d8": r.sample(["distances", "ivec", "jvec", "iwalk", "jwalk", "angles"], r.choice([0, 0, 0, 1, 2, 6])),
             "n": r.choice(["int", "int", "int", "float", "i8", "f8", "i4"]),
             "cells": r.choice(["list", "list", "list", "tuple", "array", "column", "floats", "short-ints"]),
             "negdc": r.random() < 0.5, "estimate": r.random() < 0.5, "verbose": r.choice([None, None, False, True])}
        return f

    def given(self, w, f):
        """The attributes of the parameter object, in no particular order."""
        import numpy as np
        depth, stage, topo, vr, vc, roi = [x.copy() for x in flow(w)]
        dry = depth == 0
        a = {"dx": w["dx"]}
        n = f["nan"]
        d, s, t = depth.copy(), stage.copy(), topo.copy()
        if "depth" in n:
            d[dry] = np.nan
        if "stage" in n:
            s[dry] = np.nan
        if "high" in n and f["give"] == "st":
            t[dry] = t[dry] + 0.25
        if "d" in f["give"]:
            a["depth"] = d
        if "s" in f["give"]:
            a["stage"] = s
        if "t" in f["give"]:
            a["topography"] = t
        vel = {"u": vr, "v": vc, "qx": vr * depth, "qy": vc * depth}
        if f["model"] != "DeltaRCM":                    # x along the columns, y up
            vel = {"u": vc, "v": -vr, "qx": vc * depth, "qy": -(vr * depth)}
        if "q" in n:
            for k in vel:
                vel[k] = vel[k].copy()
                vel[k][dry] = np.nan
        for k in {"q": ["qx", "qy"], "uv": ["u", "v"], "both": ["qx", "qy", "u", "v"], "uv+qx": ["u", "v", "qx"],
                  "uv+qy": ["u", "v", "qy"], "q+u": ["qx", "qy", "u"]}[f["vel"]]:
            a[k] = vel[k]
        par = dict(w["par"])
        for k in f["spell"]:
            if k == "diff_coeff" and w["par"].get("steepest_descent"):
                continue                                # (off by default then)
            par.setdefault(k, PARAMS[k])
        if f["negdc"] and par.get("diff_coeff") == 0.0:
            par["diff_coeff"] = -0.5
        if not w["ct"] and not f["estimate"] or w["ct"]:
            ct = np.zeros((w["L"], w["W"]), dtype=int)
            ct[depth < w["par"].get("dry_depth", 0.1)] = 2
            ct[0, :] = ct[-1, :] = ct[:, 0] = ct[:, -1] = -1
            if w["ct"]:
                ct[1, 1:-1] = 2
            a["cell_type"] = ct.astype("i1") if "ct" in f["ints"] else ct
        if w["roi"]:
            a["roi_grid"] = roi.astype(bool) if "roi" in f["ints"] else roi
        if f["model"] is not None:
            a["model"] = f["model"]
        if w["track"]:
            a["particle_variables"] = tuple(w["track"]) if "track" in f["ints"] else list(w["track"])
        if f["verbose"] is not None:
            a["verbose"] = f["verbose"]
        if "dx" in f["ints"]:
            a["dx"] = int(a["dx"])
        if "theta" in f["ints"] and "theta" in par:
            par["theta"] = int(par["theta"])
        for k in f["d8"]:
            a[k] = d8()[k]
        a.update(par)
        return {k: model.laid_out(v, f["layout"]) if isinstance(v, np.ndarray) else v for k, v in a.items()}

    def enough(self, p):
        has = lambda k: getattr(p, k, None) is not None
        return (has("dx") and (has("depth") or has("stage") and has("topography")) and
                (has("stage") or has("topography") and has("depth")) and (has("qx") and has("qy") or has("u") and has("v")))

    def build(self, w, f, st):
        import random
        import dorado.particle_track as pt
        a = self.given(w, f)
        kept = copy.deepcopy(a)
        p = pt.modelParams()
        names = sorted(a)
        if f["order"] is not None:
            random.Random(f["order"]).shuffle(names)
        for i, k in enumerate(names):
            setattr(p, k, a[k])
            if f["order"] is not None and not self.enough(p) and (f["order"] >> i) & 1:
                try:
                    pt.Particles(p)
                except Exception:
                    st.add("probe.insufficient-refused")
                else:
                    raise Violation("insufficient-input-accepted", given=names[:i + 1])
        if w["roi"] and f["order"] is not None and f["order"] % 5 == 0:
            p.roi_grid = a["roi_grid"][:-1]
            try:
                pt.Particles(p)
            except Exception:
                st.add("probe.wrong-roi-refused")
            else:
                raise Violation("roi-of-another-shape-accepted")
            p.roi_grid = a["roi_grid"]
        part = pt.Particles(p)
        import numpy as np
        for k, v in kept.items():
            if isinstance(v, np.ndarray) and (a[k].dtype != v.dtype or not np.array_equal(a[k], v, equal_nan=v.dtype.kind == "f")):
                raise Violation("input-array-modified", array=k)
        return part

    def play(self, plan, st, f, n=None):
        part = self.build(plan["world"], f, st)
        out = []
        for i, op in enumerate(plan["ops"][:n]):
            rng.use(rng.Stream(rng.mix(plan["key"], i)))
            mini.do(part, self.seeding(op, f) if op["op"] == "gen" else op)
            out.append(session.snap(part.walk_data))
        st.add("op.form-%s-%s" % (f["give"], f["vel"]))
        return out

    def seeding(self, op, f):
        """The same seeding, its number and cells in another form."""
        import numpy as np
        n = {"int": int, "float": float, "i8": np.int64, "f8": np.float64, "i4": np.int32}[f["n"]](op["n"])
        how = {"list": list, "tuple": tuple, "array": np.array, "column": lambda v: np.array(v).reshape(-1, 1),
               "floats": lambda v: [float(x) for x in v], "short-ints": lambda v: np.array(v, dtype="i4")}[f["cells"]]
        return dict(op, n=n, xs=how(op["xs"]), ys=how(op["ys"]))

    def run(self, plan, st):
        import numpy as np
        w = plan["world"]
        plain = {"give": "ds", "vel": "q", "model": "DeltaRCM", "nan": [], "spell": [], "layout": "C", "order": None, "ints": [],
                 "negdc": False, "estimate": True, "verbose": None, "n": "int", "cells": "list", "d8": []}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            base = {"q": self.play(plan, session.Stats(), plain), "uv": self.play(plan, session.Stats(), dict(plain, vel="uv"))}
            # discharge and velocity: the same places, times up to the rounding of the conversion
            for i, op in enumerate(plan["ops"]):
                if op["op"] == "target":
                    break
                a, b = base["q"][i], base["uv"][i]
                self.close(a, b, "discharge or velocity", i)
            for f in plan["forms"]:
                got = self.play(plan, st, f)
                want = [base[k] for k in {"q": ["q"], "q+u": ["q"], "uv": ["uv"], "uv+qx": ["uv"], "uv+qy": ["uv"],
                                          "both": ["q", "uv"]}[f["vel"]]]
                if not any(len(got) == len(x) and all(same_walk(a, b) for a, b in zip(got, x)) for x in want):
                    i = next((i for i, (a, b) in enumerate(zip(got, want[0])) if not same_walk(a, b)), -1)
                    raise Violation("form-changes-run", form=f, after_operation=i, first=diff_walk(want[0][i], got[i]))
                if any(len(x) > 1 for x in got[-1]["xinds"]):
                    st.nontrivial = True
                st.state("c30", w["seed"], f["give"], f["vel"], f["model"], tuple(f["nan"]), f["layout"])
                st.events.update(repr(got[-1]).encode())

    def close(self, a, b, what, i):
        for k in ("xinds", "yinds"):
            if a[k] != b[k]:
                raise Violation("form-changes-run", form=what, after_operation=i, variable=k)
        for x, y in zip(a["travel_times"], b["travel_times"]):
            for s, t in zip(x, y):
                if not abs(s - t) <= 2e-5 * (abs(s) + abs(t)) + 1e-9:
                    raise Violation("form-changes-run", form=what, after_operation=i, variable="travel_times", times=[s, t])

    def simplify(self, plan):
        for i in range(len(plan["forms"])):
            if len(plan["forms"]) > 1:
                yield dict(plan, forms=plan["forms"][:i] + plan["forms"][i + 1:])
        for i in range(1, len(plan["ops"])):
            yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
        for i, f in enumerate(plan["forms"]):
            for k, v in (("nan", []), ("spell", []), ("layout", "C"), ("order", None), ("ints", []), ("verbose", None), ("estimate", True),
                         ("n", "int"), ("cells", "list"), ("d8", [])):
                if f[k] != v:
                    yield dict(plan, forms=plan["forms"][:i] + [dict(f, **{k: v})] + plan["forms"][i + 1:])


CHECK = C()
