"""C25: geographic coordinates describe the history as it is when they are asked for."""
import copy
import json
import sys
import warnings

import boot
import model
import rng
import session
from props.common import *

ORIGINS = [(0, 0), (2, 5), (0.0, 0.0), (624082.0, 3346870.25), (-91.437, 29.502), (-1e5, -2e6), (0.1, 0.3),
           (500000, 4649776), (-0.5, 0.5)]


def eps(v):
    return abs(v) * 2.0 ** -50 + 1e-300


class Raster:
    """An independent restatement of the documented transform."""

    def __init__(self, c, L, W):
        self.c, self.L, self.W = c, L, W
        self.cs = c["cs"]
        self.o = c["origin"]

    def args(self):
        import numpy as np
        o, s = self.o, (self.L, self.W)
        if self.c["form"] == "np":
            o, s = tuple(np.array(o, dtype=float)), np.zeros(s).shape
        elif self.c["form"] == "list":
            o, s = list(o), list(s)
        return o, s, self.cs

    def x(self, j):
        return float(self.o[0]) + float(j) * float(self.cs)

    def y(self, i):
        return float(self.o[1]) + float(self.L - i) * float(self.cs)

    def tol(self, axis):
        return 8 * eps(abs(float(self.o[axis])) + float(self.cs) * (self.L + self.W))


class C(SessionCheck):
    id = "C25"
    quick = 5000
    thorough = 50000
    mix = {"gen": 2, "step": 6, "target": 2.5, "regime": 1, "restart": 2, "cut": 0.5, "clear": 0.3, "bad": 0.3}
    track_rate = 0.4
    rule = ("generated sessions with conversions of the history (the live one, the one a call returned, a copy, its JSON "
            "reload) placed after random operations, some interrupted at a line and repeated, and particles seeded "
            "through coordinates; the same session without any conversion is run beside it; non-trivial: a history "
            "with moves was converted")
    states = "distinct (raster transform, kind of history, lengths) tuples"

    def tweak(self, r, plan, tier):
        w = plan["world"]
        rs = []
        for _ in range(r.choice([1, 1, 2])):
            o = r.choice(ORIGINS)
            cs = r.choice([w["dx"], w["dx"], 1, 10, 0.5, 1e-4, 30.0, 1.0 / 3])
            if abs(o[0]) > 1e3 and cs < 0.1:
                cs = 0.5
            rs.append({"origin": list(o), "cs": cs, "form": r.choice(["tuple", "np", "list"])})
        plan["rasters"] = rs
        for op in plan["ops"]:
            op.pop("int", None)
            if op["op"] == "gen" and not op.get("nd") and r.random() < 0.5:
                op["via"] = {"r": r.randrange(len(rs)), "off": [[round(r.uniform(-0.49, 0.49), 3) if r.random() < 0.6 else 0.0
                                                                for _ in range(2)] for _ in range(24)]}
            cs = []
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                c = {"r": r.randrange(len(rs)), "on": r.choice(["live", "live", "ret", "copy", "json"])}
                if r.random() < 0.1:
                    c["line"] = int(2 ** r.uniform(0, 7))
                cs.append(c)
            op["conv"] = cs
        return plan

    def oracles(self, st):
        return []

    def run(self, plan, st):
        plain = self.session(plan, st, False)
        conv = self.session(plan, st, True)
        if len(plain) != len(conv):
            raise Violation("conversions-changed-the-run", operations=[len(plain), len(conv)])
        for i, (a, b) in enumerate(zip(plain, conv)):
            if not same_walk(a, b):
                raise Violation("conversions-changed-the-run", after_operation=i, first=diff_walk(a, b))
        st.events.update(json.dumps(plain[-1:]).encode())

    def session(self, plan, st, on):
        import dorado.particle_track as pt
        stats = st if on else session.Stats()
        s = Session(plan["world"], plan["key"], stats, plan.get("extreme", 0.0))
        out = []
        for op in plan["ops"]:
            if s.steps_left <= 0 or s.broken:
                break
            if op["op"] in ("step", "target") and s.part.walk_data is None:
                continue
            if on and op.get("via") and op["op"] == "gen":
                op = dict(op, **self.seeds(plan, st, op, s))
            ev = s.apply(op)
            if on:
                for c in op.get("conv") or ():
                    self.convert(plan, st, s, ev, c)
            live = snap(s.part.walk_data)
            keep = None
            if live is not None:
                keep = {k: v for k, v in live.items() if k in session.BASE or k in s.ref.tracked}
            out.append(keep)
        return out

    def seeds(self, plan, st, op, s):
        """The seed cells of the operation, looked up from points in and around their centres."""
        import dorado.particle_track as pt
        ra = Raster(plan["rasters"][op["via"]["r"] % len(plan["rasters"])], s.w["L"], s.w["W"])
        off = op["via"]["off"]
        o, size, cs = ra.args()
        out = {}
        n = max(len(op["xs"]), len(op["ys"]))
        if not n or not op["xs"] or not op["ys"]:
            return {}
        cells = [(op["xs"][i % len(op["xs"])], op["ys"][i % len(op["ys"])]) for i in range(n)]
        pts = [(ra.x(j + off[q % len(off)][0]), ra.y(i + off[q % len(off)][1])) for q, (i, j) in enumerate(cells)]
        if ra.c["form"] == "list":
            pts = [list(p) for p in pts]
        given = copy.deepcopy(pts)
        got = pt.coord2ind(pts, o, size, cs)
        if pts != given:
            raise Violation("coordinates-modified", given=given[:3], now=pts[:3])
        if [tuple(session.plain(v) for v in g) for g in got] != cells:
            raise Violation("wrong-cells", coordinates=given[:6], cells=cells[:6], got=repr(got[:6]), raster=ra.c,
                            shape=[ra.L, ra.W])
        st.add("op.coord2ind")
        return {"xs": [got[i][0] for i in range(len(op["xs"]))], "ys": [got[i][1] for i in range(len(op["ys"]))]}

    def convert(self, plan, st, s, ev, c):
        import dorado.particle_track as pt
        live = s.part.walk_data
        if live is None:
            return
        data = live
        if c["on"] == "ret" and isinstance(ev.ret, dict) and ev.ret.get("xinds") is not None:
            data = ev.ret
        elif c["on"] == "copy":
            data = copy.deepcopy(live)
        elif c["on"] == "json":
            data = json.loads(json.dumps(live))     # (with whatever coordinates it holds by now)
        ra = Raster(plan["rasters"][c["r"] % len(plan["rasters"])], s.w["L"], s.w["W"])
        o, size, cs = ra.args()
        before = {k: v for k, v in snap(data).items() if k not in ("xcoord", "ycoord")}
        lines = session.LineInterrupt(c["line"]) if c.get("line") is not None else None
        res = None
        try:
            if lines is not None:
                sys.settrace(lines)
            res = pt.ind2coord(data, o, size, cs)
        except KeyboardInterrupt:
            if lines is None or not lines.fired:
                raise
            st.add("fault.conversion-interrupted")
        finally:
            sys.settrace(None)
        if res is None:
            if not same_walk({k: v for k, v in snap(data).items() if k not in ("xcoord", "ycoord")}, before):
                raise Violation("conversion-changed-history", interrupted=True)
            res = pt.ind2coord(data, o, size, cs)
        st.add("op.ind2coord-" + c["on"])
        for what, d in (("given", data), ("returned", res)):
            now = {k: v for k, v in snap(d).items() if k not in ("xcoord", "ycoord")}
            if not same_walk(now, before):
                raise Violation("conversion-changed-history", which=what, first=diff_walk(before, now))
        n = len(before["xinds"])
        for k in ("xcoord", "ycoord"):
            if k not in res or len(res[k]) != n or any(len(res[k][p]) != len(before["xinds"][p]) for p in range(n)):
                raise Violation("coordinates-misaligned", variable=k, on=c["on"],
                                coordinates=[len(x) for x in res.get(k, [])], points=[len(x) for x in before["xinds"]])
        pts = []
        for p in range(n):
            for q, (i, j) in enumerate(zip(before["xinds"][p], before["yinds"][p])):
                x, y = float(res["xcoord"][p][q]), float(res["ycoord"][p][q])
                pts.append((x, y))
                if not abs(x - ra.x(j)) <= ra.tol(0) or not abs(y - ra.y(i)) <= ra.tol(1):
                    raise Violation("wrong-coordinates", particle=p, point=q, cell=[i, j], got=[x, y],
                                    expected=[ra.x(j), ra.y(i)], raster=ra.c, shape=[ra.L, ra.W], on=c["on"])
        back = pt.coord2ind(pts, o, size, cs)
        cells = [(i, j) for p in range(n) for i, j in zip(before["xinds"][p], before["yinds"][p])]
        if [tuple(session.plain(v) for v in g) for g in back] != cells:
            q = [a != b for a, b in zip([tuple(g) for g in back], cells)].index(True) if len(back) == len(cells) else -1
            raise Violation("conversion-not-invertible", point=q, got=repr(back[q]), cell=cells[q], raster=ra.c,
                            shape=[ra.L, ra.W])
        json.dumps(res)
        if len(cells) > n:
            st.nontrivial = True
        st.state("c25", repr(ra.c), c["on"], tuple(sorted(len(x) for x in before["xinds"]))[:6])


CHECK = C()
