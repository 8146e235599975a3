"""C20: nourishment maps count every recorded visit once."""
import json
import warnings

import model
import session
from props.common import *


class Visits:
    """Counts kept move by move, by what each call appended."""

    def __init__(self, w):
        import numpy as np
        self.shape = (w["L"], w["W"])
        self.np = np
        self.reset()

    def reset(self):
        self.n = self.np.zeros(self.shape)
        self.m = self.np.zeros(self.shape)
        self.t = self.np.zeros(self.shape)

    def add(self, walk, app):
        for p, a in enumerate(app):
            X, Y, T = walk["xinds"][p], walk["yinds"][p], walk["travel_times"][p]
            for j in range(a, len(X)):
                self.n[X[j], Y[j]] += 1
                if j >= 2:          # the visit before this one is now complete
                    c = X[j - 1], Y[j - 1]
                    self.m[c] += 1
                    self.t[c] += 0.5 * (T[j] - T[j - 2])

    def __call__(self, sess, ev):
        if ev.op["op"] == "clear" or ev.after is None:
            self.reset()
        elif ev.op["op"] == "restart" and ev.op.get("cut") is not None:
            self.reset()
            self.add(ev.after, [0] * len(ev.after["xinds"]))
        else:
            self.add(ev.after, ev.app)


class C(SessionCheck):
    id = "C20"
    quick = 6000
    thorough = 40000
    mix = {"gen": 1.2, "step": 5, "target": 3, "regime": 1.2, "restart": 1.2, "cut": 0.4, "clear": 0.2,
           "int-step": 0.5, "int-target": 0.5}
    long_rate = 0.004
    rule = ("generated sessions (revisited cells, unmoved particles, late seeds, restarts, interrupts) with counts of "
            "visits and occupation times kept move by move; after random operations the nourishment maps, with and "
            "without clipping and smoothing, are compared with them; non-trivial: a compared map has a revisited cell")
    states = "distinct (map, clip, smoothing, cells visited, largest count) tuples"

    def tweak(self, r, plan, tier):
        for op in plan["ops"]:
            if r.random() < 0.35:
                op["ask"] = [r.choice(["area", "time"]), r.choice([100, 100, 99.5, 90, 75, None]),
                             r.choice([0, 0, 0, 0.7, 1.5, None]), r.choice(["live", "ret", "json"])]
        return plan

    def oracles(self, st):
        return [lambda s, e: self.acc(s, e), self.ask]

    def run(self, plan, st):
        self.acc = Visits(plan["world"])
        super().run(plan, st)

    def ask(self, sess, ev):
        import numpy as np
        from dorado import particle_track as pt
        from scipy.ndimage import gaussian_filter
        live, walk = sess.part.walk_data, ev.after
        if not ev.op.get("ask") or live is None or walk is None or not walk["xinds"]:
            return
        what, clip, sigma, on = ev.op["ask"]
        kw = {k: v for k, v in (("clip", clip), ("sigma", sigma)) if v is not None}
        clip, sigma = 99.5 if clip is None else clip, 0.7 if sigma is None else sigma
        st = sess.stats
        if any(x != x or abs(x) > 1e300 for r in walk["travel_times"] for x in r):
            return
        if what == "time" and any(a > b for r in walk["travel_times"] for a, b in zip(r, r[1:])):
            return                      # diff_coeff above 2: what a negative occupation time means is nobody's promise
        tmax = max(abs(x) for r in walk["travel_times"] for x in r)
        data = live
        if on == "ret" and isinstance(ev.ret, dict) and same_walk(snap(ev.ret), walk):
            data = ev.ret
        elif on == "json":
            data = json.loads(json.dumps(walk))
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if what == "area":
                raw = self.acc.n.copy()
            else:
                raw = np.where(self.acc.m > 0, self.acc.t / np.maximum(self.acc.m, 1), 0.0)
            cap = float(np.percentile(raw, clip))
            if what == "area" and cap <= 0:
                return                                   # everything is clipped away: no map
            st.add("op.nourishment_" + what)
            got = getattr(pt, "nourishment_" + what)(data, sess.part.depth.shape, **kw)
            want = np.minimum(raw, cap)
            # rounding of the account itself
            eps = 1e-12 * (4 + self.acc.n.sum()) * (tmax if what == "time" else 1.0) + 1e-12
            # cells whose time is zero but for rounding may be there or not
            loose = np.zeros(want.shape, dtype=bool)
            if sigma:
                want = gaussian_filter(want, sigma=sigma)
                loose = (want <= want.min() + eps) & ((want != 0) | (what == "time"))
                want[want == want.min()] = np.nan
            else:
                if what == "time":
                    loose = np.abs(want) <= eps
                    never = self.acc.m == 0
                    loose &= ~never
                want[want == 0] = np.nan
            if what == "area":
                want = want / np.nanmax(want)
        if not same_walk(snap(data), walk):
            raise Violation("query-changed-history", query=what, first=diff_walk(walk, snap(data)))
        got = np.asarray(got, dtype=float)
        if got.shape != want.shape:
            raise Violation("wrong-shape", map=what, shape=got.shape, raster=want.shape)
        a, b = np.where(np.isnan(got), 0, got), np.where(np.isnan(want), 0, want)
        miss = (np.isnan(got) != np.isnan(want)) & ~loose
        off = (np.abs(a - b) > 4 * eps + 1e-9 * np.abs(b)) & ~(loose & (np.isnan(got) != np.isnan(want)))
        if miss.any() or off.any():
            c = tuple(int(x) for x in np.argwhere(miss | off)[0])
            raise Violation("map-off-count", map=what, cell=c, value=float(got[c]), expected=float(want[c]),
                            visits=float(self.acc.n[c]), clip=clip, sigma=sigma)
        top = int(self.acc.n.max())
        st.state("c20", what, clip, sigma, int((self.acc.n > 0).sum()), top)
        st.events.update(repr(a.sum()).encode())
        if any((x, y) in zip(X[:i], Y[:i]) for X, Y in zip(walk["xinds"], walk["yinds"])
               for i, (x, y) in enumerate(zip(X, Y))):
            st.nontrivial = True
            st.add("probe.map-with-revisited-cell")
        st.add("probe.map-compared")


CHECK = C()
