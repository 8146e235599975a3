"""C23: exposure time plots show and save exactly the exposures they are given."""
import json
import os
import re
from bisect import bisect_right

import fs
import model
import rng
import routines_sim as R
from props.common import *
from props import mini
from props.c11 import ERRS, parse

FIGS = {"plot": ["Exact_CETD.png", "Smooth_CETD.png", "ETD.png"], "thresholds": ["Smooth_CETD_thresholds.png"]}


def gen_faults(r):
    out = []
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.choice(["mkdir", "open", "open", "write", "write", "write", "close", "short"])
        m = r.choice(["exposure_times", "exposure_times", "Exact", "Smooth", "figs/ETD", ".png"])
        if k == "mkdir":
            f = {"op": "mkdir", "nth": r.randrange(3), "kind": r.choice(ERRS[:5] + ["crash"])}
        elif k == "open":
            f = {"op": "open", "match": m, "kind": r.choice(ERRS + ["crash"])}
        elif k == "short":
            f = {"op": "write", "kind": "short", "at": r.randrange(100), "match": m}
        elif k == "write":
            f = {"op": "write", "kind": r.choice(["ENOSPC", "EIO", "EDQUOT", "crash"]), "match": m,
                 "at": r.choice([0, 1, 2, r.randrange(30), r.randrange(300)])}
        else:
            f = {"op": "close", "kind": r.choice(["EIO", "lose", "crash"]), "match": m, "lost": r.choice([1, 10, 1000])}
        out.append(f)
    return out


class C(Check):
    id = "C23"
    quick = 1700
    thorough = 20000
    rule = ("exposure times of random runs (through the package's own accounting, or arbitrary lists: never entered, "
            "never left, repeated values, numpy types) plotted with both routines, saving or not, into new, nested, "
            "used and default folders, with full disks, failed opens, writes, closes and process death; saved list and "
            "drawn curves compared with the list given; non-trivial: a curve or file was compared or a fault fired")
    states = "distinct (routine, folder, unit, bins, particles shown, fault, outcome) tuples"
    stub = Check.stub + ["Figure.savefig rendering replaced by a fixed small file (the figure's artists are real)",
                         "disk faults injected below the real buffered file objects"]

    def gen(self, r, tier):
        w = model.gen_world(r)
        w["nan"] = 0.0
        ops = [mini.gen_op(r, w, j == 0) for j in range(r.choice([2, 4, 6]))] + [{"op": "step"}] * r.choice([1, 3, 8, 20])
        return {"world": w, "key": r.getrandbits(48), "ops": ops,
                "routine": r.choice(["plot", "plot", "thresholds"]),
                "source": r.choice(["real", "real", "list", "list", "ties", "none", "edge"]), "region": r.choice(["random", "block", "all"]),
                "rkey": r.randrange(9),
                "save": r.random() < 0.8, "folder": r.choice(["new", "new", "used", "nested", "cwd"]),
                "td": r.choice([1, 1, 60, 3600, 86400, 7, 0.5, 7200, 90]), "nbins": r.choice([100, 100, 10, 3, 2, 500]),
                "uniform": r.random() < 0.3, "show": r.random() < 0.3, "verbose": r.choice([None, None, True, False]),
                "again": r.random() < 0.4, "bare": r.random() < 0.5,
                "faults": gen_faults(r) if r.random() < 0.55 else []}

    def exposures(self, plan, r, part, walk, end):
        import numpy as np
        from dorado import particle_track as pt
        n = len(walk["xinds"])
        w = plan["world"]
        k = plan["source"]
        if k == "real":
            reg = np.ones((w["L"], w["W"]), dtype=int) if plan["region"] == "all" else model.region(w, plan["region"], plan["rkey"])
            return pt.exposure_time(part.walk_data, reg)
        if k == "none":
            return [0.0] * n
        if k == "edge":
            v = [0.8e-6, 1.2e-6, 0.9899 * end, 0.9901 * end, 0.4 * end, end]
            return [v[int(r() * 6)] for _ in range(n)]
        if k == "ties":
            v = [end * x for x in (0.0, 0.25, 0.25, 0.5)]
            return [v[int(r() * 4)] for _ in range(n)]
        return [end * (1.2 * r() if r() < 0.8 else 0.0) for _ in range(n)]

    def run(self, plan, st):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.go(plan, st)

    def go(self, plan, st):
        from dorado import particle_track as pt, routines
        w = plan["world"]
        rng.use(rng.Stream(rng.mix(plan["key"], "c23")))
        part = pt.Particles(model.make_params(w))
        for op in plan["ops"]:
            mini.do(part, op)
        if part.walk_data is None or not part.walk_data["xinds"]:
            return
        walk = snap(part.walk_data)
        ends = [t[-1] for t in walk["travel_times"]]
        end = max(ends) if plan["uniform"] else min(ends)
        if any(x != x or abs(x) > 1e15 for x in ends) or not end > 0:
            return
        st.add("moves", sum(len(x) - 1 for x in walk["xinds"]))
        st.simtime += sum(min(t[-1] - t[0], 1e6) for t in walk["travel_times"])
        s = rng.Stream(rng.mix(plan["key"], "exposures"))
        exp = self.exposures(plan, s.next_double, part, walk, end)
        given = [float(x) for x in exp]
        root = fs.fresh("c23")
        home = os.path.join(root, "home")
        os.mkdir(home)
        for p in ("notes.txt", "run1/notes.txt", "run1/data/data.txt"):
            os.makedirs(os.path.dirname(os.path.join(home, p)), exist_ok=True)
            with open(os.path.join(home, p), "w") as f:
                f.write("mine")
        name = {"new": "run2", "used": "run1", "nested": "a/b", "cwd": None}[plan["folder"]]
        pre = "" if name is None else name + os.sep
        cwd = os.getcwd()
        os.chdir(home)
        try:
            if plan["folder"] == "used" and plan["again"]:
                os.makedirs("run1/figs", exist_ok=True)
                for f in FIGS[plan["routine"]]:
                    with open("run1/figs/" + f, "wb") as g:
                        g.write(b"stale")
                with open("run1/data/exposure_times.txt", "w") as g:
                    g.write("[1.0, 2.0, 3.0]")
            self.users = set(R.tree(home))
            self.once(plan, st, routines, part, walk, exp, given, end, home, name, pre, plan["faults"])
            if plan["again"] and plan["faults"]:
                self.once(plan, st, routines, part, walk, exp, given, end, home, name, pre, [])
                st.add("probe.repeated-after-fault")
        finally:
            os.chdir(cwd)

    def once(self, plan, st, routines, part, walk, exp, given, end, home, name, pre, faults):
        kind, N = plan["routine"], len(walk["xinds"])
        shown = {}

        def hook(fig, fname):
            shown.setdefault(os.path.basename(str(fname)), []).append(self.curves(fig))
            self.unit(fig, plan, st)
            self.view(fig, plan, end, str(fname))
        kw = {"timedelta": plan["td"], "nbins": plan["nbins"], "save_output": plan["save"], "uniform_timesteps": plan["uniform"]}
        if plan.get("bare"):                         # (defaults left out)
            kw = {k: v for k, v in kw.items() if v != {"timedelta": 1, "nbins": 100, "save_output": True, "uniform_timesteps": False}[k]}
        if plan["verbose"] is not None:
            kw["verbose"] = plan["verbose"]
        if name is not None:
            kw["folder_name"] = os.path.join(home, name)
        if kind == "plot" and plan["show"]:
            kw["show_thresholds"] = True
        before = R.tree(home)
        sess = fs.Session(home, faults)
        exc = None
        with R.stub_figures(True, hook), sess:
            try:
                f = routines.plot_exposure_time if kind == "plot" else routines.plot_exposure_time_thresholds
                f(part.walk_data, exp, **kw)
            except fs.SimCrash as e:
                exc = e
            except Exception as e:
                if not sess.fired:
                    raise
                exc = e
            import matplotlib.pyplot as plt
            left = [] if plan["save"] or exc is not None else [self.curves(plt.figure(i)) for i in plt.get_fignums()]
        for o, k in sess.fired:
            st.add("fault.%s-%s" % (o, k))
        hard = [x for x in sess.fired if x[1] != "short"]
        after = R.tree(home)
        info = dict(routine=kind, folder=plan["folder"], fired=sess.fired, error=repr(exc))
        if not same_walk(snap(part.walk_data), walk) or [float(x) for x in exp] != given:
            raise Violation("plot-changed-its-input", **info)
        data = after.get(pre + os.path.join("data", "exposure_times.txt"))
        plotted = sorted(x for x in given if 1e-6 < x < 0.99 * end)
        st.add("op." + kind)
        st.state("c23", kind, plan["folder"], plan["td"], plan["nbins"], len(plotted), N, str(sess.fired), exc is None, plan["save"])
        st.events.update(repr((given, sess.fired, exc is None)).encode())
        st.nontrivial = True
        own = {pre + os.path.join("figs", x) for x in FIGS[kind]} | {pre + os.path.join("data", "exposure_times.txt")}
        for p, b in before.items():
            if p in self.users and p not in own and (p not in after or after[p] != b):
                raise Violation("other-file-changed", path=p, **info)
        for p in after:
            if p not in before and not (p.startswith(pre) or (p.endswith("/") and pre.startswith(p))):
                raise Violation("file-created-elsewhere", path=p, **info)
        if exc is not None:
            # (a list only parses when it is complete)
            d = None if data is None else parse(data)
            if kind == "plot" and d is not None and d != given and data != before.get(pre + os.path.join("data", "exposure_times.txt")):
                raise Violation("partial-list-parses", **info)
            st.add("probe.failed-call-checked")
            return
        if hard:
            raise Violation("io-error-swallowed", **info)
        if plan["save"]:
            if kind == "plot":
                d = None if data is None else parse(data)
                if d != given:
                    raise Violation("saved-exposures-differ", saved=None if d is None else d[:8], given=given[:8], **info)
            for x in FIGS[kind]:
                b = after.get(pre + os.path.join("figs", x))
                if b != R.PNG:
                    raise Violation("figure-missing-or-incomplete", figure=x, size=None if b is None else len(b), **info)
            figs = [(x, c) for x in FIGS[kind] for c in shown.get(x, [])]
        else:
            if after != before:
                raise Violation("file-written-though-not-saving", **info)
            figs = list(zip(FIGS[kind], left))
            if len(left) != len(FIGS[kind]):
                raise Violation("wrong-number-of-figures", figures=len(left), **info)
        for x, c in figs:
            self.judge(x, c, plotted, N, end, plan, info, st)

    def curves(self, fig):
        """[(x, y, drawn as steps)] of every line of the figure."""
        import numpy as np
        return [(np.asarray(ln.get_xdata(), dtype=float).tolist(), np.asarray(ln.get_ydata(), dtype=float).tolist(),
                 ln.get_drawstyle()) for ax in fig.axes for ln in ax.lines]

    def view(self, fig, plan, end, name):
        """The cumulative curves are inside the part of the axes that is shown, and fill it."""
        if "CETD" not in name or not fig.axes:
            return
        (a, b), (c, d) = fig.axes[0].get_xlim(), fig.axes[0].get_ylim()
        e = end / plan["td"]
        if not (a <= 1e-9 * e and e * (1 - 1e-9) <= b <= 2 * e and -e <= a and c <= 1e-9 and 1 - 1e-9 <= d <= 2):
            raise Violation("curve-outside-the-view", x=[a, b], y=[c, d], end=e)

    def unit(self, fig, plan, st):
        """The time axis names the unit its numbers are in."""
        label = [ax.get_xlabel() for ax in fig.axes if ax.get_xlabel()]
        td = plan["td"]
        for t in label:
            words = re.findall(r"[a-z]+|[\d.]+", t.lower().replace("time", " "))
            if not words:
                continue
            name = [x for x in words if x[0].isalpha()]
            num = [float(x) for x in words if re.fullmatch(r"\d+\.?\d*", x)]
            per = {"s": 1, "m": 60, "h": 3600, "d": 86400}.get(name[0][0] if name else "")
            if len(num) > 1 or len(name) != 1 or per is None:
                continue                             # (named in some other way)
            if abs((num[0] if num else 1) * per - td) > 1e-9 * td:
                raise Violation("axis-names-another-unit", label=t, unit=td)
            st.add("probe.axis-units")

    def judge(self, name, curves, plotted, N, end, plan, info, st):
        """The cumulative curves: the share of all particles that have left for good by then."""
        td = plan["td"]
        lines = [c for c in curves if len(c[0]) > 2 or len(c[0]) == 2 and c[1][0] != c[1][1] or len(c[0]) == 2 and not plotted]
        tol = 1e-9
        info = dict(info, figure=name, particles=N, exposures=[x / td for x in plotted[:8]], end=end / td)
        if not lines and not (name.startswith("ETD") and curves):
            raise Violation("curve-not-drawn", **info)
        X, Y, style = (lines or curves)[0]
        if name.startswith("ETD"):
            # the density: the slope of the straight lines between the jumps
            import numpy as np
            if len(X) != plan["nbins"]:
                raise Violation("wrong-number-of-bins", drawn=len(X), asked=plan["nbins"], **info)
            if len(set(plotted)) != len(plotted) or any(b - a < 1e-9 * end for a, b in zip([0.0] + plotted, plotted + [end])):
                return
            s = np.linspace(0, end, plan["nbins"])
            k = len(plotted)
            c = np.interp(s, [0.0] + plotted + [end], [i / N for i in range(k + 1)] + [k / N])
            want = np.gradient(c, s[1] - s[0]) * td
            scale = max(float(np.max(np.abs(want))), 1e-300)
            for x, y, e, t in zip(X, Y, want, s):
                if abs(x - t / td) > 1e-9 * max(end / td, 1e-300) or abs(y - e) > 1e-6 * scale:
                    raise Violation("density-is-not-the-slope", time=x, drawn=y, slope=float(e), **info)
            st.add("probe.densities-compared")
            return

        def F(t):
            """Both one-sided values at a jump."""
            a = bisect_right(plotted, t * td * (1 + tol) + 1e-12) / N
            b = bisect_right(plotted, t * td * (1 - tol) - 1e-12) / N
            return b, a
        if abs(X[0]) > 1e-12 or abs(X[-1] * td - end) > tol * end:
            raise Violation("curve-over-another-time-range", first=X[0], last=X[-1], **info)
        seen = {}
        for x, y in zip(X, Y):
            lo, hi = F(x)
            if not (lo - 1e-9 <= y <= hi + 1e-9):
                raise Violation("curve-is-not-the-distribution", time=x, drawn=y, share=(lo, hi), **info)
            seen.setdefault(x, y)
        if name.startswith("Exact"):
            # drawn as steps: every jump is there, at its time
            if abs(max(Y) - len(plotted) / N) > 1e-9:
                raise Violation("curve-is-not-the-distribution", drawn=max(Y), share=len(plotted) / N, **info)
            for j in range(len(X) - 1):
                if style.startswith("steps") and X[j + 1] - X[j] > 1e-6 * X[j + 1]:
                    m = (X[j] + X[j + 1]) / 2
                    y = {"steps-post": Y[j], "steps-pre": Y[j + 1], "steps": Y[j + 1]}.get(style)
                    if style == "steps-mid":
                        m, y = X[j] * 0.75 + X[j + 1] * 0.25, Y[j]
                    lo, hi = F(m)
                    if not lo - 1e-9 <= y <= hi + 1e-9:
                        raise Violation("curve-is-not-the-distribution", time=m, drawn=y, share=(lo, hi), style=style, **info)
            for p in plotted:
                if not any(abs(x * td - p) <= tol * max(p, 1e-9) for x in X):
                    raise Violation("exposure-not-in-the-curve", exposure=p / td, **info)
        elif len(X) != plan["nbins"]:
            raise Violation("wrong-number-of-bins", drawn=len(X), asked=plan["nbins"], **info)
        st.add("probe.curves-compared")

    def simplify(self, plan):
        for k, v in (("folder", "new"), ("nbins", 10), ("td", 1), ("again", False), ("source", "list"), ("faults", plan["faults"][:1]), ("faults", [])):
            if plan[k] != v:
                yield dict(plan, **{k: v})


CHECK = C()
