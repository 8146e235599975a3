"""C22: what the pictures show is what the particles did."""
import os
import re
from collections import Counter

import fs
import model
import rng
import routines_sim as R
from props.common import *
from props import mini


def axes_with(fig, grid):
    """The axes of the figure that show the grid (any cell values masked as not-a-number by the plot)."""
    import numpy as np
    out = []
    for ax in fig.axes:
        for im in ax.get_images():
            a = im.get_array()
            if a is None or np.ndim(a) != 2 or np.shape(a) != np.shape(grid):
                continue
            x = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
            if np.array_equal(x, np.asarray(grid, dtype=float), equal_nan=True):
                out.append(ax)
                break
    return out


def pairs(xy):
    return Counter((float(x), float(y)) for x, y in xy)


def point_sets(ax):
    """Every set of marks drawn in the axes: [(Counter of (x, y), [(x, y, value)] or None)]."""
    import numpy as np
    out = []
    for c in ax.collections:
        if hasattr(c, "get_sizes"):                      # scatter
            xy = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
            v = c.get_array()
            v = None if v is None or len(v) != len(xy) else Counter(
                (float(p[0]), float(p[1]), round(float(t), 9)) for p, t in zip(xy, np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)))
            out.append((pairs(xy), v))
    for ln in ax.lines:
        if ln.get_marker() not in (None, "", " ", "None"):
            out.append((pairs(zip(ln.get_xdata(), ln.get_ydata())), None))
    return out


def at(walk, i):
    """Positions (column, row) and times of all particles at recorded point i."""
    return ([(y[i], x[i]) for x, y in zip(walk["xinds"], walk["yinds"])],
            [t[i] for t in walk["travel_times"]])


def polylines(ax):
    """Vertex lists of every line drawn in the axes."""
    from matplotlib.collections import LineCollection
    out = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            out += [[(float(x), float(y)) for x, y in seg] for seg in c.get_segments()]
    for ln in ax.lines:
        out.append([(float(x), float(y)) for x, y in zip(ln.get_xdata(), ln.get_ydata())])
    return out


class C(Check):
    id = "C22"
    quick = 1300
    thorough = 15000
    rule = ("steady, time and unsteady plots (into new or used folders, some stopped by a failing disk), path, tail, "
            "state and nourishment plots of random histories with restarts; every figure is examined at the moment it "
            "is written (or returned) and compared with the recorded positions of its step; non-trivial: a figure was "
            "examined")
    states = "distinct (plot kind, step, particles, positions shown twice or moved, faults) tuples"
    stub = Check.stub + ["Figure.savefig rendering replaced by a fixed small file (the figure's artists are real)",
                         "disk faults injected below the real buffered file objects"]

    def gen(self, r, tier):
        kind = r.choice(["steady", "time", "unsteady", "path", "snake", "state", "nourishment"])
        w = model.gen_world(r, **(R.UNSTEADY_WORLD if kind == "unsteady" else {}))
        w["steep"] = r.random() < 0.1
        plan = {"world": w, "kind": kind, "key": r.getrandbits(48), "n": r.choice([1, 2, 2, 3, 4, 6]), "fault": None}
        if kind == "unsteady":
            w["dtype"] = "f8"
            w["crest"] = r.random() < 0.3
            w["steep"] = False
            op = gen_seed_op(r, w, 6)
            plan["seed_op"] = {k: v for k, v in op.items() if k not in ("nd", "m", "t")}
            plan["fmt"] = r.choice(["npy", "csv", "npz"])
            plan["ts"] = r.choice([0.5, 1.0, 2.0, 4.0]) * w["dx"] / w["speed"]
        else:
            plan["ops"] = [mini.gen_op(r, w, j == 0) for j in range(r.choice([1, 1, 2, 4, 8, 12]))]
            if kind in ("path", "snake", "state", "nourishment") and len(plan["ops"]) < 3:
                plan["ops"] += [{"op": "step"}] * r.choice([2, 5, 15])
        if kind in ("steady", "time", "unsteady"):
            plan["used"] = r.random() < 0.3
            if r.random() < 0.2:
                plan["fault"] = {"op": r.choice(["open", "write"]), "match": ".png", "nth": r.randrange(plan["n"]),
                                 "kind": r.choice(["ENOSPC", "EIO"])}
        else:
            plan["arg"] = r.random()
            plan["arg2"] = r.random()
        return plan

    def run(self, plan, st):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            root = fs.fresh("c22")
            cwd = os.getcwd()
            os.chdir(root)
            try:
                {"steady": self.frames, "time": self.frames, "unsteady": self.unsteady}.get(plan["kind"], self.plots)(plan, st, root)
            finally:
                os.chdir(cwd)

    # ---- particles with some history
    def particles(self, plan):
        from dorado import particle_track as pt
        part = pt.Particles(model.make_params(plan["world"]))
        for op in plan["ops"]:
            mini.do(part, op)
        return part

    # ---- frames of the running routines
    def judge(self, fig, name, i, grid, walk, kind, start, st):
        cur, times = at(walk, -1)
        first, _ = at(walk, 0)
        info = dict(plot=kind, step=i, file=os.path.basename(str(name)))
        axes = axes_with(fig, grid)
        if not axes:
            raise Violation("frame-without-its-flow-field", **info)
        sets = [s for ax in axes for s in point_sets(ax)]
        cur, first = pairs(cur), pairs(first)
        for s, _ in sets:
            if s != cur and s != first:
                raise Violation("frame-shows-other-positions", shown=sorted(s.elements())[:6], now=sorted(cur.elements())[:6],
                                start=sorted(first.elements())[:6], **info)
        if not any(s == cur for s, _ in sets):
            raise Violation("frame-does-not-show-the-particles", now=sorted(cur.elements())[:6], **info)
        if not any(s == first for s, _ in sets):
            raise Violation("frame-does-not-show-the-start", start=sorted(first.elements())[:6], **info)
        if kind == "time":
            want = Counter((x[0] * 1.0, x[1] * 1.0, round(float(t), 9)) for x, t in zip(at(walk, -1)[0], times))
            if not any(v is not None and v == want for _, v in sets):
                raise Violation("frame-coloured-by-other-times", wanted=sorted(want.elements())[:6],
                                shown=[sorted(v.elements())[:6] for _, v in sets if v], **info)
        st.add("probe.frames-examined")
        st.nontrivial = True
        st.state("c22", kind, i, sum(cur.values()), len(cur), cur == first, str(start))

    def number(self, name, seen, fig):
        seen.append(name)
        return len(seen) - 1

    def numbered(self, folder, names):
        """Once the routine has succeeded: the i-th figure is the file that bears its number."""
        for i, want in enumerate(names):
            p = os.path.join(folder, "figs", want)
            b = open(p, "rb").read() if os.path.exists(p) else None
            if b != R.PNG + b"%d" % i:
                raise Violation("frame-numbered-wrongly", file=want, holds=None if b is None else b[len(R.PNG):].decode("latin-1"),
                                expected=i)

    def frames(self, plan, st, root):
        from dorado import routines
        rng.use(rng.Stream(rng.mix(plan["key"], "frames")))
        part = self.particles(plan)
        if part.walk_data is None:
            return
        kind, n = plan["kind"], plan["n"]
        out = os.path.join(root, "out")
        if plan["used"]:
            os.makedirs(os.path.join(out, "figs"))
            os.makedirs(os.path.join(out, "data"))
            for i in range(n + 2):
                with open(os.path.join(out, "figs", "output%d.png" % i), "wb") as f:
                    f.write(b"old")
        seen = []

        def hook(fig, name):
            i = self.number(name, seen, fig)
            self.judge(fig, name, i, part.depth, snap(part.walk_data), kind, plan["used"], st)
        f = routines.steady_plots if kind == "steady" else routines.time_plots
        if self.guarded(plan, st, root, lambda: f(part, n, out), hook):
            if len(seen) != n:
                raise Violation("wrong-number-of-frames", frames=len(seen), steps=n, plot=kind)
            self.numbered(out, ["output%d.png" % i for i in range(n)])
        st.add("op.%s_plots" % kind)
        count(st, snap(part.walk_data))
        st.events.update(repr((snap(part.walk_data), len(seen))).encode())

    def guarded(self, plan, st, root, call, hook):
        sess = fs.Session(root, [plan["fault"]] if plan["fault"] else [])
        with R.stub_figures(True, hook, numbered=True), sess:
            try:
                call()
                return True
            except OSError:
                if not sess.fired:
                    raise
                for o, k in sess.fired:
                    st.add("fault.%s-%s" % (o, k))
                return False

    def unsteady(self, plan, st, root):
        w, n, op = plan["world"], plan["n"], plan["seed_op"]
        src = os.path.join(root, "in")
        R.write_outputs(w, src, n, plan["fmt"])
        states = []
        import numpy as np
        ts = plan["ts"]
        R.stepwise(w, op, n, plan["key"], [float(x) for x in np.arange(ts, ts * (n + 1), ts)][:n],
                   lambda i, part: states.append((np.array(part.depth, dtype=float), snap(part.walk_data))))
        seen = []

        def hook(fig, name):
            i = self.number(name, seen, fig)
            if i >= len(states):
                raise Violation("wrong-number-of-frames", frames=i + 1, steps=n, plot="unsteady")
            self.judge(fig, name, i, states[i][0], states[i][1], "unsteady", plan["used"], st)
        call = lambda: R.call("unsteady", w, op, n, os.path.join(root, "out"), plan["key"], src=src, fmt=plan["fmt"], timestep=ts)
        if self.guarded(plan, st, root, call, hook):
            if len(seen) != n:
                raise Violation("wrong-number-of-frames", frames=len(seen), steps=n, plot="unsteady")
            self.numbered(os.path.join(root, "out"), ["output%d.png" % i for i in range(n)])
        st.add("op.unsteady_plots")
        if states:
            count(st, states[-1][1])
        st.events.update(repr((states, len(seen))).encode())

    # ---- plots of a finished history
    def plots(self, plan, st, root):
        rng.use(rng.Stream(rng.mix(plan["key"], "plots")))
        part = self.particles(plan)
        if part.walk_data is None or not part.walk_data["xinds"]:
            return
        walk = snap(part.walk_data)
        count(st, walk)
        grid = part.depth
        f, g = plan["arg"], plan["arg2"]
        getattr(self, plan["kind"])(plan, st, root, part, walk, grid, f, g)
        st.add("op.plot-" + plan["kind"])
        st.events.update(repr(walk).encode())
        st.nontrivial = True

    def path(self, plan, st, root, part, walk, grid, f, g):
        from dorado import routines
        n = len(walk["xinds"])
        who = "all" if f < 0.5 else [int(f * 7919 * (k + 1)) % n for k in range(1 + int(g * 3))]
        iv = [1, 1, 2, 3, 7][int(g * 5)]
        figs = []

        def hook(fig, name):
            figs.append(name)
            want = Counter(tuple((float(y), float(x)) for y, x in zip(walk["yinds"][p][::iv], walk["xinds"][p][::iv]))
                           for p in (range(n) if who == "all" else who))
            axes = axes_with(fig, grid)
            if not axes:
                raise Violation("plot-without-its-grid", plot="path")
            if g > 0.8:
                named = [t.get_text() for ax in axes if ax.get_legend() is not None for t in ax.get_legend().get_texts()]
                ids = [re.findall(r"\d+", t) for t in named]
                if ids != [[str(p)] for p in (range(n) if who == "all" else who)]:
                    raise Violation("legend-names-other-particles", particles=who, legend=named[:8])
                self.colours(axes[0], st)
            elif any(ax.get_legend() is not None for ax in axes):
                raise Violation("legend-unasked", particles=who)
            have = Counter(tuple(x) for ax in axes for x in polylines(ax))
            if have != want:
                raise Violation("drawn-path-is-not-the-recorded-path", particles=who, interval=iv,
                                drawn=[list(k)[:6] for k in have - want][:3], recorded=[list(k)[:6] for k in want - have][:3])
            st.add("probe.paths-examined", sum(want.values()))
        kw = {"interval": iv} if iv != 1 else {}
        if who != "all":
            kw["particles_to_follow"] = who
        if g > 0.8:
            kw["plot_legend"] = True
        with R.stub_figures(True, hook):
            routines.draw_travel_path(grid, part.walk_data, output_file=os.path.join(root, "p.png"), **kw)
        if len(figs) != 1:
            raise Violation("wrong-number-of-figures", figures=len(figs), plot="path")
        st.state("c22p", n, str(who), iv, max(len(x) for x in walk["xinds"]))

    def colours(self, ax, st):
        """The i-th entry of the legend has the colour of the i-th path."""
        import numpy as np
        from matplotlib.collections import LineCollection
        from matplotlib.colors import to_rgb
        drawn = [c for lc in ax.collections if isinstance(lc, LineCollection)
                 for c in [lc.get_colors()] if len(c) == len(lc.get_segments()) for c in c]
        shown = [h.get_color() for h in ax.get_legend().get_lines()]
        if len(drawn) != len(shown):
            return                                   # (drawn in another way)
        for k, (a, b) in enumerate(zip(drawn, shown)):
            if not np.allclose(to_rgb(a), to_rgb(b), atol=1e-3):
                raise Violation("legend-in-other-colours", entry=k, path=list(map(float, a)), legend=list(map(float, to_rgb(b))))
        st.add("probe.legends-examined")

    def snake(self, plan, st, root, part, walk, grid, f, g):
        import numpy as np
        from matplotlib.collections import LineCollection
        from dorado import routines
        n = len(walk["xinds"])
        iv = [1, 1, 2, 4][int(f * 4)]
        steps, tail = 2 + int(g * 5), [1, 2, 3, 12][int(g * 97) % 4]
        if f * 53 % 1 < 0.2:
            steps = 16
        start, end = [([1, 0.4, 0.2, 1], [1, 0.3, 0.1, 0]), ([0.1, 0.2, 0.9, 1], [0.3, 0.8, 0.4, 0.25])][int(f * 89) % 2]
        seen = []
        paths = [[(float(y), float(x)) for y, x in zip(walk["yinds"][p], walk["xinds"][p])] for p in range(n)]

        def hook(fig, name):
            ii = iv * (len(seen) + 1)
            seen.append(ii)
            axes = axes_with(fig, grid)
            if not axes:
                raise Violation("plot-without-its-grid", plot="snake")
            segs = [s for ax in axes for s in polylines(ax)]
            heads = Counter(s[-1] for s in segs if s)
            for s in segs:
                if not any(follows(s, p[max(0, ii - (tail + 1) * iv - 1):ii + 1], iv + 1) for p in paths):
                    raise Violation("tail-is-not-a-recorded-path", step=ii, tail=s, interval=iv)
            for p in paths:
                if len(p) > ii and ii > iv and not any(h in p[max(0, ii - iv):ii + 1] for h in heads):
                    raise Violation("tail-does-not-reach-the-particle", step=ii, interval=iv, position=p[ii], plot="snake")
            # newest piece in the first colour, every other between the two
            for lc in (c for ax in axes for c in ax.collections if isinstance(c, LineCollection)):
                cols, ss = np.asarray(lc.get_colors()), [[(float(x), float(y)) for x, y in s] for s in lc.get_segments()]
                if not ss or not len(cols):
                    continue
                lo, hi = np.minimum(start, end) - 1e-6, np.maximum(start, end) + 1e-6
                if np.any(cols < lo) or np.any(cols > hi):
                    raise Violation("tail-in-other-colours", step=ii, drawn=cols[:4].tolist(), asked=[start, end])
                last = [q for k, s in enumerate(ss) if np.allclose(cols[k % len(cols)], end, atol=1e-6) for q in s]
                for p in paths:
                    if tail > 1 and len(p) > ii > tail * iv + 1 and not any(q in p[ii - tail * iv - 1:ii - (tail - 1) * iv + 1] for q in last):
                        raise Violation("tail-does-not-reach-back", step=ii, interval=iv, length=tail, oldest=p[ii - tail * iv])
                first = [s[-1] for k, s in enumerate(ss) if s and np.allclose(cols[k % len(cols)], start, atol=1e-6)]
                for p in paths:
                    if len(p) > ii and ii > iv and not any(h in p[max(0, ii - iv):ii + 1] for h in first):
                        raise Violation("newest-piece-in-another-colour", step=ii, interval=iv, position=p[ii])
            st.add("probe.tails-examined", len(segs))
        kw = {"interval": iv, "tail_length": tail, "rgba_start": start, "rgba_end": end}
        if int(g * 991) % 2:                        # (what the documentation gives as defaults is left out)
            kw = {k: v for k, v in kw.items() if v != {"interval": 4, "tail_length": 12, "rgba_start": [1, 0.4, 0.2, 1],
                                                       "rgba_end": [1, 0.3, 0.1, 0]}[k]}
        with R.stub_figures(True, hook, numbered=True):
            routines.snake_plots(grid, part.walk_data, steps, folder_name=os.path.join(root, "s"), **kw)
        longest = max(len(p) for p in paths)
        need = len([ii for ii in range(iv, steps * iv, iv) if ii < longest])
        if len(seen) < need or len(seen) > steps - 1:
            raise Violation("wrong-number-of-frames", frames=len(seen), at_least=need, at_most=steps - 1, plot="snake")
        self.numbered(os.path.join(root, "s"), ["snakefig%d.png" % ii for ii in seen])
        st.state("c22s", n, iv, steps, tail, longest)

    def state(self, plan, st, root, part, walk, grid, f, g):
        import matplotlib.pyplot as plt
        from dorado import routines
        from matplotlib.colors import to_rgba
        longest = max(len(x) for x in walk["xinds"])
        opt = {"c": "r"} if f * 10 % 1 < 0.3 else {}
        with R.stub_figures(True):
            if f < 0.5:
                k = -1 if g < 0.2 else int(g * (longest + 2)) - 1
                x, y = routines.get_state(part.walk_data, k)[:2]
                ax = routines.plot_state(grid, part.walk_data, **({"iteration": k} if k != -1 else {}), **opt)
            else:
                T = g * 1.2 * max(max(t) for t in walk["travel_times"])
                x, y = routines.get_time_state(part.walk_data, T)[:2]
                ax = routines.plot_state(grid, part.walk_data, target_time=T, **opt)
            want = pairs(zip(y, x))
            if not axes_with(ax.figure, grid):
                raise Violation("plot-without-its-grid", plot="state")
            sets = [s for s, _ in point_sets(ax)]
            if sets != [want]:
                raise Violation("plot-shows-other-positions", plot="state", shown=[sorted(s.elements())[:6] for s in sets],
                                state=sorted(want.elements())[:6])
            for c in ax.collections:
                if hasattr(c, "get_sizes") and any(tuple(x) != to_rgba(opt.get("c", "b")) for x in c.get_facecolors().tolist()):
                    raise Violation("marks-in-another-colour", asked=opt.get("c", "b"), drawn=c.get_facecolors()[:2].tolist())
        st.add("probe.states-examined")
        st.state("c22t", len(walk["xinds"]), f < 0.5, longest)

    def nourishment(self, plan, st, root, part, walk, grid, f, g):
        import numpy as np
        from dorado import particle_track as pt, routines
        w = plan["world"]
        area = f < 0.5
        size = (w["L"], w["W"])
        sigma = 0 if g < 0.6 else 0.7
        fn = pt.nourishment_area if area else pt.nourishment_time
        if any(x != x or abs(x) > 1e30 for row in walk["travel_times"] for x in row):
            return
        v = fn(part.walk_data, size, sigma=sigma)
        keep = np.array(v)
        if not np.isfinite(keep).any():
            return
        with R.stub_figures(True):
            show = routines.show_nourishment_area if area else routines.show_nourishment_time
            kw = {"grid": grid} if g * 10 % 1 < 0.5 else {}
            opt = {}
            k = int(g * 991)
            if k % 4 == 0:
                opt["show_seed"] = False
            if k % 3 == 0:
                opt["min_alpha"] = 0.5
            if k % 5 == 0:
                opt["cmap"] = "viridis"
            if not area and k % 7 == 0:
                opt["show_colorbar"] = False
            ax = show(v, walk_data=part.walk_data, **kw, **opt)
            if not np.array_equal(keep, v, equal_nan=True):
                raise Violation("plot-changed-its-input", plot="nourishment")
            if kw and not axes_with(ax.figure, grid):
                raise Violation("plot-without-its-grid", plot="nourishment")
            maps = [np.asarray(im.get_array()) for im in ax.get_images() if np.ndim(im.get_array()) == 3]
            maps = [m for m in maps if m.shape[:2] == keep.shape]
            if not maps:
                raise Violation("heatmap-of-another-shape", plot="nourishment", shape=keep.shape)
            alpha = maps[-1][..., 3].astype(float)
            known = np.isfinite(keep)
            a, b = keep[known], alpha[known]
            order = np.argsort(a, kind="stable")
            a, b = a[order], b[order]
            if len(b) > 1 and np.any(np.diff(b) < -0.01):
                k = int(np.argmin(np.diff(b)))
                raise Violation("heatmap-does-not-follow-the-values", values=a[k:k + 2].tolist(), opacity=b[k:k + 2].tolist())
            if len(b) and b.min() < opt.get("min_alpha", 0) - 0.01:
                raise Violation("heatmap-too-transparent", opacity=float(b.min()), asked=opt.get("min_alpha", 0))
            if not area and len(a) and a[-1] > a[0] * (1 + 1e-9):
                self.scale(ax, maps[-1][known], keep[known], opt, st)
            seed = pairs([(walk["yinds"][0][0], walk["xinds"][0][0])])
            if not opt.get("show_seed", True):
                if any(point_sets(ax)):
                    raise Violation("seed-shown-unasked", shown=[sorted(s)[:4] for s, _ in point_sets(ax)])
            elif not any(s == seed for s, _ in point_sets(ax)):
                raise Violation("seed-not-shown", seed=sorted(seed), shown=[sorted(s)[:4] for s, _ in point_sets(ax)])
        st.add("probe.heatmaps-examined")
        st.state("c22n", area, sigma, bool(kw), size)

    def scale(self, ax, rgba, v, opt, st):
        """Nourishment times: colours of the map named in the call, over the range its colour bar states."""
        import matplotlib
        import numpy as np
        lo, hi = float(v.min()), float(v.max())
        if hi - lo > 1e-6 * abs(hi):
            want = matplotlib.colormaps[opt.get("cmap", "magma")]((v - lo) / (hi - lo))[..., :3]
            bad = np.abs(np.asarray(rgba[..., :3], dtype=float) - want).max(axis=-1) > 0.03
            if bad.any():
                k = int(np.argmax(bad))
                raise Violation("heatmap-in-other-colours", value=float(v.ravel()[k]), drawn=rgba[k].tolist(), scale=want[k].tolist())
        bars = [a for a in ax.figure.axes if a is not ax]
        if opt.get("show_colorbar", True):
            if bars and not any(np.allclose(sorted(a.get_ylim()), [lo, hi], rtol=1e-6) or
                                np.allclose(sorted(a.get_xlim()), [lo, hi], rtol=1e-6) for a in bars):
                raise Violation("colour-bar-states-another-range", bar=[float(x) for x in bars[0].get_ylim()], values=[lo, hi])
            if len(ax.figure.axes) < 2:
                raise Violation("colour-bar-missing", plot="nourishment")
        elif len(ax.figure.axes) > 1:
            raise Violation("colour-bar-unasked", plot="nourishment")
        st.add("probe.colour-scales-examined")

    def simplify(self, plan):
        for k, v in (("n", 1), ("n", 2), ("fault", None), ("used", False)):
            if k in plan and plan[k] != v:
                yield dict(plan, **{k: v})


def count(st, walk):
    st.add("moves", sum(len(x) - 1 for x in walk["xinds"]))
    st.simtime += sum(min(t[-1] - t[0], 1e6) for t in walk["travel_times"] if t[-1] >= t[0])


def follows(seg, path, gap):
    """The points of seg occur in path in this order, each at most `gap` records after the one before."""
    if not seg:
        return True
    live = {i for i, p in enumerate(path) if p == seg[0]}
    for q in seg[1:]:
        live = {j for i in live for j in range(i + 1, min(len(path), i + gap + 1)) if path[j] == q}
        if not live:
            return False
    return True


CHECK = C()
