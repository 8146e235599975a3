"""C31: every plot is drawn on its own figure, alike in every session."""
import copy
import hashlib
import os
import sys
import warnings

import fs
import model
import rng
import routines_sim as R
from props.common import *
from props import mini
from props.c26 import Fault

OWN = ["steady", "time", "unsteady", "snake", "path", "exposure", "thresholds", "spatial"]
CURRENT = ["state", "area", "times"]


def arr(a):
    """A short name of an array's shape and contents."""
    import numpy as np
    if a is None:
        return None
    try:
        a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
    except (TypeError, ValueError):
        return repr(a)
    return a.shape, hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest()[:12]


def image(im):
    return ("image", arr(im.get_array()), [float(x) for x in im.get_extent()], im.get_cmap().name, float(im.norm.vmin or 0),
            float(im.norm.vmax or 0), repr(im.get_alpha()), im.origin)


def marks(c, colours=True):
    out = [type(c).__name__, arr(c.get_offsets()), arr(c.get_array())]
    if c.get_array() is not None:
        out.append([float(x) for x in c.get_clim()])
    if hasattr(c, "get_segments"):
        out.append([arr(s) for s in c.get_segments()])
    if hasattr(c, "get_sizes"):
        out.append(arr(c.get_sizes()))
    if colours and c.get_array() is None:
        out += [arr(c.get_facecolor()), arr(c.get_edgecolor())]
    return tuple(map(repr, out))


def line(ln):
    from matplotlib.colors import to_rgba
    return ("line", arr(ln.get_xdata()), arr(ln.get_ydata()), to_rgba(ln.get_color()), ln.get_linestyle(), repr(ln.get_marker()))


def content(ax, colours=True):
    """What is drawn in the axes, artist by artist."""
    return [image(x) for x in ax.images] + [marks(x, colours) for x in ax.collections] + [line(x) for x in ax.lines]


def picture(fig, colours=True):
    """Everything a figure shows."""
    out = [("size", [round(float(x), 6) for x in fig.get_size_inches()], fig.dpi), ("texts", [t.get_text() for t in fig.texts])]
    for ax in fig.axes:
        out.append(("axes", [round(float(x), 6) for x in ax.get_position(original=True).bounds], ax.get_title(), ax.get_xlabel(),
                    ax.get_ylabel(), [round(float(x), 9) for x in ax.get_xlim() + ax.get_ylim()], len(ax.patches),
                    [t.get_text() for t in ax.texts]))
        out += content(ax, colours)
    return out


def differ(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return {"alone": repr(x)[:200], "here": repr(y)[:200]}
    return {"alone": "%d items" % len(a), "here": "%d items" % len(b)}


class C(Check):
    id = "C31"
    quick = 500
    thorough = 6000
    rule = ("seeded sequences of all plotting routines between figures of the user being opened, drawn on, made current and "
            "closed, some calls stopped by a failing disk or by the user at a line; every figure, at the moment it is saved "
            "or left open, against the same call in a fresh session, and every figure open before against itself; "
            "non-trivial: two calls were compared")
    states = "distinct (routine before, routine, figures open, fault) tuples"
    stub = Check.stub + ["Figure.savefig rendering replaced by a fixed small file (the artists are real)",
                         "disk faults injected below the real buffered file objects"]

    def gen(self, r, tier):
        w = model.gen_world(r, **dict(R.UNSTEADY_WORLD, L=r.choice([5, 7, 9]), W=r.choice([5, 6, 8])))
        w["dtype"] = "f8"
        calls = []
        for _ in range(r.choice([2, 3, 4, 6])):
            c = {"do": r.choice(OWN + ["exposure", "thresholds"] + CURRENT), "key": r.randrange(6), "n": r.choice([1, 1, 2, 3]), "alt": r.randrange(12),
                 "user": [r.choice(["open", "draw", "current", "close"]) for _ in range(r.choice([0, 0, 1, 2]))], "pick": r.getrandbits(8)}
            if calls and r.random() < 0.3:
                c.update({k: calls[-1][k] for k in ("do", "key", "n", "alt")})
            c["fault"] = None
            if r.random() < 0.25 and c["do"] not in ("state", "area", "times", "spatial"):
                c["fault"] = r.choice([{"op": r.choice(["open", "write"]), "match": ".png", "nth": r.randrange(c["n"]), "kind": r.choice(["ENOSPC", "EIO"])},
                                       {"line": int(2 ** r.uniform(3, 11))}])
            calls.append(c)
        ops = [mini.gen_op(r, w, True)] + [mini.gen_op(r, w) for _ in range(r.choice([1, 3]))] + [{"op": "step"}] * r.choice([4, 12])
        ops[0].update(n=r.choice([2, 4]), m="random")
        return {"world": w, "key": r.getrandbits(48), "ops": ops, "calls": calls, "first": r.choice([0, 1, 1, 2])}

    # ------------------------------------------------------------ one call
    def inputs(self, plan, key):
        """Particles with a history (another one for every key), its grid and the like: built anew every time."""
        from dorado import particle_track as pt
        w = plan["world"]
        rng.use(rng.Stream(rng.mix(plan["key"], "history", key)))
        part = pt.Particles(model.make_params(w))
        for op in plan["ops"]:
            mini.do(part, op)
        return part

    def call(self, plan, c, part, folder):
        """Run the routine; the caller sees what it draws."""
        import numpy as np
        from dorado import routines, spatial
        w, n, alt = plan["world"], c["n"], c["alt"]
        s = rng.Stream(rng.mix(plan["key"], "arguments", c["key"]))
        walk = part.walk_data
        grid = part.depth
        shape = (w["L"], w["W"])
        do = c["do"]
        rng.use(rng.Stream(rng.mix(plan["key"], "call", c["key"])))
        if do == "steady":
            return routines.steady_plots(part, n, folder)
        if do == "time":
            return routines.time_plots(part, n, folder)
        if do == "unsteady":
            op = plan["ops"][0]
            return R.call("unsteady", w, op, n, folder, plan["key"] + c["key"], src=self.src, fmt="npy", timestep=w["dx"] / w["speed"])
        if do == "snake":
            return routines.snake_plots(grid, walk, 2 + n, folder_name=folder, interval=1 + alt % 3, tail_length=[1, 3, 12][alt % 3])
        if do == "path":
            kw = {"particles_to_follow": [0]} if alt % 3 == 0 else {}
            return routines.draw_travel_path(grid, walk, output_file=folder + ".png", plot_legend=alt % 2 == 0, **kw)
        if do in ("exposure", "thresholds"):
            end = min(t[-1] for t in walk["travel_times"])
            times = [s.next_double() * end * 1.1 for _ in walk["xinds"]]
            f = routines.plot_exposure_time if do == "exposure" else routines.plot_exposure_time_thresholds
            kw = {"show_thresholds": True} if do == "exposure" and alt % 4 == 0 else {}
            return f(walk, times, folder, timedelta=[1, 60, 3600][alt % 3], nbins=[100, 10][alt % 2], save_output=alt % 3 != 1, **kw)
        if do == "spatial":
            import matplotlib
            maps = [np.array([[s.next_double() * 20 for _ in range(3)] for _ in range(2)]) for _ in range(3)]
            return spatial.plot_spatial(maps, grid, 15, 5, matplotlib.colormaps[["viridis", "plasma"][alt % 2]], "days")
        if do == "state":
            return routines.plot_state(grid, walk, iteration=[-1, 0, 2, 50][alt % 4], c=["b", "r"][alt % 2])
        v = np.array([[s.next_double() + 0.01 for _ in range(shape[1])] for _ in range(shape[0])])
        kw = {"grid": grid} if alt % 2 else {}
        if alt % 3:
            kw["walk_data"] = walk
        if do == "area":
            return routines.show_nourishment_area(v, **kw)
        return routines.show_nourishment_time(v, show_colorbar=alt % 4 < 2, **kw)

    def watch(self, plan, c, folder, faults=(), lines=None):
        """{what the call drew: frames saved, figures it left open, additions to the axes}, how it ended."""
        import matplotlib.pyplot as plt
        part = self.inputs(plan, c["key"])
        kept = copy.deepcopy(part.walk_data) if c["do"] not in ("steady", "time", "unsteady") else None
        had = set(plt.get_fignums())
        colours = c["do"] != "path"                     # (random by design)
        frames, touched = [], []
        cur = base = None
        if c["do"] in CURRENT and had:
            cur = plt.gca()
            base = [len(cur.images), len(cur.collections)]

        def hook(fig, name):
            if fig.number in had:
                touched.append(fig.number)
            frames.append(picture(fig, colours))
        self.stub.hook = hook
        sess = fs.Session(self.root, list(faults))
        exc = None
        tr = Fault(lines, KeyboardInterrupt()) if lines is not None else None
        with sess:
            try:
                if tr is not None:
                    sys.settrace(tr)
                res = self.call(plan, c, part, folder)
            except KeyboardInterrupt:
                if tr is None or not tr.fired:
                    raise
                exc = "interrupted"
            except OSError as e:
                if not sess.fired:
                    raise
                exc = "disk"
            except Exception as e:
                exc = type(e).__name__
            finally:
                sys.settrace(None)
        if kept is not None and part.walk_data != kept:
            raise Violation("plot-changed-the-history", plot=c["do"])
        if touched:
            raise Violation("drawn-on-another-figure", plot=c["do"])
        new = [k for k in plt.get_fignums() if k not in had]
        out = {"frames": frames, "open": [picture(plt.figure(k), colours) for k in new] if c["do"] not in CURRENT else []}
        if c["do"] in CURRENT and exc is None:
            if cur is not None and (res is not cur):
                raise Violation("not-on-the-current-axes", plot=c["do"])
            i, j = base or [0, 0]
            out["added"] = [image(x) for x in res.images[i:]] + [marks(x) for x in res.collections[j:]]
        return out, exc, sess.fired

    # ------------------------------------------------------------ the session
    def user(self, what, pick):
        import matplotlib.pyplot as plt
        nums = sorted(set(plt.get_fignums()) & self.mine)
        if what == "open" or not nums:
            fig = plt.figure(figsize=(3, 2))
            fig.add_subplot(111).plot([pick, 1, 2], [1, pick, 3])
            self.mine.add(fig.number)
        elif what == "draw":
            fig = plt.figure(nums[pick % len(nums)])
            fig.gca().scatter([1, 2], [pick, 3])
        elif what == "current":
            plt.figure(nums[pick % len(nums)])
        elif len(nums) > 1:
            plt.close(nums[pick % len(nums)])

    def run(self, plan, st):
        import matplotlib.pyplot as plt
        self.root = fs.fresh("c31")
        self.src = os.path.join(self.root, "in")
        cwd = os.getcwd()
        os.chdir(self.root)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                R.write_outputs(plan["world"], self.src, 3, "npy")
                with R.stub_figures(True) as self.stub:
                    self.session(plan, st, plt)
        finally:
            os.chdir(cwd)

    def session(self, plan, st, plt):
        part = self.inputs(plan, 0)
        if part.walk_data is None:
            return
        alone = []
        for i, c in enumerate(plan["calls"]):
            plt.close("all")
            alone.append(self.watch(plan, c, os.path.join(self.root, "alone%d" % i))[:2])
        plt.close("all")
        self.mine = set()
        for _ in range(plan["first"]):
            self.user("open", 5)
        before = None
        compared = 0
        for i, c in enumerate(plan["calls"]):
            for what in c["user"]:
                self.user(what, c["pick"])
            if c["do"] in CURRENT:                      # (these draw where the user is: on a figure of his own)
                if not set(plt.get_fignums()) & self.mine or c["pick"] % 3 == 0:
                    self.user("open", c["pick"])
                self.user("current", c["pick"])
            here = plt.gcf().number if plt.get_fignums() else None
            # (the artists of every other figure as they are now)
            old = {k: picture(plt.figure(k)) for k in plt.get_fignums()}
            if here is not None:
                plt.figure(here)
            f = c["fault"] or {}
            got, exc, fired = self.watch(plan, c, os.path.join(self.root, "here%d" % i), [f] if "op" in f else (), f.get("line"))
            want, wexc = alone[i]
            info = dict(plot=c["do"], call=i, after=before, open=len(old), ended=exc)
            for k, p in old.items():
                if c["do"] in CURRENT and k == here:
                    continue
                if not plt.fignum_exists(k):
                    raise Violation("other-figure-closed", users=k in self.mine, **info)
                now = picture(plt.figure(k))
                if now != p:
                    raise Violation("other-figure-changed", users=k in self.mine, first=differ(p, now), **info)
            if exc in ("interrupted", "disk"):
                if got["frames"] != want["frames"][:len(got["frames"])]:
                    raise Violation("drawn-differently", first=differ(sum(want["frames"], []), sum(got["frames"], [])), **info)
                st.add("fault.plot-" + exc)
            else:
                if exc != wexc:
                    raise Violation("ends-differently", alone=wexc, **info)
                for k in want:
                    if got.get(k) != want[k]:
                        flat = [x if k == "added" else sum(x, []) for x in (want[k], got.get(k, []))]
                        raise Violation("drawn-differently", what=k, first=differ(*flat), **info)
                compared += bool(want["frames"] or want["open"] or want.get("added"))
                st.add("op." + c["do"])
            st.state("c31", before, c["do"], len(old), exc)
            st.events.update(repr((c["do"], exc, got)).encode())
            before = c["do"]
        st.nontrivial = compared >= 2
        st.add("probe.plots-compared", compared)
        st.add("moves", sum(len(x) - 1 for x in part.walk_data["xinds"]))

    def simplify(self, plan):
        for i in range(len(plan["calls"])):
            if len(plan["calls"]) > 1:
                yield dict(plan, calls=plan["calls"][:i] + plan["calls"][i + 1:])
        for i, c in enumerate(plan["calls"]):
            for k, v in (("fault", None), ("user", []), ("alt", 0), ("n", 1)):
                if c[k] != v:
                    yield dict(plan, calls=plan["calls"][:i] + [dict(c, **{k: v})] + plan["calls"][i + 1:])
        if plan["first"]:
            yield dict(plan, first=plan["first"] - 1)
        if len(plan["ops"]) > 2:
            yield dict(plan, ops=plan["ops"][:-1])


CHECK = C()
