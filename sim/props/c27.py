"""C27: animations and exposure maps show the figures and maps they are given."""
import io
import os
import warnings

import fs
import model
import rng
import routines_sim as R
from props.common import *
from props import mini

ERRS = ["EIO", "EACCES", "EMFILE"]
_pngs = {}


def image(key):
    """(bytes of a small real PNG, its pixels as read back)"""
    if key not in _pngs:
        import random
        import numpy as np
        import matplotlib.image as mi
        r = random.Random(key)
        h, w = r.choice([(4, 6), (5, 5), (8, 3), (30, 40)])
        a = np.array([r.randrange(256) for _ in range(h * w * 4)], dtype="u1").reshape(h, w, 4)
        if r.random() < 0.5:
            a[..., 3] = 255
        b = io.BytesIO()
        mi.imsave(b, a, format="png")
        _pngs[key] = (b.getvalue(), np.asarray(mi.imread(io.BytesIO(b.getvalue())), dtype=float))
    return _pngs[key]


def upright(ax, im):
    """Pixels of an image from the top row down, as the axes show it."""
    import numpy as np
    a = np.asarray(im.get_array(), dtype=float)
    left, right, bottom, top = im.get_extent()
    y = ax.transData.transform([(0, bottom), (0, top)])[:, 1]
    x = ax.transData.transform([(left, 0), (right, 0)])[:, 0]
    if (im.origin == "lower") == (y[1] > y[0]):
        a = a[::-1]
    if x[1] < x[0]:
        a = a[:, ::-1]
    return a


class Film:
    """What the stand-in writers were given in one call."""
    frames, starts = [], 0


def writer_class():
    from matplotlib import animation

    class SimWriter(animation.AbstractMovieWriter):
        """Stands in for ffmpeg: keeps what every frame shows, and writes a record of it to the output."""
        start_error = None

        def __init__(self, fps=5, codec=None, bitrate=None, extra_args=None, metadata=None, **kw):
            super().__init__(fps=fps, metadata=metadata, codec=codec, bitrate=bitrate)

        @classmethod
        def isAvailable(cls):
            return True

        def setup(self, fig, outfile, dpi=None):
            super().setup(fig, outfile, dpi=dpi)
            Film.starts += 1
            Film.frames = []
            if SimWriter.start_error:
                raise OSError("ffmpeg could not be started [simulated]")
            self.f = open(outfile, "wb", buffering=0)

        def grab_frame(self, **kw):
            shown = [(ax, im) for ax in self.fig.axes for im in ax.images if im.get_visible()]
            Film.frames.append([upright(ax, im).copy() for ax, im in shown])
            b = b"frame %d %d\n" % (len(Film.frames), len(shown))
            while b:
                b = b[self.f.write(b):]

        def finish(self):
            if getattr(self, "f", None) is not None:
                self.f.close()
    return SimWriter


class Writers:
    def __enter__(self):
        from matplotlib import animation
        self.cls = writer_class()
        self.reg = dict(animation.writers._registered)
        self.old = {k: getattr(animation, k) for k in ("FFMpegWriter", "FFMpegFileWriter")}
        for k in ("ffmpeg", "ffmpeg_file"):
            animation.writers._registered[k] = self.cls
        for k in self.old:
            setattr(animation, k, self.cls)
        return self.cls

    def __exit__(self, *a):
        from matplotlib import animation
        animation.writers._registered.clear()
        animation.writers._registered.update(self.reg)
        for k, v in self.old.items():
            setattr(animation, k, v)


class C(Check):
    id = "C27"
    quick = 700
    thorough = 8000
    rule = ("folders of numbered figures (more than asked for, gaps, broken files) turned into animations over failing "
            "disks and writers, repeatedly and after failures, frames compared with the figures; maps of exposure "
            "thresholds of random runs, or arbitrary ones, compared with what is drawn; non-trivial: a frame or map "
            "was compared or a fault fired")
    states = "distinct (first, last, figures present, fault, outcome) or (maps, levels) tuples"
    stub = Check.stub + ["ffmpeg (a writer that keeps what each frame shows)", "Figure rendering (the artists are real)",
                         "disk faults injected below the real buffered file objects"]

    def gen(self, r, tier):
        plan = {"key": r.getrandbits(40), "kind": r.choice(["film", "film", "film", "maps"])}
        if plan["kind"] == "maps":
            w = model.gen_world(r)
            plan.update(world=w, rows=r.randint(2, 7), cols=r.randint(2, 7), rf=r.choice([1, 2, 3]), extra=r.randrange(3),
                        source=r.choice(["run", "list", "list"]), levels=r.choice([2, 5, 7, 16]),
                        top=r.choice([1, 15, 30.0, 100, 0.5]), cmap=r.choice(["viridis", "plasma", "jet"]),
                        ops=[mini.gen_op(r, w, j == 0) for j in range(4)] + [{"op": "step"}] * 6, n=r.choice([10, 40]))
            return plan
        n = r.choice([1, 2, 3, 5, 11, 12])
        calls = []
        for _ in range(r.choice([1, 1, 2, 3])):
            a = r.randrange(n)
            b = r.randint(a + 1, n)
            if r.random() < 0.4:
                a, b = 0, n
            c = {"a": a, "b": b, "folder": r.choice(["one", "one", "two"]), "faults": [], "start": r.random() < 0.06}
            if r.random() < 0.45:
                k = r.choice(["open-r", "read", "read", "open", "write", "write", "close"])
                f = {"op": k, "nth": r.randrange(4)}
                if k == "open-r":
                    f.update(kind=r.choice(ERRS + ["vanish", "crash"]), match=".png")
                elif k == "read":
                    f.update(kind=r.choice(["EIO", "eof", "eof", "short", "crash"]), match=".png", at=r.randrange(60),
                             sticky=r.random() < 0.2)
                elif k == "open":
                    f.update(kind=r.choice(ERRS + ["ENOSPC"]), match="animation", nth=0)
                elif k == "write":
                    f.update(kind=r.choice(["ENOSPC", "EIO", "short", "crash"]), match="animation", at=r.randrange(12 * n))
                else:
                    f.update(kind=r.choice(["EIO", "crash"]), match="animation", nth=0)
                c["faults"] = [f]
            calls.append(c)
        plan.update(n=n, more=r.choice([0, 0, 1, 3]), calls=calls, mine=r.random() < 0.4,
                    broken={str(r.randrange(n)): r.choice(["missing", "cut", "text", "empty"])} if r.random() < 0.15 else {},
                    again=r.random() < 0.5)
        return plan

    def run(self, plan, st):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with R.stub_figures():
                import matplotlib.pyplot as plt
                plt.close("all")
                (self.film if plan["kind"] == "film" else self.maps)(plan, st)

    # ------------------------------------------------------------ animations
    def film(self, plan, st):
        import numpy as np
        import matplotlib.pyplot as plt
        from dorado import routines
        home = os.path.join(fs.fresh("c27"), "home")
        want = {}
        for q, d in enumerate(("one", "two")):
            os.makedirs(os.path.join(home, d, "figs"))
            for i in range(plan["n"] + plan["more"]):
                b, px = image((plan["key"] + 7 * i + q) % 97)
                how = plan["broken"].get(str(i)) if d == "one" else None
                want[d, i] = None if how else px
                if how == "missing":
                    continue
                if how:
                    b = {"cut": b[:len(b) // 2], "text": b"not a figure", "empty": b""}[how]
                with open(os.path.join(home, d, "figs", "output%d.png" % i), "wb") as f:
                    f.write(b)
        mine = None
        if plan["mine"]:
            mine = plt.figure()
            mine.add_subplot().plot([1, 2, 3], [1, 4, 9])
        for c in plan["calls"]:
            self.shoot(plan, st, routines, c, home, want)
            if plan["again"] and (c["faults"] or c["start"]):
                self.shoot(plan, st, routines, dict(c, faults=[], start=False), home, want)
                st.add("probe.repeated-after-fault")
        if mine is not None:
            if not plt.fignum_exists(mine.number):
                raise Violation("users-figure-closed")
            if len(mine.axes) != 1 or len(mine.axes[0].lines) != 1 or mine.axes[0].images or \
                    list(mine.axes[0].lines[0].get_ydata()) != [1, 4, 9]:
                raise Violation("users-figure-changed")

    def shoot(self, plan, st, routines, c, home, want):
        import numpy as np
        folder = os.path.join(home, c["folder"])
        rng.use(rng.Stream(rng.mix(plan["key"], c["a"], c["b"])))
        before = R.tree(home)
        sess = fs.Session(home, c["faults"])
        Film.frames, Film.starts = [], 0
        exc = None
        with Writers() as cls, sess:
            cls.start_error = c["start"]
            try:
                routines.animate_plots(c["a"], c["b"], folder)
            except fs.SimCrash as e:
                exc = e
            except Exception as e:
                exc = e
        after = R.tree(home)
        need = [want[c["folder"], i] for i in range(c["a"], c["b"])]
        hard = [x for x in sess.fired if x[1] != "short"]
        # (a figure that merely ends early may still be whole: its end was already read)
        soft = [x for x in hard if x[1] == "eof"]
        info = dict(call={k: c[k] for k in ("a", "b", "folder")}, fired=sess.fired, error=repr(exc), broken=plan["broken"])
        for o, k in sess.fired:
            st.add("fault.%s-%s" % (o, k))
        if c["start"]:
            st.add("fault.writer-does-not-start")
        st.add("op.animate")
        st.state("c27", c["a"], c["b"], c["folder"], str(plan["broken"]), str(sess.fired), exc is None, c["start"])
        st.events.update(repr((c, sess.fired, exc is None, len(Film.frames))).encode())
        st.nontrivial = True
        own = os.path.join(c["folder"], "animation.mp4")
        for p, b in before.items():
            if p != own and after.get(p, "gone") != b:
                raise Violation("other-file-changed", path=p, **info)
        for p in after:
            if p not in before and p != own:
                raise Violation("file-created-elsewhere", path=p, **info)
        cause = hard or c["start"] or any(x is None for x in need)
        if exc is not None:
            if not cause:
                raise Violation("unexpected-" + type(exc).__name__, **info)
            return
        if c["start"] or any(x is None for x in need) or [x for x in hard if x not in soft]:
            raise Violation("failure-swallowed", frames=len(Film.frames), **info)
        if len(Film.frames) != len(need) or Film.starts != 1:
            raise Violation("wrong-number-of-frames", frames=len(Film.frames), asked=len(need), **info)
        for q, (shown, px) in enumerate(zip(Film.frames, need)):
            if len(shown) != 1:
                raise Violation("wrong-frame", frame=q, images=len(shown), **info)
            got = shown[0]
            if got.shape != px.shape or not np.allclose(got, px, atol=1e-6):
                ids = [i for (d, i), p in want.items() if d == c["folder"] and p is not None and p.shape == got.shape and
                       np.allclose(p, got, atol=1e-6)]
                raise Violation("wrong-frame", frame=q, figure=c["a"] + q, shows=ids, shape=list(got.shape), **info)
        rec = b"".join(b"frame %d 1\n" % (i + 1) for i in range(len(need)))
        if after.get(own) != rec:
            raise Violation("animation-incomplete", size=len(after.get(own) or b""), expected=len(rec), **info)
        st.add("probe.frames-compared", len(need))

    # ------------------------------------------------------------ maps of exposure thresholds
    def maps(self, plan, st):
        import numpy as np
        import matplotlib
        import matplotlib.pyplot as plt
        from dorado import particle_track as pt, spatial
        s = rng.Stream(rng.mix(plan["key"], "maps"))
        w = plan["world"]
        if plan["source"] == "run":
            rng.use(rng.Stream(rng.mix(plan["key"], "run")))
            part = pt.Particles(model.make_params(w))
            for op in plan["ops"]:
                mini.do(part, dict(op, n=plan["n"]) if op["op"] == "gen" else op)
            elev = np.array([[s.next_double() for _ in range(w["W"])] for _ in range(w["L"])])
            rf = max(1, min(plan["rf"] + 1, w["L"] // 2, w["W"] // 2))
            lists = spatial.systemwide(part.walk_data, elev, np.ones(elev.shape, dtype=int), rf)
            maps = list(spatial.compute_thresholds(lists, elev, 1.0, rf))
        else:
            rf = plan["rf"]
            elev = np.array([[s.next_double() for _ in range(plan["cols"] * rf + plan["extra"])]
                             for _ in range(plan["rows"] * rf + plan["extra"])])
            maps = [np.array([[float("nan") if s.next_double() < 0.2 else plan["top"] * 1.3 * s.next_double()
                               for _ in range(plan["cols"])] for _ in range(plan["rows"])]) for _ in range(3)]
        given = [m.tobytes() for m in maps] + [elev.tobytes()]
        cmap = matplotlib.colormaps[plan["cmap"]]
        res = spatial.plot_spatial(maps, elev, plan["top"], plan["levels"], cmap, "days")
        fig = res[0]
        st.add("op.plot_spatial")
        if [m.tobytes() for m in maps] + [elev.tobytes()] != given:
            raise Violation("plot-changed-its-input")
        panels = sorted((ax for ax in fig.axes if len(ax.images) >= 2), key=lambda ax: ax.get_position().x0)
        if len(panels) != 3:
            raise Violation("wrong-number-of-maps", panels=len(panels))

        def same(a, b):
            a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
            return a.shape == b.shape and np.array_equal(np.nan_to_num(a, nan=-1.0), np.nan_to_num(b, nan=-1.0))
        for q, ax in enumerate(panels):
            under, over = ax.images[0], ax.images[-1]
            if not same(upright(ax, under), elev):
                raise Violation("wrong-background", panel=q)
            if not same(upright(ax, over), maps[q]):
                raise Violation("wrong-map", panel=q, matches=[i for i in range(3) if same(upright(ax, over), maps[i])])
            e, f = ([min(x.get_extent()[:2]), max(x.get_extent()[:2]), min(x.get_extent()[2:]), max(x.get_extent()[2:])]
                    for x in (under, over))
            if e != f:
                raise Violation("map-misplaced", panel=q, background=e, map=f)
            for v, inside in ((0.0, True), (plan["top"] * 0.999, True)):
                i, j = over.norm(v), panels[0].images[-1].norm(v)
                if i != j:
                    raise Violation("different-colour-scales", panel=q)
            if over.norm.vmin != 0 or abs(over.norm.vmax - plan["top"]) > 1e-9 * plan["top"]:
                raise Violation("wrong-colour-scale", panel=q, scale=[over.norm.vmin, over.norm.vmax], top=plan["top"])
        self.bar(plan, fig, panels, res)
        st.nontrivial = True
        st.add("probe.maps-compared", 3)
        st.state("c27", repr(maps[0].shape), plan["levels"], plan["top"], plan["source"])
        st.events.update(repr(given).encode())
        plt.close(fig)

    def bar(self, plan, fig, panels, res):
        """The colour bar explains the maps, and the maps are named for what they hold."""
        import numpy as np
        cbar = res[3]
        over = panels[0].images[-1]
        m = cbar.mappable
        at = [plan["top"] * q for q in (0.0, 0.1, 0.3, 0.5, 0.7, 0.999)]
        if not np.array_equal(np.asarray(m.to_rgba(at)), np.asarray(over.to_rgba(at))):
            raise Violation("colour-bar-of-other-colours")
        lo, hi = sorted((float(cbar.norm.vmin), float(cbar.norm.vmax)))
        if lo != 0 or abs(hi - plan["top"]) > 1e-9 * plan["top"]:
            raise Violation("wrong-colour-bar", scale=[lo, hi], top=plan["top"])
        ax = cbar.ax
        horizontal = ax.get_position().width > ax.get_position().height
        ticks = (ax.get_xticks if horizontal else ax.get_yticks)()
        texts = [t.get_text() for t in (ax.get_xticklabels if horizontal else ax.get_yticklabels)()]
        if len(ticks) == len(texts):
            for v, t in zip(ticks, texts):
                t = t.replace("+", "").replace("\u2212", "-").strip()
                try:
                    x = float(t)
                except ValueError:
                    continue
                if abs(x - v) > 1 + 1e-9:
                    raise Violation("colour-bar-mislabelled", at=float(v), label=t)
        names = {}
        for where in [fig] + list(panels):
            for t in list(where.texts) + ([where.title] if where is not fig else []):
                for e in ("50", "75", "90"):
                    if e in t.get_text():
                        x = t.get_transform().transform(t.get_position())[0]
                        names[e] = fig.transFigure.inverted().transform((x, 0))[0]
        if len(names) == 3:
            x = [names[e] for e in ("50", "75", "90")]
            if not x[0] < x[1] < x[2]:
                raise Violation("maps-misnamed", places=x)
            for v, ax in zip(x, panels):
                if not ax.get_position().x0 <= v <= ax.get_position().x1:
                    raise Violation("maps-misnamed", places=x)

    def simplify(self, plan):
        if plan["kind"] != "film":
            return
        for i in range(len(plan["calls"])):
            if len(plan["calls"]) > 1:
                yield dict(plan, calls=plan["calls"][:i] + plan["calls"][i + 1:])
        for k, v in (("more", 0), ("mine", False), ("broken", {}), ("again", False)):
            if plan[k] != v:
                yield dict(plan, **{k: v})


CHECK = C()
