"""Running dorado's plotting/saving routines on the simulated disk."""
import io
import os
import zipfile

import fs
import model
import rng
from session import Violation, HarnessError, snap

UNSTEADY_WORLD = {"give": "depth+stage", "inp": "q", "model": None, "theta": None, "gamma": None, "dc": None,
                  "dry": None, "ct": None, "roi": None, "track": [], "steep": False, "nan": 0.0, "below": False, "zs": 1.0}

PNG = b"\x89PNG\r\n\x1a\n" + b"simulated figure " * 20
_saved = {}


class stub_figures:
    """Figures are laid out by the real matplotlib, but rendering (most of the cost) is replaced by writing a
    fixed small file, through the same open()."""

    def __init__(self, on=True, hook=None, numbered=False):
        # hook(figure, file name): sees every figure before it is written;
        # numbered: the files end in their place in the sequence of figures
        self.on, self.hook, self.numbered, self.count = on, hook, numbered, 0

    def __enter__(self):
        import matplotlib.figure as mf
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        self.real, self.draw = mf.Figure.savefig, FigureCanvasAgg.draw
        if self.on:
            FigureCanvasAgg.draw = lambda canvas: None

            def savefig(fig, fname, **kw):
                if self.hook is not None:
                    self.hook(fig, fname)
                content = PNG + (b"%d" % self.count if self.numbered else b"")
                self.count += 1
                if isinstance(fname, (str, os.PathLike)):
                    with open(fname, "wb") as f:
                        f.write(content)
                else:
                    fname.write(content)
            mf.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        mf.Figure.savefig, FigureCanvasAgg.draw = self.real, self.draw
        plt.close("all")


def write_outputs(w, folder, n, fmt, names="%02d", extra=(), key=0, dtype=None):
    """Model output files of regimes 0..n-1, through the real file system."""
    import numpy as np
    os.makedirs(folder, exist_ok=True)
    for t in range(n):
        a = model.build(w, t)
        tag = names[t] if isinstance(names, (list, tuple)) else names % t
        fields = {k: np.array(a[k], dtype="f8") for k in ("depth", "stage", "qx", "qy")}
        if fmt == "npz":
            with open(os.path.join(folder, "data" + tag + ".npz"), "wb") as f:
                np.savez(f, **fields)
        else:
            for k, v in fields.items():
                p = os.path.join(folder, k + tag + "." + fmt)
                if fmt == "npy":
                    with open(p, "wb") as f:
                        np.save(f, v)
                else:
                    np.savetxt(p, v, delimiter=",", fmt="%.18e")
    for name in extra:
        with open(os.path.join(folder, name), "wb") as f:
            f.write(b"not a model output")


def call(kind, w, op, n, folder, key, src=None, fmt="npy", timestep=1.0, extreme=0.0, nseeds=None):
    """Build the particles and run one routine; returns (history, particles or None)."""
    from dorado import particle_track as pt, routines
    s = rng.Stream(rng.mix(key, "routine"), extreme=extreme)
    old = rng.use(s)
    try:
        if kind == "unsteady":
            kw = {} if folder is None else {"folder_name": folder}
            return routines.unsteady_plots(w["dx"], op["n"], op["xs"], op["ys"], n, timestep, src, fmt, **kw), None
        part = pt.Particles(model.make_params(w))
        gkw = {}
        if op.get("m"):
            gkw["method"] = op["m"]
        if op.get("t") is not None:
            gkw["seed_time"] = op["t"]
        part.generate_particles(op["n"], op["xs"], op["ys"], **gkw)
        kw = {} if folder is None else {"folder_name": folder}
        f = routines.steady_plots if kind == "steady" else routines.time_plots
        return f(part, n, **kw), part
    finally:
        rng.use(old)


def tree(root):
    """{relative path: bytes} of everything below root (directories: None), past the seams."""
    out = {}
    for d, dirs, files in os.walk(root):
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = None
        for x in files:
            p = os.path.join(d, x)
            fd = os.open(p, os.O_RDONLY)
            try:
                b = b""
                while True:
                    c = os.read(fd, 1 << 20)
                    if not c:
                        break
                    b += c
            finally:
                os.close(fd)
            out[os.path.relpath(p, root)] = b
    return out


def stepwise(w, op, n, key, targets, each=None):
    """What unsteady_plots stands for: the same run driven through the public API, one flow field after the
    other.  each(step, particles) sees the state after every step."""
    import numpy as np
    from dorado import particle_track as pt
    old = rng.use(rng.Stream(rng.mix(key, "routine")))
    walk = None
    try:
        for i in range(n):
            a = model.build(w, i)
            p = pt.modelParams()
            p.dx = w["dx"]
            p.verbose = False
            for k in ("depth", "stage", "qx", "qy"):
                setattr(p, k, np.array(a[k], dtype="f8"))
            part = pt.Particles(p)
            if i == 0:
                part.generate_particles(op["n"], op["xs"], op["ys"])
            else:
                part.generate_particles(0, [], [], method="random", previous_walk_data=walk)
            walk = part.run_iteration(target_time=targets[i])
            if each is not None:
                each(i, part)
    finally:
        rng.use(old)
    return snap(walk)
