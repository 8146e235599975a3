"""Inputs (worlds) and the reference model.

The reference is an independent scalar re-statement of dorado's documented behaviour, computed from
the raw inputs in float64.  It never looks at dorado's own weight, velocity or angle arrays.
"""
import math
import numpy as np
import rng

NBR = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1), (1, -1), (1, 0), (1, 1)]
R2 = math.sqrt(2)
DIST = [R2, 1.0, R2, 1.0, 1.0, 1.0, R2, 1.0, R2]
ANG = [3 * math.pi / 4, math.pi / 2, math.pi / 4, math.pi, 0.0, 0.0, 5 * math.pi / 4, 3 * math.pi / 2,
       7 * math.pi / 4]
R05 = math.sqrt(0.5)
# unit vector of each step: (rows down, columns right)
UNIT = [(-R05, -R05), (-1, 0), (-R05, R05), (0, -1), (0, 0), (0, 1), (R05, -R05), (1, 0), (R05, R05)]
TRACKABLE = ["depth", "stage", "qx", "qy", "u", "v"]


# ------------------------------------------------------------------ inputs
def gen_world(r, **kw):
    """Draw a world description (plain JSON) from random.Random r."""
    w = {
        "L": r.choice([5, 6, 7, 8, 9, 10, 12, 15, 20]), "W": r.choice([5, 6, 7, 8, 9, 10, 12, 15, 20]), "seed": r.getrandbits(32),
        "bed": r.choice(["random", "random", "channel", "islands", "islands", "dyadic", "pits", "flat"]),
        "flow": r.choice(["noisy", "noisy", "random", "uniform", "dyadic", "zero", "patchy"]),
        "stage": r.choice(["plane", "plane", "noisy", "flat", "dyadic"]),
        "dir": r.randint(0, 15),
        "speed": r.choice([0.5, 1.0, 1.0, 2.0, 5.0]),
        "dx": r.choice([1.0, 2.5, 5.0, 10.0, 50.0]),
        "give": r.choice(["depth+stage", "depth+stage", "depth+topo", "stage+topo"]),
        "inp": r.choice(["q", "q", "uv"]),
        "model": r.choice([None, "DeltaRCM", "Anuga"]),
        "dtype": r.choice(["f8"] * 5 + ["f4"]),
        "nan": r.choice([0.0, 0.0, 0.0, 0.1]),
        "theta": r.choice([None, None, 1.0, 0.0, 0.5, 2.0, 3.0]),
        "gamma": r.choice([None, None, 0.0, 0.05, 0.3, 0.7, 1.0]),
        "dc": r.choice([None, None, 0.0, 0.2, 0.5, 1.0, 1.9]),
        "dry": r.choice([None, None, 0.1, 0.2, 0.01]),
        "ct": r.choice([None, None, None, "ring", "outlets", "land", "open", "inner"]),
        "steep": False,
        "roi": r.choice([None, None, "block", "random", "all"]),
        "track": [],
        "verbose": None,
        "layout": "C", "roidt": None, "ctdt": None, "below": False,
    }
    if r.random() < 0.35:
        w.update(unusual(r))
    w.update(kw)
    return w


def unusual(r):
    """Rarer values of some parameters and forms of the arrays handed over."""
    out = {}
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["theta", "gamma", "dry", "dc", "speed", "dx", "size", "layout", "layout", "types", "below", "zs", "closed"])
        if k == "size":
            out[r.choice(["L", "W"])] = r.choice([3, 3, 4, 4, 30])
        elif k == "types":
            out["roidt"] = r.choice(["b1", "f8", "u1", "i1"])
            out["ctdt"] = r.choice(["f8", "i1", "i2", "f4"])
        elif k == "closed":                        # water that particles never leave
            out.update(bed="lake", flow=r.choice(["vortex", "vortex", "noisy"]))
        elif k == "zs":                            # very shallow or deep water (scaled by powers of two)
            out["zs"] = 2.0 ** r.choice([-4, -7, -7, -13, 7])
            out["dry"] = r.choice([0.1, 0.2, 0.01]) * out["zs"]
            if r.random() < 0.5:
                out["theta"] = r.choice([2.0, 3.0, 5.0, 12.0])
        else:
            out[k] = r.choice({"theta": [5.0, 12.0, 25.0], "gamma": [1e-9, 1e-3, 0.999], "dc": [2.0, 3.0, 6.0], "dry": [0.0, 0.0, 1e-3, 1.0],
                               "speed": [1e-6, 1e-3, 30.0], "dx": [0.1, 100.0, 1000.0], "below": [True],
                               "layout": ["F", "strided", "read-only"]}[k])
    return out


def laid_out(x, how):
    """The same numbers in another memory layout."""
    if how == "F":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full((2 * x.shape[0], 3 * x.shape[1]), 77, dtype=x.dtype)
        big[::2, 1::3] = x
        return big[::2, 1::3]
    if how == "read-only":
        x = np.array(x)
        x.flags.writeable = False
    return x


def build(w, t=0):
    """Arrays of world description w at regime t (t > 0: later flow fields on the same bed grid)."""
    L, W = w["L"], w["W"]
    g = rng.nprng(rng.mix("world", w["seed"]))
    gt = rng.nprng(rng.mix("regime", w["seed"], t))
    zs = w.get("zs", 1.0)
    dry = (0.1 if w["dry"] is None else w["dry"]) / zs
    ii, jj = np.meshgrid(np.arange(L), np.arange(W), indexing="ij")
    # --- bed / depth
    bed = w["bed"]
    if bed == "flat":
        depth = np.full((L, W), 1.0)
    elif bed == "dyadic":
        depth = g.integers(0, 5, (L, W)) * 0.5
    elif bed == "channel":
        c = (W - 1) / 2.0 + 1.5 * np.sin(ii / 2.0 + g.random() * 6)
        depth = 2.5 - 0.9 * np.abs(jj - c) + 0.2 * g.random((L, W))
        depth = np.where(depth < 0.35, 0.0, depth)
    elif bed == "lake":
        depth = 1.0 + g.random((L, W))
        depth = np.where((ii < 2) | (jj < 2) | (ii > L - 3) | (jj > W - 3), 0.0, depth)
    elif bed == "pits":
        depth = 0.5 + g.random((L, W))
        depth[g.random((L, W)) < 0.12] += 5.0
        depth[g.random((L, W)) < 0.25] = dry * 0.5
    else:
        depth = 0.3 + 3.0 * g.random((L, W))
        if bed == "islands":
            m = g.random((L, W))
            depth[m < 0.3] = 0.0
            depth[(m >= 0.3) & (m < 0.4)] = dry * 0.5
            if w["dtype"] == "f8":
                depth[(m >= 0.4) & (m < 0.45)] = dry      # exactly at the wetness threshold
    top = np.unravel_index(np.argmax(depth), depth.shape)
    first = depth[top]
    if t and bed not in ("flat", "dyadic"):
        rise = 0.4 * gt.random() * (1 if gt.random() < 0.7 else -1)
        wet = depth > dry
        depth = np.where(wet, np.maximum(depth + rise, 2.5 * dry), depth)
        if bed in ("islands", "pits"):
            flip = gt.random((L, W)) < 0.08
            depth = np.where(flip & wet, 0.0, np.where(flip & ~wet, 0.8 + gt.random((L, W)), depth))
    if w.get("crest"):                            # the largest depth is the same in every regime
        depth = np.minimum(depth, first)
        depth[top] = first
    depth, dry = depth * zs, dry * zs
    # --- water surface
    th = 2 * math.pi * ((w["dir"] + 3 * t) % 16 + 0.37) / 16.0
    dr, dc_ = math.sin(th), math.cos(th)          # downstream direction (rows down, cols right)
    st = w["stage"]
    if st == "flat":
        stage = np.full((L, W), 10.0)
    elif st == "dyadic":
        stage = 8.0 + g.integers(0, 4, (L, W)) * 0.25
    else:
        stage = 10.0 - 0.05 * (ii * dr + jj * dc_)
        if st == "noisy":
            stage = stage + 0.05 * gt.random((L, W))
        else:
            stage = stage + 0.002 * gt.random((L, W))
    # --- velocity (rows down, cols right)
    fl = w["flow"]
    sp = w["speed"] * (1.0 + 0.25 * t)
    if fl == "zero":
        vr, vc = np.zeros((L, W)), np.zeros((L, W))
    elif fl == "dyadic":
        vr = gt.integers(-2, 3, (L, W)) * 0.5
        vc = gt.integers(-2, 3, (L, W)) * 0.5
    elif fl == "random":
        vr, vc = sp * (2 * gt.random((L, W)) - 1), sp * (2 * gt.random((L, W)) - 1)
    elif fl == "vortex":
        y, x = ii - (L - 1) / 2.0, jj - (W - 1) / 2.0
        rad = np.maximum(np.sqrt(x * x + y * y), 0.5)
        vr, vc = sp * (-x / rad + 0.1 * gt.random((L, W))), sp * (y / rad + 0.1 * gt.random((L, W)))
    elif fl == "uniform":
        vr, vc = np.full((L, W), sp * dr), np.full((L, W), sp * dc_)
    else:
        k = 0.6 if fl == "patchy" else 0.3
        vr = sp * (dr + k * (2 * gt.random((L, W)) - 1))
        vc = sp * (dc_ + k * (2 * gt.random((L, W)) - 1))
        if fl == "patchy":
            z = gt.random((L, W)) < 0.2
            vr, vc = np.where(z, 0.0, vr), np.where(z, 0.0, vc)
    # --- what the user hands over
    a = {}
    give = w["give"]
    topo = stage - depth
    if w.get("below"):                            # the ground of dry cells lies above the water surface
        topo = np.where(depth <= 0, stage + 0.3 * g.random((L, W)), topo)
        give = "stage+topo"
    if w["dtype"] == "f4":
        depth, stage, topo, vr, vc = [x.astype("f4") for x in (depth, stage, topo, vr, vc)]
    if w["nan"]:
        hole = g.random((L, W)) < w["nan"]
        vr, vc = vr.copy(), vc.copy()
        vr[hole], vc[hole] = np.nan, np.nan
        if give == "depth+stage" and g.random() < 0.5:
            depth = depth.copy()
            depth[g.random((L, W)) < w["nan"] * 0.5] = np.nan
    if give == "depth+stage":
        a["depth"], a["stage"] = depth, stage
    elif give == "depth+topo":
        a["depth"], a["topography"] = depth, topo
    else:
        a["stage"], a["topography"] = stage, topo
    d0 = np.where(np.isnan(depth), 0, depth).astype(depth.dtype)
    if w["inp"] == "q":
        fr, fc, nx, ny = vr * d0, vc * d0, "qx", "qy"
    else:
        fr, fc, nx, ny = vr, vc, "u", "v"
    if w["model"] == "DeltaRCM":
        a[nx], a[ny] = fr.copy(), fc.copy()          # first component along rows
    else:
        a[nx], a[ny] = fc.copy(), -fr                # x to the right, y up
    # --- cell types
    ct = None
    c = w["ct"]
    if c is not None:
        ct = np.zeros((L, W), dtype=int)
        ct[d0 < dry] = 2
        if c != "open":
            ct[0, :] = ct[-1, :] = ct[:, 0] = ct[:, -1] = -1
        if c == "outlets":
            ct[0, :] = ct[-1, :] = ct[:, 0] = ct[:, -1] = 2
            side = g.integers(0, 4)
            k = int(g.integers(0, (W if side < 2 else L)))
            if side == 0:
                ct[0, k] = -1
            elif side == 1:
                ct[-1, k] = -1
            elif side == 2:
                ct[k, 0] = -1
            else:
                ct[k, -1] = -1
        if c == "land":
            inner = g.random((L, W)) < 0.15
            inner[0, :] = inner[-1, :] = inner[:, 0] = inner[:, -1] = False
            ct[inner] = 2
            ct[(ct == 0) & (g.random((L, W)) < 0.5)] = 1
        if c == "inner":
            ct[int(g.integers(1, L - 1)), int(g.integers(1, W - 1))] = -1
        a["cell_type"] = ct
    # --- region of interest
    roi = None
    if w["roi"] == "block":
        roi = np.zeros((L, W), dtype=int)
        i0, j0 = int(g.integers(0, L - 2)), int(g.integers(0, W - 2))
        roi[i0:i0 + int(g.integers(2, L)), j0:j0 + int(g.integers(2, W))] = 1
    elif w["roi"] == "random":
        roi = (g.random((L, W)) < 0.4).astype(int)
    elif w["roi"] == "all":
        roi = np.ones((L, W), dtype=int)
    if roi is not None:
        a["roi_grid"] = roi
    return a


def region(w, kind="block", salt=0):
    """A region mask for queries, independent of the tracked ROI."""
    g = rng.nprng(rng.mix("region", w["seed"], salt))
    L, W = w["L"], w["W"]
    if kind == "random":
        return (g.random((L, W)) < 0.45).astype(int)
    m = np.zeros((L, W), dtype=int)
    i0, j0 = int(g.integers(0, L - 2)), int(g.integers(0, W - 2))
    m[i0:i0 + int(g.integers(2, L)), j0:j0 + int(g.integers(2, W))] = 1
    return m


def make_params(w, t=0, arrays=None):
    from dorado import particle_track as pt
    a = build(w, t) if arrays is None else arrays
    p = pt.modelParams()
    p.dx = w["dx"]
    for k, v in a.items():
        if arrays is None:
            dt = {"roi_grid": w.get("roidt"), "cell_type": w.get("ctdt")}.get(k)
            v = laid_out(v if dt is None else v.astype(dt), w.get("layout"))
        setattr(p, k, v)
    for k, name in (("theta", "theta"), ("gamma", "gamma"), ("dc", "diff_coeff"), ("dry", "dry_depth")):
        if w[k] is not None:
            setattr(p, name, w[k])
    if w["model"] is not None:
        p.model = w["model"]
    if w["steep"]:
        p.steepest_descent = True
    if w["track"]:
        p.particle_variables = list(w["track"])
    if w.get("verbose") is not None:
        p.verbose = w["verbose"]
    return p


# ------------------------------------------------------------------ reference
class Ref:
    """What dorado should do on world w at regime t."""

    def __init__(self, w, t=0, arrays=None):
        a = build(w, t) if arrays is None else arrays
        self.w, self.t = w, t
        L, W = self.L, self.W = w["L"], w["W"]
        f8 = lambda x: np.array(x, dtype="f8")
        nz = lambda x: np.where(np.isnan(x), 0.0, x)
        self.rtol = 1e-9 if w["dtype"] == "f8" else 2e-5
        if "depth" in a:
            depth = nz(f8(a["depth"]))
        else:
            depth = a["stage"] - a["topography"]
            depth = np.array(depth, dtype="f8")
            depth[depth < 0] = 0
            depth = nz(depth)
        stage = f8(a["stage"]) if "stage" in a else f8(a["topography"] + a["depth"])
        stage[depth == 0] = np.nan
        if "qx" in a:
            x, y, isq = f8(a["qx"]), f8(a["qy"]), True
        else:
            x, y, isq = f8(a["u"]), f8(a["v"]), False
        if w["model"] == "DeltaRCM":
            fr, fc = nz(x), nz(y)
        else:
            fr, fc = nz(-y), nz(x)
        if isq:
            qr, qc = fr, fc
            with np.errstate(all="ignore"):
                ur, uc = nz(qr * depth / (depth ** 2 + 1e-8)), nz(qc * depth / (depth ** 2 + 1e-8))
        else:
            ur, uc = fr, fc
            qr, qc = ur * depth, uc * depth
        vel = np.sqrt(ur ** 2 + uc ** 2)
        self.vel = np.where(vel < 1e-8, 1e-8, vel)
        uf = np.where(np.abs(ur) < 1e-8, 1e-8, ur)
        vf = np.where(np.abs(uc) < 1e-8, 1e-8, uc)
        self.vang = np.arctan2(-uf, vf)
        self.depth, self.stage, self.qr, self.qc = depth, stage, qr, qc
        self.fields = {"depth": depth, "stage": stage, "qx": qr, "qy": qc, "u": uf, "v": vf}
        self.theta = 1.0 if w["theta"] is None else w["theta"]
        self.gamma = 0.05 if w["gamma"] is None else w["gamma"]
        self.dry = 0.1 if w["dry"] is None else w["dry"]
        self.dc = w["dc"] if w["dc"] is not None else (0.0 if w["steep"] else 0.2)
        self.dc = max(0.0, self.dc)
        self.steep = bool(w["steep"])
        if "cell_type" in a:
            self.ct = a["cell_type"]
        else:
            ct = np.zeros((L, W), dtype=int)
            ct[depth < self.dry] = 2
            ct[0, :] = ct[-1, :] = ct[:, 0] = ct[:, -1] = -1
            self.ct = ct
        self.roi = a.get("roi_grid")
        self.tracked = list(w["track"])
        if self.roi is not None and "roi_flag" not in self.tracked:
            self.tracked.append("roi_flag")
        self._w = {}

    def absorbing(self, i, j):
        return bool((self.ct[max(i - 1, 0):i + 2, max(j - 1, 0):j + 2] == -1).any())

    def on_ring(self, i, j):
        return i in (0, self.L - 1) or j in (0, self.W - 1)

    def weights(self, i, j):
        """(w[9], dead_end): routing weights of the window around (i, j); all zero on the outer ring."""
        key = (i, j)
        r = self._w.get(key)
        if r is None:
            r = self._w[key] = self._weights(i, j)
        return r

    def _weights(self, i, j):
        if self.on_ring(i, j):
            return [0.0] * 9, False
        isn = math.isnan
        sfc, inr, ok = [], [], []
        for k, (a, b) in enumerate(NBR):
            n = (i + a, j + b)
            good = not (self.depth[n] <= self.dry or self.ct[n] == 2)
            ok.append(good)
            s = float(self.stage[i, j] - self.stage[n]) / DIST[k]
            s = 0.0 if s <= 0 or not good else s
            q = float(self.qr[i, j] * UNIT[k][0] + self.qc[i, j] * UNIT[k][1]) / DIST[k]
            q = 0.0 if q <= 0 or not good else q
            sfc.append(s)
            inr.append(q)
        for v in (sfc, inr):
            tot = math.fsum(x for x in v if not isn(x))
            if tot > 0:
                for k in range(9):
                    v[k] = v[k] / tot
        w = []
        for k, (a, b) in enumerate(NBR):
            if not ok[k]:
                w.append(0.0)
                continue
            x = self.gamma * sfc[k] + (1 - self.gamma) * inr[k]
            x = float(self.depth[i + a, j + b]) ** self.theta * x
            w.append(x)
        if math.fsum(x for x in w if not isn(x)) <= 0:
            d = [float(self.depth[i + a, j + b]) for a, b in NBR]
            m = max(d)
            return [1.0 if x == m else 0.0 for x in d], True
        return [0.0 if isn(x) else x for x in w], False

    def probs(self, i, j):
        w, dead = self.weights(i, j)
        s = sum(w)
        return ([x / s for x in w] if s > 0 else None), dead

    def movable(self, i, j):
        """May a particle here ever get a new position?"""
        if (i, j) == (0, 0) or self.absorbing(i, j):
            return False
        w, _ = self.weights(i, j)
        return any(w[k] > 0 for k in range(9) if k != 4)

    def must_move(self, i, j):
        """Does every iteration give a particle here a new position, whatever the draws?"""
        if not self.movable(i, j):
            return False
        w, _ = self.weights(i, j)
        if self.steep:
            # (self excluded; in a tie one of the others is taken)
            m = max(w)
            return any(w[k] >= m * (1 - 1e-9) for k in range(9) if k != 4)
        return w[4] == 0

    def best(self, i, j):
        """Acceptable steepest-descent choices (near ties included) and whether self is the only one."""
        w, dead = self.weights(i, j)
        m = max(w)
        if m <= 0:
            return [], True
        near = [k for k in range(9) if k != 4 and w[k] >= m * (1 - (1e-9 if self.rtol < 1e-6 else 1e-6))]
        return near, not near

    def pick(self, i, j, u):
        """Inverse-CDF choice for a uniform draw u, as the current implementation makes it."""
        w, _ = self.weights(i, j)
        if self.steep:
            near, pit = self.best(i, j)
            m = max(w)
            w = [w[k] if k in near else 0.0 for k in range(9)]
        s = sum(w)
        if s <= 0:
            return 4
        x, acc = u * s, 0.0
        for k in range(9):
            acc += w[k]
            if acc > x:
                return k
        return max(k for k in range(9) if w[k] > 0)

    def base_time(self, i, j, k):
        """Travel time of step k from (i, j) without diffusion."""
        a, b = NBR[k]
        d = DIST[k] * self.w["dx"]
        proj = d * max(0.0, math.cos(ANG[k] - float(self.vang[i, j])))
        return 0.5 * proj * (1.0 / float(self.vel[i, j]) + 1.0 / float(self.vel[i + a, j + b]))

    def time_tol(self, i, j, k, t):
        """Allowed absolute error of a step's travel time recorded at clock t: rounding of the clock,
        and cancellation of the projection when the step is close to orthogonal to the flow."""
        a, b = NBR[k]
        d = DIST[k] * self.w["dx"]
        full = 0.5 * d * (1.0 / float(self.vel[i, j]) + 1.0 / float(self.vel[i + a, j + b]))
        return self.rtol * full + 4e-16 * abs(t) + 1e-12

    def track(self, var, i, j):
        if var == "roi_flag" and self.roi is not None:
            return 1 if self.roi[i, j] == 1 else 0
        return float(self.fields[var][i, j])


def step_index(a, b):
    """Index 0..8 of the step from cell a to cell b, or None if b is not in a's 3x3 window."""
    dr, dc = b[0] - a[0], b[1] - a[1]
    if abs(dr) > 1 or abs(dc) > 1:
        return None
    return (dr + 1) * 3 + dc + 1
