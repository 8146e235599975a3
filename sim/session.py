"""A simulated session: one user process driving dorado's public API through a list of operations,
with the random stream, interrupts, restarts and forcing under the simulator's control.

After every operation the recorded history is copied, compared with the copy taken before, and handed
to the property's oracles as an Event.
"""
import copy
import json
import math
import numbers
import os
import sys
import warnings

import boot
import model
import rng
import threads

BASE = ("xinds", "yinds", "travel_times")


class Violation(Exception):
    def __init__(self, kind, **detail):
        super().__init__(kind)
        self.kind, self.detail = kind, detail


class HarnessError(Exception):
    pass


def plain(v):
    """numpy scalars -> python, for comparison and printing."""
    if isinstance(v, numbers.Integral):
        return int(v)
    if isinstance(v, numbers.Real):
        return float(v)
    return v


def snap(walk):
    """Deep, plain copy of a walk_data dict (None stays None)."""
    if walk is None:
        return None
    return {k: [[plain(x) for x in row] for row in rows] for k, rows in walk.items()}


def same_value(a, b):
    if a is None or b is None:
        return a is b
    return a == b or (a != a and b != b)


def same_walk(a, b):
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    if set(a) != set(b):
        return False
    for k in a:
        if len(a[k]) != len(b[k]):
            return False
        for r, s in zip(a[k], b[k]):
            if len(r) != len(s) or not all(same_value(x, y) for x, y in zip(r, s)):
                return False
    return True


def diff_walk(a, b):
    """Short description of the first difference of two histories."""
    if a is None or b is None:
        return "one history is missing"
    if set(a) != set(b):
        return "keys %s / %s" % (sorted(a), sorted(b))
    for k in sorted(a):
        if len(a[k]) != len(b[k]):
            return "%s: %d / %d particles" % (k, len(a[k]), len(b[k]))
        for i, (r, s) in enumerate(zip(a[k], b[k])):
            for j in range(max(len(r), len(s))):
                x = r[j] if j < len(r) else "<none>"
                y = s[j] if j < len(s) else "<none>"
                if not same_value(x, y):
                    return "%s[%d][%d]: %r / %r" % (k, i, j, x, y)
    return "equal"


class Stats:
    """What a run actually exercised."""

    def __init__(self):
        self.c = {}
        self.states = set()
        self.simtime = 0.0

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def state(self, *parts):
        self.states.add(rng.mix(*[p if isinstance(p, (int, str)) else repr(p) for p in parts]))


class Event:
    __slots__ = ("i", "op", "before", "after", "ret", "exc", "warns", "stream", "ref", "regime", "app",
                 "interrupted", "extra")

    def __init__(self, **k):
        self.extra = None
        for a, b in k.items():
            setattr(self, a, b)


def structure(walk, before=None, expect_vars=(), partial=False):
    """History is well formed and extends `before`.  Returns per particle the first appended index.
    partial=True (interrupted at an arbitrary line): only the earlier points are demanded."""
    if walk is None:
        if before is not None:
            raise Violation("history-lost")
        return []
    for k in BASE:
        if k not in walk:
            raise Violation("history-malformed", missing=k)
    n = len(walk["xinds"])
    for k, rows in walk.items():
        if not partial and len(rows) != n:
            raise Violation("history-misaligned", variable=k, particles=len(rows), expected=n)
    for k in expect_vars:
        if k not in walk:
            raise Violation("tracked-variable-missing", variable=k)
    if not partial:
        for p in range(n):
            m = len(walk["xinds"][p])
            for k, rows in walk.items():
                if len(rows[p]) != m:
                    raise Violation("history-misaligned", variable=k, particle=p, points=len(rows[p]), expected=m)
            if m == 0:
                raise Violation("history-empty", particle=p)
    starts = [0] * n
    if before is not None:
        m = len(before["xinds"])
        if n < m:
            raise Violation("particles-lost", before=m, after=n)
        for k, rows in before.items():
            if k not in walk:
                if k in BASE:
                    raise Violation("history-malformed", missing=k)
                continue
            for p, row in enumerate(rows):
                if p >= len(walk[k]):
                    raise Violation("particles-lost", variable=k, before=len(rows), after=len(walk[k]))
                new = walk[k][p]
                if len(new) < len(row) or not all(same_value(x, y) for x, y in zip(row, new)):
                    raise Violation("history-rewritten", variable=k, particle=p,
                                    before=row[-3:], after=new[:len(row)][-3:])
        for p in range(m):
            starts[p] = len(before["xinds"][p])
    return starts


def joined(prev, present):
    """The history expected to be preserved by a seeding call with a supplied earlier history."""
    out = {}
    for k in set(prev) | set(present or ()):
        out[k] = ([list(r) for r in prev[k]] if k in prev else [[None] * len(r) for r in prev["xinds"]])
        if present is not None:
            out[k] += present[k] if k in present else [[None] * len(r) for r in present["xinds"]]
    return out


class LineInterrupt:
    """Trace function raising Ctrl-C before the n-th line of the package executed under it."""

    def __init__(self, n):
        self.n, self.fired = n, 0
        self.root = os.path.join(os.path.abspath(boot.REPO), "dorado") + os.sep

    def __call__(self, frame, event, arg):
        if event == "call":
            return self.line if frame.f_code.co_filename.startswith(self.root) else None
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.n -= 1
            if self.n < 0 and not self.fired and not threads.shielded(frame):
                self.fired = 1
                raise KeyboardInterrupt
        return self.line


class Session:
    def __init__(self, world, key, stats, extreme=0.0, oracles=(), arrays=None):
        from dorado import particle_track as pt
        self.pt = pt
        self.w = dict(world)
        self.key = key
        self.stats = stats
        self.extreme = extreme
        self.oracles = list(oracles)
        self.i = 0                      # operation counter: keys the random stream
        self.arrays = arrays
        self.broken = False             # interrupted half-way through recording a point
        self.steps_left = 4000          # bound on the simulated steps of one run
        self.open(0)

    # -- building
    def open(self, regime, track=None, roi=None):
        if track is not None:
            self.w["track"] = list(track)
        if roi is not None:
            self.w["roi"] = roi or None
        self.regime = regime
        self.params = model.make_params(self.w, regime)
        self.ref = model.Ref(self.w, regime)
        rng.use(rng.Stream(rng.mix(self.key, "build", self.i)))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                self.part = self.pt.Particles(self.params)
            except Exception as e:
                raise Violation("unexpected-exception", op="Particles()", error=repr(e))

    def tau(self):
        """A typical step duration here (reference), for choosing targets and seed times."""
        v = float(sorted(self.ref.vel.ravel())[self.ref.vel.size // 2])
        return self.w["dx"] / max(v, 0.05)

    def walk(self):
        return snap(self.part.walk_data)

    def last_times(self):
        w = self.part.walk_data
        return [] if w is None else [r[-1] for r in w["travel_times"]]

    # -- one operation
    def apply(self, op):
        before = self.walk()
        s = rng.Stream(rng.mix(self.key, "op", op.get("k", self.i)), extreme=self.extreme,
                       interrupt_at=op.get("int"), script=op.get("script"))
        old = rng.use(s)
        ev = Event(i=self.i, op=op, before=before, after=None, ret=None, exc=None, warns=[], stream=s,
                   ref=self.ref, regime=self.regime, app=None, interrupted=False)
        self.i += 1
        lines = LineInterrupt(op["line"]) if op.get("line") is not None else None
        try:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    if lines is not None:
                        sys.settrace(lines)
                    if op.get("int") is not None:
                        rng.PENDING.clear()
                        sys.setprofile(rng.deliver)
                    ev.ret = getattr(self, "do_" + op["op"])(op, ev)
                except KeyboardInterrupt:
                    if not s.fired and not (lines and lines.fired):
                        raise
                    ev.interrupted = True
                except Violation:
                    raise
                except Exception as e:
                    ev.exc = e
            ev.warns = [str(x.message) for x in ws if not issubclass(x.category, DeprecationWarning)]
        finally:
            sys.settrace(None)
            sys.setprofile(None)
            rng.PENDING.clear()
            rng.use(old)
        self.stats.add("op." + op["op"])
        self.stats.add("draws", s.doubles)
        if s.hit:
            self.stats.add("fault.extreme-draw", s.hit)
        if ev.interrupted and s.fired:
            self.stats.add("fault.interrupt-at-draw", s.fired)
        if lines is not None and lines.fired:
            # anywhere in the call: the history may be half-way through recording a point, but nothing
            # recorded before the call may be lost or altered
            self.stats.add("fault.interrupt-at-line")
            structure(self.walk(), before, partial=True)
            self.broken = True
            return ev
        ev.after = self.walk()
        if op["op"] == "clear":
            self.fire(ev)
            return ev
        if ev.exc is not None and op["op"] != "bad":
            raise Violation("unexpected-" + type(ev.exc).__name__, op=op, error="%s: %s" % (type(ev.exc).__name__, ev.exc))
        if op["op"] == "gen" and op.get("prev") and not ev.interrupted:
            ev.app = structure(ev.after, joined(op["prev"], before))
        elif op["op"] != "restart":
            ev.app = structure(ev.after, before)
        else:
            ev.app = structure(ev.after, before if op.get("cut") is None else None)
            ev.ref, ev.regime = self.ref, self.regime
        self.account(ev)
        self.fire(ev)
        return ev

    def fire(self, ev):
        for o in self.oracles:
            o(self, ev)

    def account(self, ev):
        if ev.after is None or ev.before is None or ev.op["op"] == "restart":
            return
        for p, a in enumerate(ev.app):
            if a and len(ev.after["travel_times"][p]) > a:
                t = ev.after["travel_times"][p]
                if t[-1] == t[-1] and t[a - 1] == t[a - 1] and abs(t[-1]) < 1e300:
                    # (steps through still water, at the 1e-8 m/s floor, would drown the figure)
                    self.stats.simtime += sum(min(t[j] - t[j - 1], 1e4) for j in range(a, len(t)))
                n = len(t) - a
                self.stats.add("moves", n)
                self.steps_left -= n

    # -- operations
    def do_gen(self, op, ev):
        xs, ys = op["xs"], op["ys"]
        if op.get("nd"):
            import numpy as np
            xs, ys = np.array(xs), np.array(ys)
            if op["nd"] == 2 and len(xs) % 2 == 0 and len(ys) % 2 == 0 and len(xs):
                xs, ys = xs.reshape(2, -1), ys.reshape(2, -1)
        kw = {}
        if op.get("t") is not None:
            kw["seed_time"] = op["t"]
        if op.get("m") is not None:
            kw["method"] = op["m"]
        if op.get("prev") is not None:
            kw["previous_walk_data"] = copy.deepcopy(op["prev"])
        return self.part.generate_particles(op["n"], xs, ys, **kw)

    def do_step(self, op, ev):
        return self.part.run_iteration()

    def do_target(self, op, ev):
        T = op.get("T")
        if T is None:
            ts = [t for t in self.last_times() if t == t and abs(t) < 1e7]
            ts.sort()
            base = ts[min(len(ts) - 1, int(op.get("q", 0.5) * len(ts)))] if ts else 0.0
            T = base + op["f"] * self.tau() + op.get("d", 0.0)
        ev.extra = {"T": T, "max": op.get("max")}
        kw = {"target_time": T}
        kw["max_iter"] = op["max"] if op.get("max") is not None else 400
        if op.get("max") == "default":              # (documented: 10,000)
            kw["max_iter"] = 10000
        ev.extra["max"] = kw["max_iter"]
        if op.get("max") == "default":
            del kw["max_iter"]
        return self.part.run_iteration(**kw)

    def do_restart(self, op, ev):
        walk = ev.before
        if walk is not None and op.get("via") == "json":
            walk = self.part.walk_data          # saved as it is
        if op.get("cut") is not None and walk is not None:
            walk = {k: [row[:max(1, int(math.ceil(len(row) * op["cut"])))] for row in rows]
                    for k, rows in walk.items()}
            ev.extra = {"cut": snap(walk)}
        via = op.get("via", "mem")
        if via == "json" and walk is not None:
            walk = json.loads(json.dumps(walk))
            self.stats.add("fault.crash-restart-json")
        else:
            walk = copy.deepcopy(walk)
            self.stats.add("fault.crash-restart-" + via)
        s = rng.current()
        self.open(op.get("t", self.regime), op.get("track"), op.get("roi"))
        rng.use(s)
        if walk is None:
            return None
        if via == "assign":
            # (rows of variables the new object does not track are left out: it would drop them at the next
            # completed call, and an interrupted one leaves them behind)
            self.part.walk_data = {k: v for k, v in walk.items() if k in BASE or k in self.ref.tracked}
        else:
            self.part.generate_particles(0, [], [], method="random", previous_walk_data=walk)
        return None

    def do_clear(self, op, ev):
        self.part.clear_walk_data()

    def do_bad(self, op, ev):
        """A call with invalid arguments: must raise."""
        k = op["kind"]
        p = self.part
        if k == "Np":
            p.generate_particles("many", [1], [1])
        elif k == "xloc":
            p.generate_particles(2, "a", [1])
        elif k == "yloc":
            p.generate_particles(2, [1], [[None]])
        elif k == "seed_time":
            p.generate_particles(2, [1], [1], seed_time="noon")
        elif k == "method":
            p.generate_particles(2, [1], [1], method="nearest")
        elif k == "method-type":
            p.generate_particles(2, [1], [1], method=3)
        elif k == "target":
            p.run_iteration(target_time="later")
        elif k == "empty-random":
            p.generate_particles(3, [], [], method="random")
        elif k == "empty-exact":
            p.generate_particles(3, [], [], method="exact")
        elif k == "prev-empty":
            p.generate_particles(2, [1], [1], previous_walk_data={})
        elif k == "prev-partial":
            p.generate_particles(2, [1], [1], previous_walk_data={"xinds": [[1]]})
        elif k == "prev-no-times":
            p.generate_particles(2, [1], [1], previous_walk_data={"xinds": [[1]], "yinds": [[1]]})
        elif k == "prev-type":
            p.generate_particles(2, [1], [1], previous_walk_data=7)
        elif k == "uneven-exact":
            p.generate_particles(3, [1, 2, 3], [1], method="exact")
        elif k in ("max-none", "max-text", "max-list"):
            last = max((t[-1] for t in (p.walk_data or {"travel_times": []})["travel_times"]), default=0.0)
            p.run_iteration(target_time=2 * last + 1e6, max_iter={"max-none": None, "max-text": "many", "max-list": [3, 4]}[k])
        elif k == "run-unseeded":
            q = self.pt.Particles(model.make_params(self.w, self.regime))
            q.run_iteration()
        else:
            raise HarnessError("unknown bad call " + k)

    def do_noop(self, op, ev):
        return None


# ------------------------------------------------------------------ plans
def gen_cells(r, w, style=None):
    """Seed lists for a generate call."""
    L, W = w["L"], w["W"]
    style = style or r.choice(["interior", "interior", "interior", "any", "ring", "one", "near-edge"])
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    if style == "one":
        n = 1
    out = []
    hot = [k for k in (127, 255) if k + 8 < max(L, W)]      # where narrow integer types would wrap
    for _ in range(n):
        if hot and r.random() < 0.7:
            k, o = r.choice(hot) + r.randrange(-6, 7), r.randrange(1, min(L, W) - 1)
            c = (k, o) if L > W else (o, k)
        elif style == "ring":
            c = r.choice([(0, r.randrange(W)), (L - 1, r.randrange(W)), (r.randrange(L), 0),
                          (r.randrange(L), W - 1)])
        elif style == "near-edge":
            c = r.choice([(1, r.randrange(1, W - 1)), (L - 2, r.randrange(1, W - 1)),
                          (r.randrange(1, L - 1), 1), (r.randrange(1, L - 1), W - 2)])
        elif style == "any":
            c = (r.randrange(L), r.randrange(W))
        else:
            c = tuple(r.randrange(2, k - 2) if k > 4 else r.randrange(1, k - 1) for k in (L, W))
        out.append(c)
    return [c[0] for c in out], [c[1] for c in out], style


def gen_seed_op(r, w, nmax=6, style=None):
    xs, ys, style = gen_cells(r, w, style)
    op = {"op": "gen", "n": r.choice([1, 2, 3, 4, 5, nmax]), "xs": xs, "ys": ys,
          "m": r.choice([None, "random", "exact"])}
    if r.random() < 0.25:
        op["t"] = r.choice([0, 1, 5, 10.5, 100.0, 1000])
    if r.random() < 0.1:
        op["nd"] = r.choice([1, 2])
    if r.random() < 0.015:
        op["n"] = r.choice([17, 33, 70, 130])
    return op


def gen_ops(r, w, n, mix, seed_first=True, style=None, nmax=6):
    """n operations drawn from the weighted mix {name: weight}."""
    ops = [gen_seed_op(r, w, nmax, style)] if seed_first else []
    names, weights = list(mix), list(mix.values())
    regime = 0
    while len(ops) < n:
        k = r.choices(names, weights)[0]
        if k == "gen":
            ops.append(gen_seed_op(r, w, nmax, style))
        elif k == "step":
            ops.extend({"op": "step"} for _ in range(r.choice([1, 1, 2, 3, 5, 8])))
        elif k == "target":
            ops.append({"op": "target", "f": round(r.choice([0.0, 0.5, 1, 2, 3, 5, 8, -1]) * (0.5 + r.random()), 3),
                        "q": r.random(), "max": r.choice([None, None, None, 1, 2, 5, 20])})
        elif k == "regime":
            regime += 1
            ops.append({"op": "restart", "via": r.choice(["mem", "json"]), "t": regime})
        elif k == "restart":
            ops.append({"op": "restart", "via": r.choice(["mem", "json", "assign"]), "t": regime})
        elif k == "cut":
            ops.append({"op": "restart", "via": r.choice(["mem", "json"]), "t": regime, "cut": round(r.random(), 2)})
        elif k == "clear":
            ops.append({"op": "clear"})
            ops.append(gen_seed_op(r, w, nmax, style))
        elif k == "bad":
            ops.append({"op": "bad", "kind": r.choice(["Np", "xloc", "yloc", "seed_time", "method", "method-type",
                                                       "empty-random", "empty-exact", "run-unseeded",
                                                       "prev-empty", "prev-partial", "prev-no-times", "prev-type",
                                                       "uneven-exact", "max-none", "max-text", "max-list"])})
        elif k == "int-step":
            ops.append({"op": "step", "int": r.choice([0, 1, 2, 3, 5, 8])})
        elif k == "int-target":
            ops.append({"op": "target", "f": round(r.choice([2, 4, 8]) * (0.5 + r.random()), 3), "q": r.random(),
                        "max": None, "int": r.choice([0, 1, 2, 3, 5, 8, 13, 21])})
        elif k == "int-gen":
            o = gen_seed_op(r, w, nmax, style)
            o["int"] = r.choice([0, 1, 2, 3])
            ops.append(o)
        else:
            raise HarnessError(k)
    return ops
