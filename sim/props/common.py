"""Shared pieces of the property checks."""
import copy
import json

import model
import rng
import session
from session import Session, Violation, HarnessError, gen_ops, gen_seed_op, gen_cells, snap, same_walk, diff_walk
from harness import Check

MIX_ALL = {"gen": 1, "step": 6, "target": 3, "regime": 1.2, "restart": 1.2, "cut": 0.4, "clear": 0.3, "bad": 0.5,
           "int-step": 0.6, "int-target": 0.6, "int-gen": 0.3}


def digest(st, sess):
    """Fold the session's final history into the run's event digest."""
    st.events.update(json.dumps(session.snap(sess.part.walk_data), sort_keys=True).encode())


def log_event(sess, ev):
    st = sess.stats
    st.events.update(repr((ev.op, ev.interrupted, ev.stream.doubles, ev.after, ev.warns,
                           None if ev.exc is None else repr(ev.exc))).encode())


class SessionCheck(Check):
    """A check that drives one session through generated operations with this property's oracles."""
    mix = MIX_ALL
    nops = (4, 14)
    styles = None
    world = {}
    extreme_rate = 0.5
    steep_rate = 0.15
    track_rate = 0.2
    scales = True                   # occasionally large grids, many particles, long histories
    long_rate = 0.002               # of histories of more than a thousand records per particle

    def gen(self, r, tier):
        w = model.gen_world(r, **self.world)
        scale = r.random() if self.scales else 1.0
        if scale < 0.02:
            w["L"], w["W"] = r.sample([r.choice([140, 300]), r.choice([5, 6, 8])], 2)
        long = self.scales and r.random() < self.long_rate
        if long:
            w.update(bed="lake", flow="vortex", L=r.choice([8, 10, 15]), W=r.choice([8, 10, 15]))
        if r.random() < self.steep_rate:
            w["steep"] = True
        if r.random() < self.track_rate:
            w["track"] = r.sample(model.TRACKABLE, r.randint(1, 3))
        style = r.choice(self.styles) if self.styles else None
        n = r.randint(*self.nops) * (1 if tier == "quick" else r.choice([1, 1, 2, 4]))
        ext = r.choice([0.02, 0.1, 0.5]) if r.random() < self.extreme_rate else 0.0
        ops = gen_ops(r, w, n, self.mix, style=style)
        if 0.02 <= scale < 0.05:
            for op in ops:
                if op["op"] == "gen" and r.random() < 0.7:
                    op["n"] = r.choice([17, 33, 70, 130])
        elif 0.05 <= scale < 0.07:
            ops[1:1] = [{"op": "step"}] * r.choice([60, 150, 300])
            for op in ops:
                if op["op"] == "gen":
                    op["n"] = min(op["n"], 6)
        if long:
            ops[0].update(n=r.choice([1, 2]), xs=[w["L"] // 2], ys=[w["W"] // 2], m="random", t=None)
            for op in ops[1:4]:
                if op["op"] == "gen":
                    op["n"] = min(op["n"], 6)
            ops[1:] = [{"op": "target", "f": round(r.choice([300, 700, 1500]) * (1 + r.random()), 1), "q": 1.0,
                        "max": 4000}] + ops[1:4]
        plan = {"world": w, "key": r.getrandbits(48), "extreme": ext, "ops": ops}
        return self.tweak(r, plan, tier)

    def tweak(self, r, plan, tier):
        return plan

    def oracles(self, st):
        raise NotImplementedError

    def run(self, plan, st):
        orc = self.oracles(st)
        s = Session(plan["world"], plan["key"], st, plan.get("extreme", 0.0), oracles=[log_event] + orc)
        for op in plan["ops"]:
            if s.steps_left <= 0 or s.broken:
                break
            if op["op"] in ("step", "target") and s.part.walk_data is None:
                continue
            s.apply(op)
        if st.c.get("moves", 0) > 0:
            st.nontrivial = True
        self.finish(plan, st, s)

    def finish(self, plan, st, s):
        pass
