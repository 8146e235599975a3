"""C10: checkpoint / crash / restart equivalence."""
import copy
import json

import model
import procs
import rng
import session
from props.common import SessionCheck, Session, Violation, HarnessError, snap, same_walk, diff_walk, log_event
from session import Stats


def compare(i, op, got, want, **detail):
    if not same_walk(got, want):
        raise Violation("resumed-run-diverged", after_op=i, op=op, first=diff_walk(got, want), **detail)


class Runner(Session):
    def do_restart(self, op, ev):
        via = op["via"]
        if via in ("mem", "json", "assign"):
            return super().do_restart(op, ev)
        # the history object itself, as returned, handed to the new object (the old one is dropped)
        walk = self.part.walk_data if via == "live" else copy.deepcopy(ev.before)
        self.stats.add("fault.crash-restart-" + via)
        s = rng.current()
        self.open(op.get("t", self.regime))
        rng.use(s)
        if via == "joint":
            g = op["gen"]
            kw = {"previous_walk_data": walk}
            if g.get("t") is not None:
                kw["seed_time"] = g["t"]
            if g.get("m") is not None:
                kw["method"] = g["m"]
            self.part.generate_particles(g["n"], g["xs"], g["ys"], **kw)
        elif walk is not None:
            xs = [2, 3] if op.get("kw") else []
            self.part.generate_particles(0, xs, xs, previous_walk_data=walk, **op.get("kw", {}))


def tail(s, ops, start, want):
    """Run ops[start:] on session s, comparing with the uninterrupted run after each."""
    for i in range(start, len(ops)):
        s.apply(ops[i])
        compare(i, ops[i], s.walk(), want[i])


class C(SessionCheck):
    id = "C10"
    quick = 5000
    thorough = 50000
    track_rate = 0.5
    mix = {"gen": 1.5, "step": 6, "target": 3, "regime": 1}
    rule = ("each run is executed without interruption and again with crashes at arbitrary operations (or at the n-th "
            "draw inside one), each followed by a new particle object, in the same or a fresh process, resumed from "
            "the returned history or its JSON file, every later operation with the same random draws; non-trivial: at "
            "least one move after a crash")
    states = "distinct (crash point, kind of restart, operation following it, particles) tuples"

    def tweak(self, r, plan, tier):
        ops = plan["ops"]
        for i, op in enumerate(ops):
            op["k"] = i
            if op["op"] == "restart":
                op["via"] = "mem"
        n = len(ops)
        cr = []
        for _ in range(r.choice([1, 1, 2, 3])):
            c = {"at": r.randrange(1, n) if n > 1 else 1,
                 "via": r.choice(["mem", "json", "json", "assign", "live", "joint", "fresh", "fresh"])}
            if r.random() < 0.3:
                c["torn"] = r.choice([0, 1, 2, 4, 7])     # first dies inside the next operation
            if r.random() < 0.3:
                c["method"] = r.choice(["exact", "random"])
            cr.append(c)
        plan["crashes"] = sorted(cr, key=lambda c: c["at"])
        if r.random() < 0.3:
            plan["back"] = [r.random(), r.random()]
        return plan

    def run(self, plan, st):
        ops, w, key, ext = plan["ops"], plan["world"], plan["key"], plan["extreme"]
        ops = copy.deepcopy(ops)
        while ops and ops[0]["op"] != "gen":
            ops.pop(0)
        if not ops:
            return
        crashes = [c for c in plan["crashes"] if c["at"] < len(ops)]
        standby = None
        if any(c["via"] == "fresh" for c in crashes):
            def resume(req):
                st2 = Stats()
                s2 = Runner(w, key, st2, ext)
                s2.open(req["regime"])
                s2.part.generate_particles(0, [], [], method="random", previous_walk_data=req["walk"])
                tail(s2, req["ops"], req["at"], req["want"])
                return {"c": st2.c}
            standby = procs.Standby(resume)
        try:
            # uninterrupted
            s = Runner(w, key, st, ext, oracles=[log_event])
            want, regimes = [], []
            for i, op in enumerate(ops):
                ev = s.apply(op)
                if op["op"] == "target":
                    op["T"] = ev.extra["T"]       # the same absolute target in every continuation
                want.append(snap(s.part.walk_data))
                regimes.append(s.regime)
            st.state("c10", "base", len(ops))
            # interrupted
            s = Runner(w, key, st, ext)
            i = 0
            todo = list(crashes)
            while i < len(ops):
                op = ops[i]
                skip = False
                while todo and todo[0]["at"] == i:
                    c = todo.pop(0)
                    if c.get("torn") is not None and op["op"] in ("step", "target", "gen"):
                        saved = json.loads(json.dumps(s.walk()))
                        ev = s.apply(dict(op, int=c["torn"]))
                        if ev.interrupted:
                            st.add("fault.crash-inside-operation")
                        s.part.walk_data = saved
                        via = "assign" if c["via"] in ("assign", "live") else "json"
                    else:
                        via = c["via"]
                    st.state("c10", c["at"], via, op["op"], min(6, len(want[i]["xinds"])))
                    if via == "fresh":
                        if standby.pid is None:
                            via = "json"
                        else:
                            st.add("fault.crash-restart-fresh-process")
                            res = standby.call({"walk": s.walk(), "regime": s.regime, "ops": ops, "at": i, "want": want})
                            for k, v in res["c"].items():
                                st.add(k, v)
                            st.nontrivial = True
                            continue
                    if via == "joint":
                        if op["op"] != "gen" or todo and todo[0]["at"] == i:
                            via = "json"
                        else:
                            s.apply({"op": "restart", "via": "joint", "t": s.regime, "k": op["k"], "gen": op})
                            compare(i, op, s.walk(), want[i], restart=c)
                            skip = True
                            continue
                    r = {"op": "restart", "via": via, "t": s.regime}
                    if c.get("method") and via == "live":
                        r["kw"] = {"method": c["method"]}
                    s.apply(r)
                    compare(i, "restart", s.walk(), want[i - 1], restart=c)
                if not skip:
                    before = st.c.get("moves", 0)
                    s.apply(op)
                    if st.c.get("moves", 0) > before and len(todo) < len(crashes):
                        st.nontrivial = True
                    compare(i, op, s.walk(), want[i])
                i += 1
            # back to an earlier point: the final history cut where it stood after operation j
            if plan.get("back") and len(ops) > 1:
                j = int(plan["back"][0] * (len(ops) - 1))
                n = len(want[j]["xinds"])
                cut = {k: [row[:len(want[j]["xinds"][p])] for p, row in enumerate(rows[:n])]
                       for k, rows in want[-1].items()}
                compare(j, "cut", cut, want[j])
                s.open(regimes[j])
                s.part.generate_particles(0, [], [], previous_walk_data=cut)
                st.add("fault.rolled-back-to-earlier-record")
                tail(s, ops, j + 1, want)
        finally:
            if standby is not None:
                standby.close()


CHECK = C()
