"""C13: parallel routing returns everything exactly once, or fails whole."""
import model
import pool
import rng
from props.common import *
from props import par


class C(Check):
    id = "C13"
    quick = 1700
    thorough = 20000
    cpu_limit = 60.0
    rule = ("parallel routing of random worlds over 1-5 simulated cores: seeded order of starting, task assignment and "
            "finishing of the workers, forked or spawned, with workers raising at a random line, dying while idle or "
            "at work, failing to start, and Ctrl-C in the caller; non-trivial: a complete result was audited or a "
            "fault fired")
    states = "distinct (cores, start method, task-to-worker assignment, completion order, faults, outcome) tuples"
    real = Check.real + ["worker code in forked processes, pickling of tasks and results"]
    stub = Check.stub[1:] + ["multiprocessing.Pool (SimPool: scheduling, start, death and replacement of workers)"]
    assumptions = ["A worker killed by the operating system makes multiprocessing.Pool wait for ever; the simulated "
                   "user then presses Ctrl-C, and the call must end by raising"]

    def gen(self, r, tier):
        plan = par.gen_plan(r, tier)
        fl = []
        if r.random() < 0.6:
            for _ in range(r.choice([1, 1, 2])):
                k = r.choice(["raise", "raise", "raise", "kill", "kill-idle", "no-fork", "ctrl-c"])
                t = r.randrange(plan["n"])
                fl.append({"kind": k, "line": int(2 ** r.uniform(0, 11)), "task": t,
                           "what": r.choice(["memory", "memory"] + sorted(pool.FAILURES))} if k == "raise" else
                          {"kind": k, "worker": t} if k == "no-fork" else {"kind": k, "task": t})
        plan["faults"] = fl
        plan["bad"] = r.random() < 0.05          # an input the workers cannot handle
        # the caller's object may already hold particles of its own, moved or not
        plan["before"] = [r.choice([1, 1, 2, 4]), r.choice([0, 0, 1, 3])] if r.random() < 0.2 else None
        return plan

    def run(self, plan, st):
        import numpy as np
        w = plan["world"]
        ref = model.Ref(w)
        rng.use_real_mt(plan["key"])
        part = par.build(plan)
        if plan["before"]:
            part.generate_particles(plan["before"][0], list(plan["xs"]), list(plan["ys"]))
            for _ in range(plan["before"][1]):
                part.run_iteration()
        if plan["bad"]:
            plan = dict(plan, xs=["north"])
        state = par.state_of(part)
        res, exc, c = par.call(plan, part, plan["sched"], plan["start"], plan["faults"], st)
        fatal = [f for f in c.fired if f != "kill-idle"] or plan["bad"]
        info = dict(cores=plan["n"], start=plan["start"], fired=c.fired, error=repr(exc))
        st.state("c13", plan["n"], plan["start"], str(c.trace), str(c.fired), exc is None)
        if c.left:
            raise Violation("workers-left-behind", workers=c.left, **info)
        if par.state_of(part) != state:
            now = par.state_of(part)
            raise Violation("caller-object-changed", attributes=sorted(k for k in set(now) | set(state)
                                                                       if now.get(k) != state.get(k)), **info)
        st.nontrivial = True
        if exc is not None:
            if not fatal:
                raise exc
            st.add("probe.failed-whole")
            return
        if fatal and "raise" in c.fired or plan["bad"]:
            # (a result can only be complete if nothing was lost; audited below otherwise)
            raise Violation("worker-failure-swallowed", returned=None if res is None else
                            {k: len(v) for k, v in res.items()}, **info)
        if plan["before"]:
            # (what becomes of the caller's own particles is not promised: legality and completeness only)
            walk = snap(res)
            session.structure(walk, None, ref.tracked)
            if len(walk["xinds"]) < plan["n"] * plan["np"]:
                raise Violation("wrong-number-of-particles", returned=len(walk["xinds"]), **info)
            for p in range(len(walk["xinds"])):
                for _ in par.steps(ref, walk, p):
                    st.add("moves")
            st.add("probe.caller's-own-particles")
            return
        self.audit(plan, st, ref, snap(res), info)

    def audit(self, plan, st, ref, walk, info):
        n, m, it = plan["n"], plan["np"], plan["iters"]
        session.structure(walk, None, ref.tracked)
        if len(walk["xinds"]) != n * m:
            raise Violation("wrong-number-of-particles", returned=len(walk["xinds"]), requested=n * m, **info)
        if set(walk) != set(session.BASE) | set(ref.tracked):
            raise Violation("wrong-variables", returned=sorted(walk), **info)
        for p in range(n * m):
            X, Y = walk["xinds"][p], walk["yinds"][p]
            if X[0] not in plan["xs"] or Y[0] not in plan["ys"] or walk["travel_times"][p][0] != 0:
                raise Violation("particle-not-requested", particle=p, start=(X[0], Y[0]), **info)
            for _ in par.steps(ref, walk, p):
                st.add("moves")
            if len(X) > it + 1:
                raise Violation("moved-too-often", particle=p, moves=len(X) - 1, iterations=it, **info)
            c = (X[-1], Y[-1])
            if len(X) < it + 1 and not ref.on_ring(*c) and ref.must_move(*c) and not any(
                    ref.weights(x, y)[0][4] > 0 for x, y in zip(X, Y)):
                raise Violation("moved-too-little", particle=p, moves=len(X) - 1, iterations=it, cell=c, **info)
            for v in ref.tracked:
                for j, (x, y) in enumerate(zip(X, Y)):
                    want, got = ref.track(v, x, y), walk[v][p][j]
                    if got is None or abs(got - want) > max(ref.rtol, 1e-9) * abs(want) + 1e-12:
                        if not (want != want and got != got):
                            raise Violation("tracked-value-mixed-up", variable=v, particle=p, point=j, got=got,
                                            field=want, **info)
        if ref.dc > 0:
            groups = [par.diffusions(ref, walk, g * m, (g + 1) * m) for g in range(n)]
            for a in range(n):
                for b in range(a):
                    same = [walk[k][a * m:(a + 1) * m] for k in session.BASE] == \
                        [walk[k][b * m:(b + 1) * m] for k in session.BASE]
                    if same and len(groups[a]) >= 3:
                        raise Violation("group-duplicated", groups=(b, a), **info)
        st.add("probe.complete-result-audited")

    def simplify(self, plan):
        for k, v in (("iters", 1), ("np", 1), ("n", 1), ("n", 2), ("start", "fork"), ("faults", plan["faults"][:1]),
                     ("before", None)):
            if plan[k] != v:
                yield dict(plan, **{k: v})


CHECK = C()
