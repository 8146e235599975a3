"""C14: parallel results depend on the seed only; independent walks."""
import boot
import model
import pooling
import rng
from props.common import *
from props import par
import session


class C(Check):
    id = "C14"
    quick = 500
    thorough = 12000
    cpu_limit = 90.0
    rule = ("each parallel call is repeated from the same random state under several seeded schedules and both start "
            "methods (and with idle workers dying), then again from the advanced state; results compared exactly, the "
            "diffusion draws of different groups and calls searched for repeated values and pooled for correlation; "
            "non-trivial: two schedules were compared")
    states = "distinct (cores, start method, task-to-worker assignment, completion order) tuples"
    real = Check.real + ["numpy's MT19937 global generator and its seeding", "worker code in forked processes"]
    stub = ["clock, process ids (different in every schedule)", "entropy (spawned workers' initial random state)",
            "multiprocessing.Pool (SimPool: scheduling, start, death and replacement of workers)"]

    def gen(self, r, tier):
        plan = par.gen_plan(r, tier)
        if r.random() < 0.8:
            w = plan["world"]
            w["dc"] = r.choice([0.5, 1.0, 1.9])
            w["dtype"] = "f8"
            if w["flow"] == "zero":
                w["flow"] = "noisy"
        plan["n"] = min(plan["n"], 4) if r.random() < 0.7 else plan["n"]
        plan["variants"] = [[r.getrandbits(32), r.choice(["fork", "spawn"]), r.random() < 0.2]
                            for _ in range(r.choice([1, 2]) if tier == "quick" else r.choice([1, 2, 4]))]
        plan["again"] = r.random() < 0.6
        plan["warm"] = r.choice([0, 0, 1, 7])
        if r.random() < 0.04:                       # a crowd of workers: seeds from a small range would meet
            plan.update(n=r.choice([24, 32, 48]), np=1, iters=12, variants=[], again=True)
        return plan

    def seed(self, plan):
        import numpy as np
        np.random.seed(plan["key"])
        for _ in range(plan["warm"]):
            np.random.random()

    def go(self, plan, st, sched, start, kill, cpus=None):
        part = par.build(plan)
        # another moment, another clock speed
        boot.CLOCK.reset((sched % 1000003) * 4096.0 + sched % 977 * 0.001, (1e-6, 1e-4, 0.1, 60.0)[sched // 7 % 4])
        fl = [{"kind": "kill-idle", "task": sched % max(1, plan["n"])}] if kill else []
        res, exc, c = par.call(plan, part, sched, start, fl, st, cpus)
        if exc is not None:
            raise exc
        st.state("c14", plan["n"], start, str(c.trace))
        return snap(res)

    def run(self, plan, st):
        import numpy as np
        w = plan["world"]
        ref = model.Ref(w)
        rng.use_real_mt(0)
        self.seed(plan)
        first = self.go(plan, st, plan["sched"], plan["start"], False)
        later = np.random.random(4).tolist()
        self.seed(plan)
        np.random.random(4)
        second = None
        if plan["again"]:
            self.seed(plan)
            one = self.go(plan, st, plan["sched"] + 1, plan["start"], False)
            if not same_walk(one, first):
                raise Violation("result-depends-on-schedule", first=diff_walk(one, first), start=plan["start"])
            second = self.go(plan, st, plan["sched"] + 2, plan["start"], False)
        for sched, start, kill in plan["variants"]:
            self.seed(plan)
            res = self.go(plan, st, sched, start, kill, 1 + sched % 8)
            if not same_walk(res, first):
                raise Violation("result-depends-on-schedule", first=diff_walk(res, first), start=(plan["start"], start),
                                worker_died=kill)
            if np.random.random(4).tolist() != later:
                raise Violation("caller-draws-depend-on-schedule", start=(plan["start"], start))
            st.add("probe.schedules-compared")
        st.nontrivial = True
        # independence
        n, m = plan["n"], plan["np"]
        if len(first["xinds"]) == n * m:
            px = sum((plan["xs"].count(x) / len(plan["xs"])) ** 2 for x in set(plan["xs"]))
            py = sum((plan["ys"].count(y) / len(plan["ys"])) ** 2 for y in set(plan["ys"]))
            start = [(X[0], Y[0]) for X, Y in zip(first["xinds"], first["yinds"])]
            pairs = [(0, 1)] if plan["n"] < 4 else [(0, 1), (2, 3)]
            for a, b in pairs if n > 1 else ():
                for j in range(m):
                    pooling.add(st.pool, "starts|groups", (start[a * m + j] == start[b * m + j]) - px * py,
                                px * py * (1 - px * py))
            if second is not None and len(second["xinds"]) == n * m:
                for g in range(n):
                    j = g * m
                    same = (second["xinds"][j][0], second["yinds"][j][0]) == start[j]
                    pooling.add(st.pool, "starts|calls", same - px * py, px * py * (1 - px * py))
        if ref.dc <= 0 or len(first["xinds"]) != n * m:
            return
        groups = [par.diffusions(ref, first, g * m, (g + 1) * m) for g in range(n)]
        st.add("moves", sum(len(g) for g in groups))
        for a in range(n):
            for b in range(a):
                self.independent("groups", groups[b], groups[a], st, (b, a), plan)
        if second is not None and len(second["xinds"]) == n * m:
            g2 = [par.diffusions(ref, second, g * m, (g + 1) * m) for g in range(n)]
            for a in range(n):
                for b in range(n):
                    self.independent("calls", groups[a], g2[b], st, (a, b), plan)
        # the caller's own later draws are not the workers' either (2 e-draws per value is what a step uses)
        own = [x - 0.5 for x in later]
        for g in range(n):
            k = par.coincidences(own, groups[g]) + par.coincidences([-x for x in own], groups[g])
            if k >= 3:
                raise Violation("worker-replays-the-caller's-draws", group=g, repeated=k)

    def independent(self, what, a, b, st, which, plan):
        k = par.coincidences(a, b)
        if par.improbable(k, len(a), len(b)):
            raise Violation("random-stream-replayed", between=what, which=which, repeated=k, draws=(len(a), len(b)),
                            start=plan["start"])
        if k >= 3:
            st.add("probe.coincidences-left-open")
        st.add("probe.streams-compared")
        for x, y in zip(a, b):
            pooling.add(st.pool, "correlation|" + what, x * y, 1 / 144)
        for x, y in zip(a[1:], b):
            pooling.add(st.pool, "correlation|%s|shifted" % what, x * y, 1 / 144)
        for x, y in zip(a, b[1:]):
            pooling.add(st.pool, "correlation|%s|shifted-back" % what, x * y, 1 / 144)

    def pooled(self, pool, prior):
        return pooling.judge(pool, prior)

    def simplify(self, plan):
        for k, v in (("iters", 2), ("np", 1), ("n", 2), ("start", "fork"), ("variants", plan["variants"][:1]),
                     ("again", False), ("warm", 0)):
            if plan[k] != v:
                yield dict(plan, **{k: v})


CHECK = C()
