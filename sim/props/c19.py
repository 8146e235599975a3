"""C19: steepest descent."""
import oracles
import pooling
import model
from props.common import SessionCheck


class C(SessionCheck):
    id = "C19"
    quick = 8000
    thorough = 60000
    mix = {"gen": 1.5, "step": 7, "target": 2, "regime": 1, "restart": 1, "int-step": 0.3, "int-target": 0.3}
    extreme_rate = 0.3
    rule = ("random worlds (pits, ties and dead ends included) under steepest descent, cells visited repeatedly by "
            "several particles; non-trivial: at least one recorded move was compared with the maximal weights")
    states = "distinct (cell, direction, size of the tie) tuples"

    def tweak(self, r, plan, tier):
        w = plan["world"]
        w["steep"] = True
        if r.random() < 0.5:
            w["bed"], w["stage"], w["flow"] = (r.choice(["dyadic", "flat", "pits"]), r.choice(["dyadic", "flat"]),
                                               r.choice(["dyadic", "zero"]))
            w["dtype"] = "f8"
        for op in plan["ops"]:
            if op["op"] == "gen":
                op["n"] = r.choice([1, 3, 8, 16])
            if op["op"] == "target":
                op["max"] = 40
        return plan

    def oracles(self, st):
        return [oracles.steepest, self.ties]

    def ties(self, sess, ev):
        """Equal chance among exact ties (dyadic inputs only, so that ties are exact in any arithmetic)."""
        w = sess.w
        if sess.extreme or ev.interrupted or w["dtype"] != "f8":
            return
        if not (w["bed"] in ("dyadic", "flat") and w["stage"] in ("dyadic", "flat") and w["flow"] in ("dyadic", "zero")):
            return
        st, ref = sess.stats, ev.ref
        prev = None
        for p, j, a, b, _, _ in oracles.moves(ev):
            k = model.step_index(a, b)
            near, pit = ref.best(*a)
            wt, dead = ref.weights(*a)
            m = len(near)
            if m < 2 or not dead:
                # ties between computed weights depend on rounding; the dead-end ties (equal depth) do not
                continue
            pr = 1.0 / m
            for tag, q in (("first", near[0]), ("last", near[-1]), ("middle", near[m // 2])):
                pooling.add(st.pool, "ties|" + tag, (1.0 if k == q else 0.0) - pr, pr * (1 - pr))
                pooling.add(st.pool, "ties|%s|%d" % (tag, m), (1.0 if k == q else 0.0) - pr, pr * (1 - pr))
            c = (near.index(k) - (m - 1) / 2) / (((m * m - 1) / 12) ** 0.5)
            if prev is not None:
                pooling.add(st.pool, "ties|independence", c * prev, 1.0)
            prev = c

    def pooled(self, pool, prior):
        return pooling.judge(pool, prior)


CHECK = C()
