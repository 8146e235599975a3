"""C04: travel-time law."""
import model
import oracles
import pooling
from props.common import SessionCheck


class C(SessionCheck):
    id = "C04"
    quick = 10000
    thorough = 60000
    steep_rate = 0.1
    rule = ("random worlds and operation sequences (seeding at arbitrary seed times, single iterations, target-time "
            "runs, new flow fields, restarts, Ctrl-C at draws); non-trivial: at least one recorded step was compared "
            "with the law")
    states = "distinct (direction, order of magnitude of the step duration) pairs"

    def tweak(self, r, plan, tier):
        if r.random() < 0.3:
            for op in plan["ops"]:
                if op["op"] == "gen":
                    op["n"] = r.choice([10, 25])
        return plan

    def oracles(self, st):
        self.law = oracles.TimeLaw()
        return [self.law, self.spread]

    def spread(self, sess, ev):
        """Pooled moments of the diffusion term; only from plain (non-extreme) draws."""
        if sess.extreme or ev.ref.dc == 0 or ev.interrupted:
            return
        import props.c03 as c03
        st, ref = sess.stats, ev.ref
        prev = None
        last = {}
        for p, j, a, b, t0, t1 in oracles.moves(ev):
            k = model.step_index(a, b)
            base = ref.base_time(a[0], a[1], k)
            tol = ref.time_tol(a[0], a[1], k, t1)
            if base <= 0 or tol > 1e-4 * base * ref.dc:
                prev = None
                last.pop(p, None)
                continue
            e = ((t1 - t0) / base - 1) / ref.dc
            mode = ev.op["op"]
            for g in ("all", mode, "p%d" % min(p, 1), "dc=%s" % sess.w["dc"]):
                pooling.add(st.pool, "spread|%s|mean" % g, e, 1 / 12)
                pooling.add(st.pool, "spread|%s|variance" % g, e * e - 1 / 12, 1 / 180)
                pooling.add(st.pool, "spread|%s|mean-abs" % g, abs(e) - 0.25, 1 / 48)
                q = min(9, max(0, int((e + 0.5) * 10)))
                for h in (0, 4, 9):
                    pooling.add(st.pool, "spread|%s|tenth%d" % (g, h), (1.0 if q == h else 0.0) - 0.1, 0.09)
            if p in last:
                pooling.add(st.pool, "spread|own-previous-step", e * last[p], 1 / 144)
            last[p] = e
            if prev is not None and prev[0] != p:
                pooling.add(st.pool, "spread|previous-particle", e * prev[1], 1 / 144)
            prev = (p, e)
            probs, _ = ref.probs(*a)
            if probs is not None and probs[4] == 0 and not ref.steep:
                c = c03.midrank(probs)
                if c is not None:
                    pooling.add(st.pool, "spread|chosen-direction", e * c[k], 1 / 12)

    def pooled(self, pool, prior):
        return pooling.judge(pool, prior)


CHECK = C()
