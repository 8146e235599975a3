"""C03: law of the next cell."""
import math

import model
import oracles
import pooling
import rng
from props.common import SessionCheck, Session, Violation, gen_ops, log_event


def scores(ref, cell, probs):
    """Score functions of the choice k, each as a list over k."""
    w = probs
    pmax = max(w)
    pos = [x for x in w if x > 0]
    pmin = min(pos)
    i, j = cell
    out = {}
    for k in (0, 1, 2, 3, 5, 6, 7, 8):
        if 0 < w[k] < 1:
            out["dir%d" % k] = [1.0 if q == k else 0.0 for q in range(9)]
    if len(pos) > 1:
        out["likeliest"] = [1.0 if x == pmax else 0.0 for x in w]
        out["unlikeliest"] = [1.0 if x == pmin else 0.0 for x in w]
        out["diagonal"] = [1.0 if q in (0, 2, 6, 8) else 0.0 for q in range(9)]
        d = [float(ref.depth[i + a, j + b]) for a, b in model.NBR]
        m = max(d) or 1.0
        out["depth"] = [x / m for x in d]
        q = [max(0.0, ref.qr[i, j] * u[0] + ref.qc[i, j] * u[1]) for u in model.UNIT]
        m = max(q)
        if m > 0:
            out["discharge"] = [x / m for x in q]
        s = [max(0.0, (ref.stage[i, j] - ref.stage[i + a, j + b]) / model.DIST[k]) if
             ref.stage[i + a, j + b] == ref.stage[i + a, j + b] and ref.stage[i, j] == ref.stage[i, j] else 0.0
             for k, (a, b) in enumerate(model.NBR)]
        m = max(s)
        if m > 0:
            out["slope"] = [x / m for x in s]
        out["prob"] = list(w)
    return out


def moments(p, s):
    m = sum(a * b for a, b in zip(p, s))
    v = sum(a * (b - m) ** 2 for a, b in zip(p, s))
    return m, v


def midrank(p):
    """Centred, standardised mid-cdf score of each k (for independence tests)."""
    acc, mid = 0.0, []
    for x in p:
        mid.append(acc + x / 2)
        acc += x
    m, v = moments(p, mid)
    return [(x - m) / math.sqrt(v) for x in mid] if v > 1e-6 else None


class Law:
    def __init__(self, st, uniform):
        self.st, self.uniform = st, uniform
        self.suspects = []
        self.prev = {}

    def __call__(self, sess, ev):
        ref, st = ev.ref, self.st
        if ev.op["op"] == "restart":
            self.prev = {}
        if ev.interrupted:
            return
        groups_world = ["bed=" + sess.w["bed"], "frame=%s,%s" % (sess.w["model"] == "DeltaRCM", sess.w["inp"]),
                        "gamma=%s" % sess.w["gamma"], "theta=%s" % sess.w["theta"]]
        neighbour = None
        for p, j, a, b, _, _ in oracles.moves(ev):
            k = model.step_index(a, b)
            if k is None:
                raise Violation("not-a-d8-step", particle=p, step=(a, b))
            probs, dead = ref.probs(*a)
            if probs is None or probs[k] <= 0:
                raise Violation("zero-weight-cell-chosen", particle=p, point=j, step=(a, b), dead_end=dead,
                                probabilities=probs, op=ev.op)
            st.state("c03", a, k, ev.op["op"], dead)
            if not self.uniform:
                continue
            if ev.op["op"] == "target" and probs[4] > 0:
                continue
            if probs[4] > 0:
                # a dead end from which staying is possible: stays are not recorded, condition on moving
                t = 1 - probs[4]
                if t <= 0:
                    continue
                probs = [0.0 if q == 4 else x / t for q, x in enumerate(probs)]
            if max(probs) > 1 - 1e-9:
                continue
            st.add("probe.law-sample")
            sc = scores(ref, a, probs)
            groups = ["mode=" + ev.op["op"], "particle=%d" % min(p, 2), "age=%s" % (j == 1),
                      "dead=%s" % dead, "regime=%s" % (ev.regime > 0)] + groups_world
            for name, s in sc.items():
                m, v = moments(probs, s)
                if v <= 0:
                    continue
                pooling.add(st.pool, "law|all|" + name, s[k] - m, v)
                for g in groups:
                    pooling.add(st.pool, "law|" + g + "|" + name, s[k] - m, v)
            c = midrank(probs)
            if c is not None:
                if p in self.prev:
                    pooling.add(st.pool, "independence|own-path", self.prev[p] * c[k], 1.0)
                self.prev[p] = c[k]
                if neighbour is not None and neighbour[0] == p - 1 and ev.op["op"] == "step":
                    pooling.add(st.pool, "independence|other-particles", neighbour[1] * c[k], 1.0)
                neighbour = (p, c[k])
            else:
                self.prev.pop(p, None)
        # share of stays at dead ends that include the particle's own cell
        if self.uniform and ev.op["op"] == "step" and ev.after is not None:
            for p, a0 in enumerate(ev.app):
                if a0 == 0:
                    continue
                c = (ev.after["xinds"][p][a0 - 1], ev.after["yinds"][p][a0 - 1])
                if not ref.movable(*c) or ref.on_ring(*c):
                    continue
                probs, dead = ref.probs(*c)
                if 0 < probs[4] < 1:
                    stay = 1.0 if len(ev.after["xinds"][p]) == a0 else 0.0
                    pooling.add(st.pool, "law|dead-end-stay", stay - probs[4], probs[4] * (1 - probs[4]))
        # same draws through the reference: a difference is no violation, but worth a closer look there
        if ev.op["op"] == "step" and ev.stream.log is None and len(self.suspects) < 2 and self.uniform:
            u = rng.Stream(ev.stream.key)
            for p, a0 in enumerate(ev.app):
                if a0 == 0:
                    continue
                c = (ev.after["xinds"][p][a0 - 1], ev.after["yinds"][p][a0 - 1])
                if c == (0, 0) or sum(ref.weights(*c)[0]) <= 0:
                    continue
                k = ref.pick(c[0], c[1], u.next_double())
                n = (c[0] + model.NBR[k][0], c[1] + model.NBR[k][1])
                if ref.absorbing(*c) or k == 4:
                    n = c
                if (ev.after["xinds"][p][-1], ev.after["yinds"][p][-1]) != n:
                    st.add("probe.draw-coupling-lost")
                    if not ref.on_ring(*c):
                        self.suspects.append((dict(sess.w), ev.regime, c))
                    break
            else:
                st.add("probe.draw-coupling-kept")


def sample(world, regime, cell, n, key):
    """Choices of n fresh particles at `cell`: counts over the 9 directions (4 = no new position)."""
    from dorado import particle_track as pt
    part = pt.Particles(model.make_params(dict(world, verbose=None), regime))
    old = rng.use(rng.Stream(key))
    try:
        part.generate_particles(n, [cell[0]], [cell[1]], method="exact")
        out = part.run_iteration()
    finally:
        rng.use(old)
    cnt = [0] * 9
    for xs, ys in zip(out["xinds"], out["yinds"]):
        k = model.step_index(cell, (xs[-1], ys[-1]))
        if k is None:
            raise Violation("not-a-d8-step", step=(cell, (xs[-1], ys[-1])))
        cnt[k] += 1
    return cnt


def closer_look(st, world, regime, cell, key):
    ref = model.Ref(world, regime)
    if not ref.movable(*cell) or ref.on_ring(*cell):
        return
    probs, _ = ref.probs(*cell)

    def worst(cnt):
        n = sum(cnt)
        z = 0.0
        for k in range(9):
            v = n * probs[k] * (1 - probs[k])
            if v > 0.5:
                z = max(z, abs(cnt[k] - n * probs[k]) / math.sqrt(v))
            elif probs[k] == 0 and cnt[k]:
                raise Violation("zero-weight-cell-chosen", cell=cell, direction=k, probabilities=probs)
        return z
    st.add("probe.closer-look")
    c1 = sample(world, regime, cell, 2500, rng.mix(key, 1))
    if worst(c1) > 3.0:
        st.add("probe.closer-look-escalated")
        c2 = sample(world, regime, cell, 40000, rng.mix(key, 2))
        n = sum(c2)
        for k in range(9):
            v = n * probs[k] * (1 - probs[k])
            if v > 100 and abs(c2[k] - n * probs[k]) > 6 * math.sqrt(v):
                raise Violation("off-the-routing-law", cell=cell, direction=k, observed=c2[k] / n, law=probs[k],
                                samples=n, probabilities=[round(x, 5) for x in probs])


class C(SessionCheck):
    id = "C03"
    quick = 6000
    thorough = 60000
    steep_rate = 0.0
    nops = (3, 8)
    mix = {"step": 6, "target": 2, "restart": 1, "regime": 1.5, "gen": 1}
    extreme_rate = 0.2
    rule = ("random worlds (bed, stage, flow in either axis convention, weighting parameters, cell types) with 1-40 "
            "particles moved by single iterations, target-time runs, restarts and new flow fields under a seeded draw "
            "stream; non-trivial: at least one recorded move was compared with the law")
    states = "distinct (cell, chosen direction, mode, dead-end) tuples reached"

    def tweak(self, r, plan, tier):
        for op in plan["ops"]:
            if op["op"] == "gen":
                op["n"] = r.choice([1, 8, 20, 40])
            if op["op"] == "target":
                op["max"] = 60
        return plan

    def oracles(self, st):
        raise NotImplementedError

    def run(self, plan, st):
        law = Law(st, plan["extreme"] == 0)
        s = Session(plan["world"], plan["key"], st, plan["extreme"], oracles=[log_event, law])
        s.steps_left = 3000
        for op in plan["ops"]:
            if s.steps_left <= 0:
                break
            s.apply(op)
        st.nontrivial = st.c.get("moves", 0) > 0
        for n, (w, t, c) in enumerate(law.suspects[:2]):
            closer_look(st, w, t, c, rng.mix(plan["key"], "look", n))

    def pooled(self, pool, prior):
        return pooling.judge(pool, prior)


CHECK = C()
