"""Oracles over Events (see session.py).  Each demands one property and nothing else."""
import math
import numbers
import re

import model
from session import Violation, BASE, same_value, same_walk, diff_walk

MOVING = ("step", "target")


def moves(ev):
    """(particle, index, old cell, new cell, old time, new time) of every move recorded by this event."""
    if ev.op["op"] not in MOVING or ev.after is None:
        return
    X, Y, T = ev.after["xinds"], ev.after["yinds"], ev.after["travel_times"]
    for p, a in enumerate(ev.app):
        if a == 0:
            continue
        for j in range(a, len(X[p])):
            yield p, j, (X[p][j - 1], Y[p][j - 1]), (X[p][j], Y[p][j]), T[p][j - 1], T[p][j]


def raw_points(sess, ev):
    """Recorded values as dorado holds them (types included)."""
    w = sess.part.walk_data
    if w is None:
        return
    for p, a in enumerate(ev.app or []):
        for j in range(a, len(w["xinds"][p])):
            yield p, j, w["xinds"][p][j], w["yinds"][p][j]


# ------------------------------------------------------------------ C01
def confinement(sess, ev):
    if ev.after is None:
        return
    L, W = ev.ref.L, ev.ref.W
    for p, j, x, y in raw_points(sess, ev):
        if not (isinstance(x, numbers.Integral) and isinstance(y, numbers.Integral)) or isinstance(x, bool):
            raise Violation("not-a-cell", particle=p, point=j, position=(repr(x), repr(y)))
        if not (0 <= x < L and 0 <= y < W):
            raise Violation("off-grid", particle=p, point=j, position=(int(x), int(y)), grid=(L, W),
                            path=list(zip(ev.after["xinds"][p][-6:], ev.after["yinds"][p][-6:])))
    for p, j, a, b, _, _ in moves(ev):
        k = model.step_index(a, b)
        if k is None or k == 4:
            raise Violation("not-a-d8-step", particle=p, point=j, step=(a, b), op=ev.op)
        if ev.ref.on_ring(*a):
            sess.stats.add("probe.move-from-ring")
        if ev.ref.on_ring(*b):
            sess.stats.add("probe.move-to-ring")
        sess.stats.state("c01", ev.op["op"], k, a, b)
    for p, a in enumerate(ev.app):
        if a == 0 and ev.op["op"] == "gen":
            c = (ev.after["xinds"][p][0], ev.after["yinds"][p][0])
            if ev.ref.on_ring(*c):
                sess.stats.add("probe.seed-on-ring")


# ------------------------------------------------------------------ C02
def no_dry_entry(sess, ev):
    ref = ev.ref
    for p, j, a, b, _, _ in moves(ev):
        k = model.step_index(a, b)
        if k is None:
            raise Violation("not-a-d8-step", particle=p, point=j, step=(a, b))
        w, dead = ref.weights(*a)
        dry = ref.depth[b] <= ref.dry or ref.ct[b] == 2
        if dead:
            sess.stats.add("probe.dead-end-move")
            if w[k] <= 0:
                raise Violation("dead-end-not-deepest", particle=p, point=j, step=(a, b), depth_to=float(ref.depth[b]),
                                deepest=float(ref.depth[max(a[0] - 1, 0):a[0] + 2, max(a[1] - 1, 0):a[1] + 2].max()))
            if dry:
                sess.stats.add("probe.dead-end-into-dry")
        elif dry:
            raise Violation("entered-dry-or-land", particle=p, point=j, step=(a, b), depth_to=float(ref.depth[b]),
                            type_to=int(ref.ct[b]), dry_depth=ref.dry, op=ev.op)
        wall = sum(1 for q in range(9) if q != 4 and w[q] == 0)
        sess.stats.state("c02", dead, k, tuple(1 if x > 0 else 0 for x in w))
        if wall:
            sess.stats.add("probe.move-beside-barred-cell")
    # at a dead end whose own cell is the only deepest one, the particle stays
    if ev.op["op"] == "step" and ev.after is not None:
        for p, a0 in enumerate(ev.app):
            if a0 and len(ev.after["xinds"][p]) == a0:
                c = (ev.after["xinds"][p][-1], ev.after["yinds"][p][-1])
                w, dead = ref.weights(*c)
                if dead and w[4] > 0 and sum(w) == 1.0:
                    sess.stats.add("probe.pit-stay")
                if dead and w[4] == 0 and not ev.interrupted and ref.must_move(*c) and not ref.on_ring(*c):
                    raise Violation("stayed-at-dead-end-with-deeper-cells", particle=p, cell=c, weights=w)


# ------------------------------------------------------------------ C05
def absorption(sess, ev):
    if ev.op["op"] not in MOVING or ev.after is None:
        return
    ref = ev.ref
    X, Y = ev.after["xinds"], ev.after["yinds"]
    for p, a in enumerate(ev.app):
        if a == 0:
            continue
        start = (X[p][a - 1], Y[p][a - 1])
        n = len(X[p]) - a
        for j in range(a, len(X[p])):
            c = (X[p][j - 1], Y[p][j - 1])
            if ref.absorbing(*c):
                raise Violation("left-the-edge", particle=p, point=j, step=(c, (X[p][j], Y[p][j])), op=ev.op)
        if ref.absorbing(*start):
            sess.stats.add("probe.absorbed-particle-stepped")
            sess.stats.state("c05a", ev.op["op"], start)
        if ev.op["op"] == "step":
            if n > 1:
                raise Violation("more-than-one-step", particle=p, points=n)
            if not ev.interrupted and n == 0 and ref.must_move(*start) and not ref.on_ring(*start):
                raise Violation("held-back", particle=p, cell=start, others=[len(r) for r in X][:8])
            if n:
                sess.stats.state("c05m", start)
        elif not ev.interrupted and n == 0 and ref.must_move(*start) and not ref.on_ring(*start):
            # target-time: a particle that should take a first step does
            T = ev.extra["T"]
            t = ev.before["travel_times"][p]
            est = (t[-1] - t[-2]) if len(t) > 1 else 0.1
            if abs(t[-1] - T) > abs(t[-1] + est - T) + 1e-9 * (1 + abs(T) + abs(t[-1])) and ev.extra["max"] >= 1:
                raise Violation("held-back", particle=p, cell=start, target=T, time=t[-1])


# ------------------------------------------------------------------ C04
class TimeLaw:
    """Step durations against the travel-time law; pooled spread of the diffusion term."""

    def __init__(self):
        self.e = []            # normalised diffusion draws (dt/base - 1)/dc, claimed uniform on [-.5, .5]
        self.pairs = []

    def __call__(self, sess, ev):
        ref = ev.ref
        if ev.after is None:
            return
        last = None
        for p, j, a, b, t0, t1 in moves(ev):
            k = model.step_index(a, b)
            if k is None or k == 4:
                raise Violation("not-a-d8-step", particle=p, point=j, step=(a, b))
            base = ref.base_time(a[0], a[1], k)
            tol = ref.time_tol(a[0], a[1], k, t1)
            dt = t1 - t0
            info = dict(particle=p, point=j, step=(a, b), dt=dt, law=base, diff_coeff=ref.dc, op=ev.op)
            if not (dt == dt) or math.isinf(dt):
                raise Violation("travel-time-not-finite", **info)
            if ref.dc == 0:
                if abs(dt - base) > tol:
                    raise Violation("travel-time-off-law", **info)
                sess.stats.add("probe.exact-time-step")
            else:
                lo, hi = base * (1 - ref.dc / 2) - tol * 2, base * (1 + ref.dc / 2) + tol * 2
                if not (lo <= dt <= hi):
                    raise Violation("travel-time-outside-spread", **info)
                if base > 0 and tol < 1e-3 * base * ref.dc:
                    e = (dt / base - 1) / ref.dc
                    self.e.append(e)
                    if last is not None:
                        self.pairs.append((last, e))
                    last = e
            if ref.dc <= 2 and dt < -tol:
                raise Violation("time-ran-backwards", **info)
            if base == 0:
                sess.stats.add("probe.instantaneous-step")
            sess.stats.state("c04", k, round(math.log10(base + 1e-12), 1))
        if ev.op["op"] == "gen":
            t = ev.op.get("t")
            t = 0 if t is None else t
            nold = (len(ev.before["xinds"]) if ev.before else 0) + len((ev.op.get("prev") or {}).get("xinds", ()))
            for p in range(nold, len(ev.after["xinds"])):
                if ev.after["travel_times"][p][0] != t:
                    raise Violation("seed-time-wrong", particle=p, time=ev.after["travel_times"][p][0], seed_time=t)


# ------------------------------------------------------------------ C06
def target_rule(sess, ev):
    if ev.op["op"] != "target" or ev.after is None or ev.before is None:
        return
    ref, T, mx = ev.ref, ev.extra["T"], ev.extra["max"]
    X, Y, TT = ev.after["xinds"], ev.after["yinds"], ev.after["travel_times"]
    cut, maybe = set(), set()
    reached_interrupt = ev.interrupted
    for p, a in enumerate(ev.app):
        t = TT[p]
        n = len(t) - a
        est = (t[a - 1] - t[a - 2]) if a > 1 else 0.1

        def wants(j, est):
            """must the particle step from point j: 1 yes, 0 no, None too close to call"""
            l, r = abs(t[j] - T), abs(t[j] + est - T)
            if abs(l - r) <= 1e-9 * (1 + abs(T) + abs(t[j]) + abs(est)):
                return None if l != r else 1
            return 1 if l > r else 0
        info = dict(particle=p, target=T, max_iter=mx, times=t[max(0, a - 2):][:12], steps=n)
        for s in range(n):
            j = a - 1 + s
            c = (X[p][j], Y[p][j])
            if wants(j, est) == 0:
                raise Violation("stepped-past-the-stopping-rule", step=s, estimate=est, **info)
            est = max(0.1, t[j + 1] - t[j])
        if n > mx:
            raise Violation("more-steps-than-max_iter", **info)
        j = len(t) - 1
        c = (X[p][j], Y[p][j])
        go = wants(j, est)
        if n >= mx:
            # cut off, unless the rule (or the edge) would have stopped it there anyway
            if go == 1 and ref.must_move(*c):
                cut.add(p)
            else:
                maybe.add(p)
        elif reached_interrupt:
            pass
        elif go == 1 and ref.must_move(*c) and not ref.on_ring(*c):
            raise Violation("stopped-before-the-target", estimate=est, cell=c, **info)
        sess.stats.state("c06", min(n, 12), go, ref.absorbing(*c), n >= mx, min(mx, 50), min(a, 4), min(p, 6),
                         min(len(ev.app), 9), est < 0.1, t[a - 1] > T if a else None, bool(ev.warns))
        if n:
            sess.stats.add("probe.target-stepped")
        if n >= mx:
            sess.stats.add("probe.cut-at-max_iter")
        if n == 0 and a > 0 and abs(t[-1]) > T:
            sess.stats.add("probe.already-past-target")
    if reached_interrupt:
        return
    named = set()
    seen = [w for w in ev.warns if "iteration limit" in w]
    for w in seen:
        m = re.search(r"\[(.*)\]", w, re.S)
        if m and m.group(1).strip():
            named |= {int(x) for x in m.group(1).split(",")}
    if len(seen) > 1:
        raise Violation("repeated-warning", warnings=seen)
    if getattr(sess.part, "verbose", True) is False:
        if seen:
            raise Violation("warned-while-quiet", warnings=seen)
        return
    if cut - named:
        raise Violation("warning-misses-cut-off-particles", missing=sorted(cut - named), named=sorted(named))
    if named - cut - maybe:
        raise Violation("warning-names-others", named=sorted(named), cut_off=sorted(cut | maybe))


# ------------------------------------------------------------------ C07
def seeding(sess, ev):
    op = ev.op
    if op["op"] == "restart" and ev.before is not None and op.get("cut") is None:
        if len(ev.after["xinds"]) != len(ev.before["xinds"]):
            raise Violation("resume-changed-the-number-of-particles", before=len(ev.before["xinds"]),
                            after=len(ev.after["xinds"]))
        return
    if op["op"] != "gen":
        return
    prev = op.get("prev")
    npv = len(prev["xinds"]) if prev else 0
    old = ev.before if ev.before is not None else {"xinds": [], "yinds": [], "travel_times": []}
    n0 = len(old["xinds"])
    n1 = len(ev.after["xinds"]) if ev.after is not None else 0
    if ev.interrupted:
        sess.stats.add("probe.seeding-interrupted")
        return
    if n1 != npv + n0 + op["n"]:
        raise Violation("wrong-number-of-particles", supplied=npv, present=n0, requested=op["n"], after=n1)
    for k in BASE:
        rows = ev.after[k]
        for p in range(npv):
            if rows[p] != prev[k][p]:
                raise Violation("supplied-history-changed", variable=k, particle=p)
        for p in range(n0):
            if rows[npv + p] != old[k][p]:
                raise Violation("present-particles-changed", variable=k, particle=p)
        for p in range(npv + n0, n1):
            if len(rows[p]) != 1:
                raise Violation("new-particle-not-one-point", variable=k, particle=p, points=rows[p])
    t = op.get("t")
    t = 0 if t is None else t
    new = [(ev.after["xinds"][p][0], ev.after["yinds"][p][0]) for p in range(npv + n0, n1)]
    for p in range(npv + n0, n1):
        if ev.after["travel_times"][p][0] != t:
            raise Violation("seed-time-wrong", particle=p, time=ev.after["travel_times"][p][0], seed_time=t)
    xs, ys = op["xs"], op["ys"]
    if op.get("m") == "exact":
        for i, c in enumerate(new):
            want = (xs[i % len(xs)], ys[i % len(xs)])
            if c != want:
                raise Violation("exact-location-wrong", index=i, got=c, expected=want)
    else:
        for i, (x, y) in enumerate(new):
            if x not in xs or y not in ys:
                raise Violation("random-location-not-listed", index=i, got=(x, y), xs=xs, ys=ys)
    sess.stats.state("c07", op["n"], n0, npv, op.get("m"), len(set(xs)), op.get("nd"))
    if n0:
        sess.stats.add("probe.seed-with-particles-present")
    if npv:
        sess.stats.add("probe.seed-with-supplied-history")


# ------------------------------------------------------------------ C08
def append_only(sess, ev):
    op = ev.op
    if op["op"] == "clear":
        if ev.after is not None:
            raise Violation("clear-left-history")
        return
    if op["op"] == "bad":
        if ev.exc is None:
            return
        sess.stats.add("fault.rejected-call")
        if not same_walk(ev.before, ev.after):
            raise Violation("rejected-call-changed-history", call=op["kind"], first=diff_walk(ev.before, ev.after))
        return
    if op["op"] in MOVING and ev.before is not None:
        if len(ev.after["xinds"]) != len(ev.before["xinds"]):
            raise Violation("moving-changed-the-number-of-particles")
        if set(ev.after) != set(ev.before) and not (set(ev.before) <= set(ev.after)):
            raise Violation("variables-lost", before=sorted(ev.before), after=sorted(ev.after))
        if not ev.interrupted:
            # the returned history is the stored one
            from session import snap
            r = snap(ev.ret)
            if not same_walk(r, ev.after):
                raise Violation("returned-history-differs-from-stored", first=diff_walk(r, ev.after))
        for p, j, a, b, t0, t1 in moves(ev):
            if ev.interrupted:
                k = model.step_index(a, b)
                ok = k is not None and k != 4 and ev.ref.weights(*a)[0][k] > 0 and not ev.ref.absorbing(*a)
                if ok:
                    base = ev.ref.base_time(a[0], a[1], k)
                    tol = 2 * ev.ref.time_tol(a[0], a[1], k, t1)
                    ok = base * (1 - ev.ref.dc / 2) - tol <= t1 - t0 <= base * (1 + ev.ref.dc / 2) + tol
                if not ok:
                    raise Violation("illegal-point-after-interrupt", particle=p, point=j, step=(a, b), dt=t1 - t0)
    if op["op"] == "gen" and ev.interrupted and ev.after is not None:
        n0 = len(ev.before["xinds"]) if ev.before else 0
        if len(ev.after["xinds"]) > n0 + op["n"]:
            raise Violation("interrupted-seeding-added-too-many")
    if op["op"] == "restart" and ev.before is not None:
        want = ev.extra["cut"] if op.get("cut") is not None else ev.before
        for k in BASE:
            if [list(map(float, r)) for r in want[k]] != [list(map(float, r)) for r in ev.after[k]]:
                raise Violation("restart-changed-history", variable=k)
    n = 0 if ev.after is None else len(ev.after["xinds"])
    sess.stats.state("c08", op["op"], ev.interrupted, min(n, 9), tuple(min(9, len(r) - a) for r, a in
                     zip(ev.after["xinds"] if ev.after else [], ev.app or [])))


# ------------------------------------------------------------------ C09
class Tracked:
    def __init__(self):
        self.pad = {}

    def __call__(self, sess, ev):
        if ev.after is None or ev.op["op"] == "clear":
            return
        ref = ev.ref
        tracked = ref.tracked
        for v in tracked:
            if v not in ev.after:
                if (ev.before is None or v not in ev.before) and (
                        ev.interrupted or ev.op["op"] in ("bad", "noop") or ev.op.get("via") == "assign"):
                    continue        # the record of v starts with the next recorded point
                raise Violation("tracked-variable-missing", variable=v, op=ev.op)
        X, Y = ev.after["xinds"], ev.after["yinds"]
        if ev.op["op"] == "restart":
            for v in tracked:
                for p in range(len(X) if v in ev.after else 0):
                    for j in range(len(X[p])):
                        had = ev.before is not None and v in ev.before
                        want = ev.before[v][p][j] if had else None
                        if not same_value(ev.after[v][p][j], want):
                            raise Violation("resumed-values-shifted", variable=v, particle=p, point=j,
                                            got=ev.after[v][p][j], expected=want)
                        if not had:
                            sess.stats.add("probe.padded-point")
            return
        for v in ev.after:
            if v in BASE:
                continue
            if v not in tracked:
                if ev.before is not None and v in ev.before:
                    continue        # recorded earlier, no longer tracked
                raise Violation("untracked-variable-recorded", variable=v)
            for p, a in enumerate(ev.app):
                if len(ev.after[v][p]) != len(X[p]):
                    raise Violation("history-misaligned", variable=v, particle=p, points=len(ev.after[v][p]),
                                    expected=len(X[p]))
                fresh = ev.before is not None and p < len(ev.before["xinds"]) and v not in ev.before
                for j in range(0 if fresh else a, len(X[p])):
                    got = ev.after[v][p][j]
                    if ev.before is not None and p < len(ev.before["xinds"]) and v not in ev.before:
                        if j < len(ev.before["xinds"][p]):
                            if ev.after[v][p][j] is not None:
                                raise Violation("untracked-point-not-marked-missing", variable=v, particle=p,
                                                point=j, got=ev.after[v][p][j])
                            sess.stats.add("probe.padded-point")
                            continue
                    want = ref.track(v, X[p][j], Y[p][j])
                    bad = got is None
                    if not bad:
                        if v == "roi_flag":
                            bad = got != want
                        else:
                            tol = max(ref.rtol, 1e-9) * abs(want) + 1e-12 if want == want else 0
                            bad = (got == got) != (want == want) or (want == want and not abs(got - want) <= tol)
                    if bad:
                        raise Violation("tracked-value-wrong", variable=v, particle=p, point=j,
                                        cell=(X[p][j], Y[p][j]), got=got, field=want, op=ev.op)
                    sess.stats.add("probe.value-checked")
                    sess.stats.state("c09", v, ev.op["op"], ev.regime, round(want, 2) if want == want else "nan")


# ------------------------------------------------------------------ C19
def steepest(sess, ev):
    ref = ev.ref
    if ev.op["op"] not in MOVING or ev.after is None:
        return
    for p, j, a, b, _, _ in moves(ev):
        k = model.step_index(a, b)
        near, pit = ref.best(*a)
        if k not in near:
            raise Violation("not-the-steepest", particle=p, point=j, step=(a, b), chosen=k, best=near,
                            weights=[round(x, 6) for x in ref.weights(*a)[0]], pit=pit)
        sess.stats.add("probe.tie" if len(near) > 1 else "probe.unique-steepest")
        sess.stats.state("c19", k, len(near), a)
    for p, a0 in enumerate(ev.app):
        if a0 == 0 or ev.interrupted:
            continue
        c = (ev.after["xinds"][p][-1], ev.after["yinds"][p][-1])
        if ev.op["op"] == "step" and len(ev.after["xinds"][p]) == a0:
            if ref.must_move(*c) and not ref.on_ring(*c):
                raise Violation("held-back", particle=p, cell=c, weights=ref.weights(*c)[0])
            near, pit = ref.best(*c)
            if pit and not ref.absorbing(*c) and c != (0, 0) and not ref.on_ring(*c):
                sess.stats.add("probe.pit-stay")
