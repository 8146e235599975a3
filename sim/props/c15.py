"""C15: simulations sharing inputs, or running at the same time, do not affect each other."""
import copy
import hashlib
import json
import threading
import warnings

import model
import rng
import threads
from props.common import *
from props import mini


def contents(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    return repr(x)


class Inputs:
    """The objects the sessions share, and what they held at first."""

    def __init__(self, worlds, regime, how, base=None):
        from dorado import particle_track as pt
        self.params = []
        for i, w in enumerate(worlds):
            if how == "object" and i and w == worlds[0]:
                self.params.append(self.params[0])
            elif how == "arrays" and i and w["seed"] == worlds[0]["seed"] and same_arrays(w, worlds[0]):
                a = {k: getattr(self.params[0], k) for k in model.build(worlds[0], regime)}
                self.params.append(model.make_params(w, regime, a))
            else:
                self.params.append(model.make_params(w, regime))

    def given(self, others):
        import numpy as np
        out = {}
        for i, p in enumerate(self.params):
            for k, v in vars(p).items():
                if isinstance(v, (list, np.ndarray)):      # (defaults may be filled in)
                    out["params%d.%s" % (i, k)] = contents(v)
        for k, v in others.items():
            out[k] = contents(v)
        return out


def same_arrays(a, b):
    keys = ("L", "W", "seed", "bed", "flow", "stage", "dir", "speed", "dry", "dtype", "nan", "give", "inp", "model",
            "ct", "roi", "dx")
    return all(a[k] == b[k] for k in keys)


class C(Check):
    id = "C15"
    quick = 3500
    thorough = 25000
    rule = ("two to four sessions over the same parameter object, arrays, seed lists and checkpoint (or over different "
            "ones), interleaved operation by operation or, in threads, at seeded single lines of the package, some "
            "threads dying at a line; every history compared with the same session alone; non-trivial: at least two "
            "sessions moved and the schedule switched between them")
    states = "distinct switch sequences (thread, line) or operation interleavings"
    real = Check.real + ["Python threads (all of them real, one at a time)"]
    stub = ["thread scheduler (line-level baton)"] + Check.stub

    def gen(self, r, tier):
        w = model.gen_world(r)
        w["steep"] = r.random() < 0.15
        if r.random() < 0.4:
            w["track"] = r.sample(model.TRACKABLE, r.randint(1, 3))
        n = r.choice([2, 2, 2, 3, 3, 4])
        share = r.choice(["object", "object", "arrays", "none"])
        worlds = []
        for i in range(n):
            v = dict(w)
            if i and share == "arrays":
                v["theta"] = r.choice([None, 0.0, 1.0, 2.0])
                v["gamma"] = r.choice([None, 0.0, 0.3, 1.0])
                v["dc"] = r.choice([None, 0.0, 0.5, 1.5])
                v["steep"] = r.random() < 0.3
                v["track"] = r.sample(model.TRACKABLE, r.randint(0, 3))
            elif i and share == "none":
                v = model.gen_world(r)
                if r.random() < 0.6:
                    v["L"], v["W"] = w["L"], w["W"]
                v["track"] = r.sample(model.TRACKABLE, r.randint(0, 2))
            worlds.append(v)
        start = r.choice(["seed", "seed", "checkpoint", "branch"])
        if start != "seed":
            for v in worlds:
                v["L"], v["W"] = w["L"], w["W"]
        plan = {"worlds": worlds, "share": share, "key": r.getrandbits(48), "mode": r.choice(["ops", "threads"]),
                "start": start, "lists": r.random() < 0.6,
                "solo_first": r.random() < 0.5}
        if plan["start"] == "checkpoint":
            plan["pre"] = [mini.gen_op(r, w, i == 0) for i in range(r.randint(1, 5))]
        m = r.randint(3, 9) if tier == "quick" else r.randint(3, 20)
        for i in range(n):
            plan["s%d" % i] = [mini.gen_op(r, worlds[i], j == 0) for j in range(m)]
        if plan["start"] == "branch":
            plan["mode"] = "ops"
            plan["at"] = [r.randint(1, m) for _ in range(n - 1)]
        if plan["mode"] == "ops":
            order = [i for i in range(n) for _ in range(m + 1)]
            r.shuffle(order)
            plan["order"] = order
        else:
            p = r.choice([3, 10, 40, 200, 1000])
            plan["sched"] = [[r.randrange(n), 1 + int(r.expovariate(1.0 / p))] for _ in range(r.choice([20, 100, 400]))]
            if r.random() < 0.3:
                plan["abort"] = {str(r.randrange(n)): int(2 ** r.uniform(0, 12))}
            plan["build"] = r.choice(["before", "inside"])
        return plan

    # one session, alone: its own copies of everything
    def solo(self, plan, i, prev, st):
        from dorado import particle_track as pt
        w = plan["worlds"][i]
        part = pt.Particles(model.make_params(w))
        hist = []
        for j, op in enumerate(plan["s%d" % i]):
            rng.use(rng.Stream(rng.mix(plan["key"], i, j)))
            op = copy.deepcopy(op)
            mini.do(part, op, prev=copy.deepcopy(prev) if j == 0 else None)
            hist.append(snap(part.walk_data))
        return hist

    def run(self, plan, st):
        from dorado import particle_track as pt
        worlds = plan["worlds"]
        n = len(worlds)
        if any(not plan["s%d" % i] or plan["s%d" % i][0]["op"] != "gen" for i in range(n)):
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            inp = Inputs(worlds, 0, plan["share"])
            check = None
            if plan["start"] == "checkpoint":
                p = pt.Particles(model.make_params(worlds[0]))
                for j, op in enumerate(plan["pre"]):
                    rng.use(rng.Stream(rng.mix(plan["key"], "pre", j)))
                    mini.do(p, op)
                check = p.walk_data
            prevs = [check] * n
            others = {}
            if check is not None:
                others["previous_walk_data"] = check
            lists = [(op["xs"], op["ys"]) for op in (plan["s%d" % i][0] for i in range(n))]
            if plan["lists"]:
                lists = [lists[0] if worlds[i]["L"] >= worlds[0]["L"] and worlds[i]["W"] >= worlds[0]["W"] else lists[i]
                         for i in range(n)]
                for i in range(n):
                    plan = dict(plan)
                    plan["s%d" % i] = [dict(plan["s%d" % i][0], xs=list(lists[i][0]), ys=list(lists[i][1]))] + \
                        plan["s%d" % i][1:]
            lists = [lists[i] if plan["lists"] and lists[i] is lists[0] else (list(lists[i][0]), list(lists[i][1]))
                     for i in range(n)]
            for i in range(n):
                others["seeds%d" % i] = lists[i]
            given = inp.given(others)
            want = [None] * n
            if plan["solo_first"] and plan["start"] != "branch":
                want = [self.solo(plan, i, prevs[i], st) for i in range(n)]
            hist = [[] for _ in range(n)]
            if plan["mode"] == "ops":
                gone = self.by_operation(plan, st, inp, lists, prevs, hist)
            else:
                gone = self.by_line(plan, st, inp, lists, prevs, hist)
            now = inp.given(others)
            bad = sorted(k for k in given if now.get(k) != given[k])
            if bad:
                raise Violation("shared-input-changed", what=bad)
            for i in reversed(range(n)):
                if want[i] is None:
                    want[i] = self.solo(plan, i, prevs[i], st)
            moved = 0
            for i in range(n):
                for j, h in enumerate(hist[i]):
                    if not same_walk(h, want[i][j]):
                        raise Violation("depends-on-other-simulation", session=i, operation=j, sessions=n,
                                        mode=plan["mode"], first=diff_walk(h, want[i][j]))
                if not gone[i] and len(hist[i]) != len(want[i]):
                    raise HarnessError("session %d stopped early" % i)
                if hist[i] and hist[i][-1] and any(len(r) > 1 for r in hist[i][-1]["xinds"]):
                    moved += 1
                    st.add("moves", sum(len(r) - 1 for r in hist[i][-1]["xinds"]))
            st.events.update(json.dumps(hist).encode())
            if moved >= 2:
                st.nontrivial = True
            st.add("probe.start-" + plan["start"])
            st.add("probe.share-" + plan["share"])

    def by_operation(self, plan, st, inp, lists, prevs, hist):
        from dorado import particle_track as pt
        n = len(plan["worlds"])
        parts, i_op = [None] * n, [0] * n
        order = list(plan["order"])
        # a branch starts when the session it branches from has made its first `at` operations
        while any(i_op[i] < len(plan["s%d" % i]) for i in range(n)):
            i = order.pop(0) % n if order else next(i for i in range(n) if i_op[i] < len(plan["s%d" % i]))
            ops = plan["s%d" % i]
            if i_op[i] >= len(ops):
                continue
            if plan["start"] == "branch" and i and parts[i] is None and \
                    i_op[0] < min(plan["at"][i - 1], len(plan["s0"])):
                if all(i_op[k] >= len(plan["s%d" % k]) or k == i or parts[k] is None for k in range(n)) or not order:
                    i, ops = 0, plan["s0"]
                else:
                    continue
            if parts[i] is None:
                parts[i] = pt.Particles(inp.params[i])
                st.state("c15", i, tuple(i_op))
            j = i_op[i]
            prev = None
            if j == 0:
                prev = prevs[i]
                if plan["start"] == "branch" and i:
                    prev = parts[0].walk_data          # the living history of another session
                    prevs[i] = copy.deepcopy(prev)
            rng.use(rng.Stream(rng.mix(plan["key"], i, j)))
            if j == 0:
                mini.do(parts[i], ops[j], lists[i][0], lists[i][1], prev)
            else:
                mini.do(parts[i], ops[j])
            hist[i].append(snap(parts[i].walk_data))
            i_op[i] += 1
            st.add("op." + ops[j]["op"])
            st.state("c15", tuple(i_op), plan["share"], plan["start"])
        return [False] * n

    def by_line(self, plan, st, inp, lists, prevs, hist):
        from dorado import particle_track as pt
        n = len(plan["worlds"])
        parts = [None] * n
        if plan["build"] == "before":
            parts = [pt.Particles(inp.params[i]) for i in range(n)]

        def session(i):
            def body():
                ident = threading.get_ident()
                if parts[i] is None:
                    parts[i] = pt.Particles(inp.params[i])
                for j, op in enumerate(plan["s%d" % i]):
                    rng.use_thread(ident, rng.Stream(rng.mix(plan["key"], i, j)))
                    if j == 0:
                        mini.do(parts[i], op, lists[i][0], lists[i][1], prevs[i])
                    else:
                        mini.do(parts[i], op)
                    if b.aborted[i]:
                        return              # its end was swallowed on the way up: nothing more is claimed
                    hist[i].append(snap(parts[i].walk_data))
                    st.add("op." + op["op"])
            return body
        b = threads.Baton([session(i) for i in range(n)], plan["sched"],
                          aborts={int(k) % n: v for k, v in (plan.get("abort") or {}).items()})
        b.run()
        for i in range(n):
            if b.aborted[i]:
                st.add("fault.thread-died-at-line")
            elif b.errors[i] is not None:
                raise b.errors[i]
        st.add("probe.thread-switches", len(b.switches))
        st.add("probe.lines-interleaved", sum(b.lines))
        st.states.add(rng.mix(hashlib.sha256(repr(b.switches).encode()).hexdigest()))
        st.events.update(repr(b.switches).encode())
        return b.aborted

    def simplify(self, plan):
        n = len(plan["worlds"])
        if n > 2:
            q = dict(plan, worlds=plan["worlds"][:-1])
            q["at"] = plan.get("at", [])[:n - 2]
            yield q
        for k, v in (("start", "seed"), ("mode", "ops"), ("lists", False), ("share", "object")):
            if plan[k] != v:
                q = dict(plan, **{k: v})
                if k == "mode":
                    q["order"] = []
                yield q


CHECK = C()
