"""C21: steady and time plots are that many single iterations."""
import os

import fs
import model
import rng
import routines_sim as R
from props.common import *
from props import mini

FAULTS = [("mkdir", None), ("open", "data.txt"), ("write", "data.txt"), ("close", "data.txt"), ("open", ".png"), ("write", ".png")]


def pos(s):
    return (s.key, s.n, s.doubles)


class C(Check):
    id = "C21"
    quick = 1800
    thorough = 20000
    rule = ("random sequences of seeding calls, single iterations, target-time runs, steady plots (saving or not) and "
            "time plots on one particle object, with disks failing or the user interrupting at a frame, next to a twin "
            "object under the same draws that is moved by single iterations only; histories and positions in the draw "
            "stream compared after every operation; non-trivial: a routine moved particles")
    states = "distinct (routine, iterations, saving, folder, fault, iterations done, operation before) tuples"
    stub = Check.stub + ["Figure.savefig rendering replaced by a fixed small file",
                         "disk faults injected below the real buffered file objects"]

    def gen(self, r, tier):
        w = model.gen_world(r)
        w["steep"] = r.random() < 0.15
        if r.random() < 0.4:
            w["track"] = r.sample(model.TRACKABLE, r.randint(1, 3))
        ops = []
        for j in range(r.choice([2, 2, 3, 4, 5])):
            if j == 0 or r.random() < 0.4:
                ops.append(mini.gen_op(r, w, j == 0))
                continue
            ops.append({"op": r.choice(["steady", "steady", "steady-unsaved", "time"]), "n": r.choice([1, 1, 2, 3, 4, 7]),
                        "folder": r.choice([None, "a", "a", "b/c", "a/"]), "verbose": r.choice([None, None, True, False])})
        if ops[-1]["op"] not in ("steady", "steady-unsaved", "time"):
            ops.append({"op": r.choice(["steady", "steady-unsaved", "time"]), "n": r.choice([1, 2, 3]), "folder": "a",
                        "verbose": None})
        if r.random() < 0.15:
            ops[0]["n"] = r.choice([1, 1, 1, 20])
        for op in ops:
            if op["op"] in ("steady", "time") and r.random() < 0.35:
                if r.random() < 0.4:
                    op["stop"] = r.randrange(op["n"])
                else:
                    o, m = r.choice(FAULTS)
                    op["fault"] = {"op": o, "match": m, "kind": r.choice(["ENOSPC", "EIO", "EACCES"])}
                    if o == "write":
                        op["fault"]["at"] = r.choice([0, 1, r.randrange(300)])
                    if o == "mkdir":
                        op["fault"]["nth"] = r.randrange(3)
        return {"world": w, "key": r.getrandbits(48), "ops": ops}

    def routine(self, op, part, folder, sess_root):
        from dorado import routines
        kw = {}
        if folder is not None:
            kw["folder_name"] = folder
        if op["verbose"] is not None:
            kw["verbose"] = op["verbose"]
        if op["op"] == "time":
            return routines.time_plots(part, op["n"], **kw)
        if op["op"] == "steady-unsaved":
            kw["save_output"] = False
        return routines.steady_plots(part, op["n"], **kw)

    def run(self, plan, st):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.go(plan, st)

    def go(self, plan, st):
        from dorado import particle_track as pt
        w = plan["world"]
        root = fs.fresh("c21")
        home = os.path.join(root, "home")
        os.mkdir(home)
        a, b = pt.Particles(model.make_params(w)), pt.Particles(model.make_params(w))
        sa, sb = (rng.Stream(rng.mix(plan["key"], "twin")) for _ in range(2))
        old = rng.use(sa)
        cwd = os.getcwd()
        os.chdir(home)
        prev = None
        try:
            for j, op in enumerate(plan["ops"]):
                if op["op"] not in ("steady", "steady-unsaved", "time"):
                    for s, part in ((sa, a), (sb, b)):
                        rng.use(s)
                        mini.do(part, op)
                    self.same(a, b, sa, sb, op, j, op["op"])
                    prev = op["op"]
                    st.add("op." + op["op"])
                    continue
                if a.walk_data is None:
                    continue
                prev = self.one(plan, st, op, j, a, b, sa, sb, home, prev)
        finally:
            os.chdir(cwd)
            rng.use(old)

    def one(self, plan, st, op, j, a, b, sa, sb, home, prev):
        stop = op.get("stop")
        seen = [0]

        def hook(fig, name):
            if stop is not None and seen[0] == stop:
                st.add("fault.user-interrupt-at-frame")
                raise KeyboardInterrupt
            seen[0] += 1
        folder = None if op["folder"] is None else os.path.join(home, op["folder"])
        sess = fs.Session(home, [op["fault"]] if op.get("fault") else [])
        rng.use(sa)
        exc = ret = None
        before = sum(len(x) for x in a.walk_data["xinds"])
        with R.stub_figures(True, hook), sess:
            try:
                ret = self.routine(op, a, folder, home)
            except KeyboardInterrupt as e:
                if stop is None:
                    raise
                exc = e
            except Exception as e:
                if not sess.fired:
                    raise
                exc = e
        for o, k in sess.fired:
            st.add("fault.%s-%s" % (o, k))
        st.add("op." + op["op"])
        have = snap(a.walk_data)
        info = dict(routine=op["op"], num_iter=op["n"], op_index=j, fired=sess.fired, error=repr(exc))
        rng.use(sb)
        done = None
        if exc is None:
            for _ in range(op["n"]):
                b.run_iteration()
            done = op["n"]
            if not same_walk(have, snap(b.walk_data)):
                raise Violation("not-that-many-iterations", first=diff_walk(have, snap(b.walk_data)), **info)
            if ret is None or not same_walk(snap(ret), have):
                raise Violation("returned-another-history", first=None if ret is None else diff_walk(snap(ret), have), **info)
            if pos(sa) != pos(sb):
                raise Violation("routine-used-other-draws", **info)
            st.add("probe.compared-with-single-iterations")
        else:
            for k in range(op["n"] + 1):
                if same_walk(have, snap(b.walk_data)) and pos(sa) == pos(sb):
                    done = k
                    break
                if k < op["n"]:
                    b.run_iteration()
            if done is None:
                raise Violation("stopped-between-iterations", **info)
            st.add("probe.stopped-routine-holds-whole-iterations")
        moved = sum(len(x) for x in have["xinds"]) - before
        st.add("moves", moved)
        st.simtime += sum(min(t[-1] - t[0], 1e6) for t in have["travel_times"] if t[-1] >= t[0])
        if moved:
            st.nontrivial = True
        st.state("c21", op["op"], op["n"], op["folder"], str(sess.fired), stop, done, prev)
        st.events.update(repr((have, done, sess.fired)).encode())
        return op["op"]

    def same(self, a, b, sa, sb, op, j, what):
        x, y = snap(a.walk_data), snap(b.walk_data)
        if not same_walk(x, y):
            raise Violation("later-run-differs", operation=what, op_index=j, first=diff_walk(x, y))

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            for k in ("stop", "fault"):
                if op.get(k) is not None:
                    o = {x: v for x, v in op.items() if x != k}
                    yield dict(plan, ops=plan["ops"][:i] + [o] + plan["ops"][i + 1:])
            if op["op"] not in ("gen", "step", "target") and op["n"] > 1:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, n=1)] + plan["ops"][i + 1:])


CHECK = C()
