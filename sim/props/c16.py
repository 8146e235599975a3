"""C16: equal seeds, equal runs; observers change nothing."""
import copy
import io
import json
import logging
import os
import random
import subprocess
import sys
import warnings

import boot
import fs
import model
import rng
import routines_sim
import session
from props.common import *
from props import mini

OBSERVERS = ["get_state", "get_time_state", "exposure_time", "nourishment_area", "nourishment_time", "ind2coord",
             "systemwide", "localized", "plot_state", "plot_exposure_time", "draw_travel_path", "snake_plots",
             "show_nourishment_area", "show_nourishment_time", "get_state-bad", "copy", "level", "logfile"]
CHEAP = 8


def observe(name, part, w, f, folder):
    """One observer on the live particle object; f in [0, 1) varies its arguments."""
    import numpy as np
    from dorado import particle_track as pt, routines, spatial
    import dorado
    walk = part.walk_data
    n = len(walk["xinds"])
    size = (w["L"], w["W"])
    verb = [None, None, True, False][int(f * 1000) % 4]
    kw = {} if verb is None else {"verbose": verb}
    p = int(f * n)
    if name == "get_state":
        return routines.get_state(walk, int(f * 20) - 6, **kw)
    if name == "get_time_state":
        return routines.get_time_state(walk, f * 3 * max(walk["travel_times"][p][-1], 1.0), **kw)
    if name == "exposure_time":
        return pt.exposure_time(walk, model.region(w, "random", int(f * 9)), **kw)
    if name == "nourishment_area":
        return pt.nourishment_area(walk, size, sigma=0.7 if f < 0.5 else 0)
    if name == "nourishment_time":
        return pt.nourishment_time(walk, size, sigma=0.7 if f < 0.5 else 0)
    if name == "ind2coord":
        # (documented to add two fields to the dictionary it is given)
        return pt.ind2coord(dict(walk), (0.0, 0.0), size, w["dx"])
    if name in ("systemwide", "localized"):
        return getattr(spatial, name)(walk, np.zeros(size), model.region(w, "block", int(f * 9)), 2 + int(f * 3))
    if name == "plot_state":
        return routines.plot_state(part.depth, walk, iteration=int(f * 5) - 1,
                                   target_time=None if f < 0.5 else walk["travel_times"][p][-1])
    if name == "plot_exposure_time":
        e = pt.exposure_time(walk, np.ones(size, dtype=int))
        return routines.plot_exposure_time(walk, e, folder_name=folder, nbins=10, save_output=f < 0.5)
    if name == "draw_travel_path":
        return routines.draw_travel_path(part.depth, walk, [p] if f < 0.3 else "all",
                                         output_file=os.path.join(folder, "paths.png"))
    if name == "snake_plots":
        return routines.snake_plots(part.depth, walk, 2, folder_name=folder, interval=1, tail_length=3)
    if name == "show_nourishment_area":
        return routines.show_nourishment_area(pt.nourishment_area(walk, size), part.depth, walk)
    if name == "show_nourishment_time":
        return routines.show_nourishment_time(pt.nourishment_time(walk, size), part.depth, walk)
    if name == "get_state-bad":
        return routines.get_state(walk, "last")
    if name == "copy":
        copy.deepcopy(part)
        json.dumps(walk)
        return None
    if name == "level":
        return dorado.setup_logging(["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "bogus"][int(f * 6)])
    if name == "logfile":
        h = logging.StreamHandler(io.StringIO())
        logging.getLogger("dorado").handlers[:] = []
        return dorado.setup_logging("DEBUG", handler=h)
    raise HarnessError(name)


def history(part):
    return None if part is None else snap(part.walk_data)


class C(Check):
    id = "C16"
    quick = 1200
    thorough = 12000
    rule = ("each run made twice from one seed of the generator (numpy's own Mersenne twister or the simulated one): "
            "plainly, and with other clock, entropy, hash seed or process history, observers and logging between (and "
            "interrupted within) operations, results saved or not, in other folders; histories and the generator's "
            "position compared after every operation; non-trivial: the runs moved and differed in their surroundings")
    states = "distinct (observer, operation before, operation after) triples and surroundings"
    stub = Check.stub + ["figure rendering (files of fixed content written instead)"]

    def gen(self, r, tier):
        w = model.gen_world(r)
        w["steep"] = r.random() < 0.15
        w["nan"] = 0.0
        if r.random() < 0.4:
            w["track"] = r.sample(model.TRACKABLE, r.randint(1, 3))
        kind = r.choice(["api"] * 6 + ["routine"] * 3)
        plan = {"world": w, "kind": kind, "seed": r.getrandbits(32), "real": r.random() < 0.4,
                "entropy": [r.getrandbits(40), r.getrandbits(40)],
                "clock": [r.choice([0.0, 1e9, 1.7e9, 4e9]), r.choice([1e-6, 1e-3, 10.0, 86400.0])],
                "jumps": r.random() < 0.3, "pyseed": r.getrandbits(30),
                "before": r.choice([None, None, "other", "same", "failed"]),
                "fresh": r.random() < 0.012}
        if kind == "api":
            m = r.randint(3, 10)
            plan["ops"] = [mini.gen_op(r, w, j == 0) for j in range(m)]
            names = OBSERVERS[:CHEAP] + OBSERVERS[-4:] if r.random() < 0.75 else OBSERVERS
            for op in plan["ops"]:
                obs = []
                for _ in range(r.choice([0, 1, 1, 2])):
                    o = [r.choice(names), r.random()]
                    if r.random() < 0.06:
                        o.append(int(2 ** r.uniform(0, 9)))
                    obs.append(o)
                op["obs"] = obs
        else:
            op = gen_seed_op(r, w, 4)
            op.pop("nd", None)
            plan["op"] = op
            plan["routine"] = r.choice(["steady", "steady", "time", "unsteady"])
            plan["n"] = r.choice([1, 2, 3, 5])
            plan["folders"] = r.sample(["a", "b c", "deep/er/x", "\u00e9t\u00e9"], 2)
            plan["existing"] = r.choice([None, None, None, "empty", "results", "results"])
            plan["noisy"] = r.random() < 0.5
            if plan["routine"] == "unsteady":
                w.update(routines_sim.UNSTEADY_WORLD)
        w["verb2"] = r.choice([None, None, True, False])
        return plan

    # -- surroundings
    def surround(self, plan, second):
        boot.CLOCK.reset(*(plan["clock"] if second else (1.6e9, 1e-4)))
        rng.set_entropy(plan["entropy"][1 if second else 0])
        random.seed(plan["pyseed"] if second else 0)
        if plan["real"]:
            rng.use_real_mt(0)
        else:
            rng.use_sim()
            rng.use(rng.Stream(plan["entropy"][1 if second else 0]))
        if second and plan["before"]:
            self.earlier(plan)

    def earlier(self, plan):
        """What the process did before."""
        from dorado import particle_track as pt
        w = dict(plan["world"])
        if plan["before"] == "other":
            w.update(seed=w["seed"] ^ 5, theta=0.5, steep=False, track=["depth"])
        p = pt.Particles(model.make_params(w))
        try:
            p.generate_particles(3, [1, 2], [1, 2])
            for _ in range(3):
                p.run_iteration()
            if plan["before"] == "failed":
                p.generate_particles("x", [1], [1])
        except (TypeError, ValueError):
            pass

    def position(self):
        import numpy as np
        st = np.random.get_state(legacy=False)
        if st["bit_generator"] == "SimBits":
            return repr(st)
        return repr((st["state"]["pos"], st["state"]["key"].tobytes(), st.get("has_gauss")))

    def run(self, plan, st):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if plan["kind"] == "api":
                self.api(plan, st)
            else:
                self.routine(plan, st)

    # -- direct use of the API
    def session(self, plan, st, second, folder=None):
        import numpy as np
        from dorado import particle_track as pt
        w = plan["world"]
        self.surround(plan, second)
        v = dict(w, verbose=w.get("verb2")) if second else w
        np.random.seed(plan["seed"])
        part = pt.Particles(model.make_params(v))
        out = []
        prev = None
        for op in plan["ops"]:
            mini.do(part, op)
            out.append((history(part), self.position()))
            if second:
                if plan["jumps"]:
                    boot.CLOCK.now += (-1) ** len(out) * 5000.0
                st.add("op." + op["op"])
                for o in op["obs"]:
                    self.observer(plan, st, part, o, folder, op["op"], prev)
                prev = op["op"]
        return out

    def observer(self, plan, st, part, o, folder, op, prev):
        import numpy as np
        if part.walk_data is None or not part.walk_data["xinds"]:
            return
        if any(x != x or abs(x) > 1e30 for r in part.walk_data["travel_times"] for x in r):
            return
        name, f = o[0], o[1]
        before, pos = history(part), self.position()
        lines = session.LineInterrupt(o[2]) if len(o) > 2 else None
        st.add("op.observe-" + name)
        try:
            if lines is not None:
                sys.settrace(lines)
            with routines_sim.stub_figures():
                observe(name, part, plan["world"], f, folder)
        except KeyboardInterrupt:
            if lines is None or not lines.fired:
                raise
            st.add("fault.observer-interrupted")
        except (ValueError, TypeError, ZeroDivisionError, FloatingPointError, IndexError) as e:
            # an observer may refuse; that is not this property's business
            st.add("probe.observer-refused-" + name)
        finally:
            sys.settrace(None)
            if name == "logfile":
                logging.getLogger("dorado").handlers[:] = [logging.NullHandler()]
        if not same_walk(history(part), before):
            raise Violation("observer-changed-history", observer=name, arg=f, first=diff_walk(before, history(part)))
        if self.position() != pos:
            raise Violation("observer-consumed-draws", observer=name, arg=f)
        st.state("c16", name, op, prev)

    def api(self, plan, st):
        if not plan["ops"] or plan["ops"][0]["op"] != "gen":
            return
        first = self.session(plan, st, False)
        second = self.session(plan, st, True, fs.fresh("c16"))
        self.compare(plan, st, first, second)
        if plan["fresh"]:
            res = fresh({"plan": dict(plan, fresh=False)}, 1 + plan["pyseed"] % 1000)
            self.compare(plan, st, first, [tuple(x) for x in res], where="another process and hash seed")
            st.add("probe.fresh-interpreter")

    def compare(self, plan, st, first, second, where="same process"):
        import hashlib
        for i, (a, b) in enumerate(zip(first, second)):
            if not same_walk(a[0], b[0]):
                raise Violation("equal-seeds-unequal-runs", after_op=i, where=where, first=diff_walk(a[0], b[0]),
                                before=plan["before"])
            if a[1] != b[1]:
                raise Violation("equal-seeds-unequal-draws", after_op=i, where=where, before=plan["before"])
        last = first[-1][0] if first else None
        if last and any(len(r) > 1 for r in last["xinds"]):
            st.nontrivial = True
            st.add("moves", sum(len(r) - 1 for r in last["xinds"]))
        st.state("c16s", plan["before"], plan["real"], plan["kind"], plan["jumps"], plan["world"].get("verb2"))
        st.add("probe.runs-compared")
        st.events.update(json.dumps(last).encode())

    def remote(self, req):
        plan = req["plan"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st = session.Stats()
            return self.session(plan, st, True, fs.fresh("c16"))

    # -- the saving routines
    def routine(self, plan, st):
        import dorado
        out = []
        w = plan["world"]
        root = fs.fresh("c16")
        with routines_sim.stub_figures():
            src = None
            if plan["routine"] == "unsteady":
                src = os.path.join(root, "in")
                routines_sim.write_outputs(w, src, plan["n"], "npy")
            variants = [("plain", plan["folders"][0]), ("other", plan["folders"][1])]
            if plan["routine"] == "steady":
                variants.append(("unsaved", None))
            if plan["routine"] != "unsteady":
                variants.append(("cwd", None))
            for i, (how, sub) in enumerate(variants):
                self.surround(plan, i > 0)
                folder = None if sub is None else os.path.join(root, sub)
                if i and plan["existing"] and how != "unsaved":
                    self.leftovers(folder or os.path.join(root, "cwd"), plan)
                if i and plan["noisy"]:
                    dorado.setup_logging("DEBUG")
                out.append((how, self.one_routine(plan, how, folder, src, root)))
                st.add("op.%s_plots" % plan["routine"])
                st.state("c16r", plan["routine"], how, plan["existing"])
        for how, b in out[1:]:
            self.compare(plan, st, [out[0][1]], [b], where="results " + how)

    def leftovers(self, folder, plan):
        """An output folder that was used before."""
        os.makedirs(folder, exist_ok=True)
        if plan["existing"] != "results":
            return
        for sub in ("data", "figs"):
            os.makedirs(os.path.join(folder, sub), exist_ok=True)
        n = plan["pyseed"] % 4
        old = {"xinds": [[1, 2, 2]] * n, "yinds": [[2, 2, 3]] * n, "travel_times": [[0, 1.5, 3.0]] * n}
        text = ["", "{", json.dumps(old), json.dumps(old) + "\n"][plan["pyseed"] // 4 % 4]
        with open(os.path.join(folder, "data", "data.txt"), "w") as f:
            f.write(text)
        for i in range(n + 1):
            with open(os.path.join(folder, "figs", "output%d.png" % i), "wb") as f:
                f.write(b"old")

    def one_routine(self, plan, how, folder, src, root):
        import numpy as np
        from dorado import particle_track as pt, routines
        w, op = plan["world"], plan["op"]
        np.random.seed(plan["seed"])
        kw = {} if folder is None else {"folder_name": folder}
        if how != "plain" and w.get("verb2") is not None:
            kw["verbose"] = w["verb2"]
        old = os.getcwd()
        cwd = os.path.join(root, "cwd")
        if how == "cwd":
            os.makedirs(cwd, exist_ok=True)
            os.chdir(cwd)
        try:
            if plan["routine"] == "unsteady":
                res = routines.unsteady_plots(w["dx"], op["n"], op["xs"], op["ys"], plan["n"], 5.0 * w["dx"], src, "npy", **kw)
            else:
                part = pt.Particles(model.make_params(w))
                gkw = {k2: op[k] for k, k2 in (("m", "method"), ("t", "seed_time")) if op.get(k) is not None}
                part.generate_particles(op["n"], op["xs"], op["ys"], **gkw)
                if plan["routine"] == "steady":
                    res = routines.steady_plots(part, plan["n"], save_output=how != "unsaved", **kw)
                    if how == "unsaved":
                        res = part.walk_data
                else:
                    res = routines.time_plots(part, plan["n"], **kw)
        finally:
            os.chdir(old)
        return (snap(res), self.position())

    def simplify(self, plan):
        for k, v in (("before", None), ("fresh", False), ("jumps", False), ("real", False)):
            if plan[k] != v:
                yield dict(plan, **{k: v})


def fresh(req, hashseed):
    """The same session in a new interpreter with another hash seed and environment."""
    env = {k: v for k, v in os.environ.items() if k != "VERIF_BOOTED"}
    env.update(VERIF_HASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-B", os.path.join(boot.VERIF, "sim", "run.py"), "C16", "--remote"],
                       input=json.dumps(req).encode(), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Violation("unexpected-exception", where="fresh interpreter", error=p.stderr.decode()[-1500:])
    return json.loads(p.stdout.decode().splitlines()[-1])


CHECK = C()
