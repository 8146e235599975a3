"""C24: messages reach every handler once, at the level last set."""
import hashlib
import io
import json
import logging
import os
import sys
import threading
import warnings

import fs
import model
import procs
import rng
import routines_sim as R
import threads
from props import mini
from props.common import *

LEVELS = ["DEBUG", "INFO", "INFO", "WARNING", "ERROR", "CRITICAL"]
REJECT = ["LOUD", "INVALID", "", "DEBUGGING", "handler", 10, None, "INFO "]


def gen_query(r):
    k = r.choice(["state", "time_state", "exposure", "build", "build", "steady"])
    op = {"op": k, "verbose": r.choice([None, None, True, False])}
    if k == "state":
        op["k"] = r.choice([-1, 0, 2, 50])
    elif k == "time_state":
        op["T"] = r.choice([0.0, 1e-3, 1e9])
    elif k == "exposure":
        op["region"] = r.choice(["block", "random", "all"])
    elif k == "steady":
        op.update(op=r.choice(["steady", "time"]), n=r.choice([1, 2]), folder=r.choice(["a", "a", "b"]))
    return op


class Capture(logging.Handler):
    def __init__(self, out=None):
        super().__init__()
        self.out = [] if out is None else out

    def emit(self, record):
        self.out.append((record.levelno, record.getMessage()))


class Sink:
    """One handler of the user's and what came out of it."""

    def __init__(self, kind, path):
        self.kind, self.path, self.mark = kind, path, 0
        self.buf = io.StringIO()
        if kind == "list":
            self.h = Capture()
        elif kind in ("file", "full-file"):
            self.h = logging.FileHandler(path)
        else:
            self.h = logging.StreamHandler(self.buf)
        if kind == "closed":
            self.buf.close()
        self.sick = kind in ("closed", "full-file")

    def text(self):
        if self.kind == "file":
            return fs._open(self.path, encoding="utf-8").read()
        return self.buf.getvalue()

    def take(self, known):
        """Messages that arrived since the last call."""
        if self.kind == "list":
            got = [m for _, m in self.h.out[self.mark:]]
            self.mark = len(self.h.out)
            return got
        t = self.text()
        new, self.mark = t[self.mark:], len(t)
        return parse(new, known)


def parse(text, known):
    """The known messages in a text, in order (a message may have several lines)."""
    out = []
    known = sorted(known, key=len, reverse=True)
    i = 0
    while i < len(text):
        end = text.find("\n", i)
        end = len(text) if end < 0 else end
        hit = None
        for m in known:
            first = m.split("\n", 1)[0]
            if text[i:end].endswith(first):
                j = end - len(first)
                if text.startswith(m, j) and text[j + len(m):j + len(m) + 1] in ("\n", ""):
                    hit = (m, j + len(m) + 1)
                    break
        if hit:
            out.append(hit[0])
            i = hit[1]
        else:
            i = end + 1
    return out


class C(Check):
    id = "C24"
    quick = 1400
    thorough = 16000
    cpu_limit = 60.0
    rule = ("seeded sequences of setup_logging, deprecated verbose arguments, rejected levels, simulation steps, queries and "
            "saving routines over several handlers (lists, streams, files, closed streams, files on a full disk), and "
            "the same from two or three threads switched at single lines; every message of the same session under "
            "plain logging is the reference; non-trivial: a message was due at a handler or withheld by the level")
    states = "distinct (sequence of settings, messages per handler) tuples"
    real = Check.real + ["logging, its handlers and streams", "Python threads (one at a time)"]
    stub = ["thread scheduler (line-level baton), locks of the package"] + Check.stub + \
        ["Figure.savefig rendering replaced by a fixed small file"]

    def gen(self, r, tier):
        w = model.gen_world(r)
        w["verbose"] = None
        if r.random() < 0.3:
            w["track"] = r.sample(model.TRACKABLE, r.randint(1, 2))
        plan = {"world": w, "key": r.getrandbits(48), "root": r.random() < 0.3}
        hs = {}
        for i in range(r.choice([1, 2, 2, 3])):
            hs["h%d" % i] = r.choice(["list", "stream", "file", "list", "stream", "file", "closed", "full-file"])
        plan["handlers"] = hs
        plan["faults"] = [{"op": "write", "kind": r.choice(["ENOSPC", "EIO"]), "match": "full-", "sticky": True,
                           "nth": r.randrange(3)}]

        def setting():
            x = r.random()
            if x < 0.2:
                return {"op": "reject", "level": r.choice(REJECT), "h": r.choice([None, r.choice(sorted(hs))])}
            lv = r.choice(LEVELS)
            if r.random() < 0.15:
                lv = lv.lower()
            return {"op": "setup", "level": lv if r.random() < 0.93 else None,
                    "h": r.choice([None, r.choice(sorted(hs)), r.choice(sorted(hs))])}
        ops = [dict(mini.gen_op(r, w, True))]
        for _ in range(r.randint(4, 12)):
            x = r.random()
            ops.append(setting() if x < 0.4 else gen_query(r) if x < 0.85 else mini.gen_op(r, w))
        plan["ops"] = ops
        plan["threads"] = None
        if r.random() < 0.45:
            n = r.choice([2, 2, 3])
            level = r.choice(["INFO", "INFO", "DEBUG", "ERROR"])
            per = []
            for i in range(n):
                t = [r.choice([{"op": "setup", "level": level, "h": None},
                               {"op": "setup", "level": level, "h": r.choice(sorted(hs))},
                               {"op": "build", "verbose": level != "ERROR"} if level != "DEBUG" else
                               {"op": "setup", "level": level, "h": None}])]
                for _ in range(r.choice([0, 1, 2])):
                    q = gen_query(r)
                    q["verbose"] = None
                    if q["op"] in ("steady", "time"):
                        q = {"op": "build", "verbose": None}
                    t.append(q)
                per.append(t)
            p = r.choice([1, 2, 3, 10, 40])
            plan["threads"] = {"level": level, "per": per, "sched": [
                [r.randrange(n), 1 + int(r.expovariate(1.0 / p))] for _ in range(r.choice([20, 100, 400]))]}
            if r.random() < 0.6:
                plan["ops"] = [o for o in ops if o["op"] not in ("setup", "reject")][:r.choice([1, 3])]
                for o in plan["ops"]:
                    if "verbose" in o:
                        o["verbose"] = None
        return plan

    # ------------------------------------------------------------ one operation
    def do(self, plan, st, box, op, home, verbose=None):
        from dorado import particle_track as pt, routines
        w = plan["world"]
        k = op["op"]
        kw = {} if verbose is None else {"verbose": verbose}
        if k == "build":
            pt.Particles(model.make_params(dict(w, verbose=verbose)))
            return None
        walk = box.walk_data
        if k in ("state", "time_state", "exposure", "steady", "time") and walk is None:
            return None
        if k == "state":
            return routines.get_state(walk, op["k"], **kw)
        if k == "time_state":
            return routines.get_time_state(walk, op["T"], **kw)
        if k == "exposure":
            return pt.exposure_time(walk, model.region(w, op["region"], 3), **kw)
        if k in ("steady", "time"):
            f = routines.steady_plots if k == "steady" else routines.time_plots
            return snap(f(box, op["n"], folder_name=os.path.join(home, op["folder"]), **kw))
        return snap(mini.do(box, op)) if walk is not None or k == "gen" else None

    def particles(self, plan):
        from dorado import particle_track as pt
        return pt.Particles(model.make_params(plan["world"]))

    # ------------------------------------------------------------ the same session under plain logging
    def reference(self, plan, st, home):
        lg = logging.getLogger("dorado")
        cap = Capture()
        level, prop = lg.level, lg.propagate
        lg.addHandler(cap)
        lg.setLevel(1)
        out, per = [], []
        try:
            box = self.particles(plan)
            cap.out.clear()
            for i, op in enumerate(plan["ops"]):
                rng.use(rng.Stream(rng.mix(plan["key"], i)))
                n = len(cap.out)
                ret = None
                if op["op"] not in ("setup", "reject"):
                    ret = self.do(plan, st, box, op, home)
                out.append((cap.out[n:], json.dumps(ret), snap(box.walk_data)))
            if plan["threads"]:
                for i, t in enumerate(plan["threads"]["per"]):
                    msgs = []
                    for j, op in enumerate(t):
                        rng.use(rng.Stream(rng.mix(plan["key"], "t", i, j)))
                        n = len(cap.out)
                        if op["op"] != "setup":
                            self.do(plan, st, box, op, home)
                        msgs.append(cap.out[n:])
                    per.append(msgs)
        finally:
            lg.removeHandler(cap)
            lg.setLevel(level)
            lg.propagate = prop
        return out, per

    def run(self, plan, st):
        base = fs.fresh("c24")

        def child(req):
            from session import Stats
            st2 = Stats()
            st2.events, st2.nontrivial = hashlib.sha256(), False
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.inside(plan, st2, base)
            return {"c": st2.c, "states": sorted(st2.states), "n": st2.nontrivial,
                    "e": st2.events.hexdigest()}
        res = procs.Standby(child, 50).call({})
        for k, v in res["c"].items():
            st.add(k, v)
        st.states.update(res["states"])
        st.nontrivial = st.nontrivial or res["n"]
        st.events.update(res["e"].encode())

    def inside(self, plan, st, base):
        lg = logging.getLogger("dorado")
        lg.handlers[:] = []
        lg.setLevel(logging.NOTSET)
        lg.propagate = False
        homes = [os.path.join(base, x) for x in ("ref", "real")]
        for h in homes:
            os.makedirs(os.path.join(h, "a"))
        # (both sessions save into a folder of the same name)
        home = os.path.join(base, "home")
        logs = os.path.join(base, "logs")
        os.mkdir(logs)
        stderr, sys.stderr = sys.stderr, io.StringIO()
        logging.lastResort = None
        try:
            with R.stub_figures():
                os.rename(homes[0], home)
                ref, per = self.reference(plan, st, home)
                os.rename(home, homes[0])
                os.rename(homes[1], home)
                with fs.Session(logs, plan["faults"]) as sess:
                    self.session(plan, st, home, logs, ref, per, sess)
        finally:
            sys.stderr = stderr

    def session(self, plan, st, home, logs, ref, per, sess):
        import dorado
        known = {m for msgs, _, _ in ref for _, m in msgs} | {m for t in per for ms in t for _, m in ms}
        sinks = {k: Sink(kind, os.path.join(logs, ("full-" if kind == "full-file" else "") + k + ".log"))
                 for k, kind in plan["handlers"].items()}
        err = Sink("stream", None)
        err.buf = sys.stderr
        given = []                      # handlers handed over, in order
        default = "no"                  # is there a default handler on stderr: no, must, may
        levels = [None]                 # levels that may be in force
        box = self.particles(plan)
        err.take(known)
        trail = []

        def setup(level, h):
            kw = {} if level is None else {"level": level}
            if h is not None:
                kw["handler"] = sinks[h].h
            dorado.setup_logging(**kw)

        def judge(op, msgs, cands):
            nonlocal levels
            fits = None
            got = {k: s.take(known) for k, s in sinks.items() if not s.sick}
            got["stderr"] = err.take(known)
            for lv in cands:
                due = [m for n, m in msgs if lv is not None and n >= lv]
                ok = all(got[k] == (due if k in given else []) for k in got if k != "stderr")
                e = got["stderr"]
                ok &= e == due if default == "must" else e == [] if default == "no" else e in (due, [])
                if ok:
                    fits = (fits or []) + [lv]
            if fits is None:
                raise Violation("message-lost-or-repeated", operation=op, levels=cands, emitted=msgs, got=got,
                                given=list(given), default_handler=default, settings=trail[-4:])
            st.add("probe.messages-due", len(msgs))
            if msgs and cands != [None]:
                st.nontrivial = True
            return fits
        for i, op in enumerate(plan["ops"]):
            rng.use(rng.Stream(rng.mix(plan["key"], i)))
            msgs, want, walk = ref[i]
            k = op["op"]
            st.add("op." + k)
            if k == "setup":
                setup(op["level"], op["h"])
                levels = [getattr(logging, (op["level"] or "WARNING").upper())]
                if op["h"] is not None:
                    if op["h"] not in given:
                        given.append(op["h"])
                        if default == "must":
                            default = "may"
                elif default == "no":
                    default = "may" if given else "must"
                trail.append([op["level"], op["h"]])
                judge(op, [], levels)
                continue
            if k == "reject":
                try:
                    setup(op["level"] if op["level"] is not None else 20.5, op["h"])
                except Exception:
                    pass
                else:
                    raise Violation("invalid-level-accepted", level=op["level"])
                trail.append(["rejected", op["level"], op["h"]])
                judge(op, [], levels)
                continue
            v = op.get("verbose")
            ret = self.do(plan, st, box, op, home, v)
            if json.dumps(ret) != want or not same_walk(snap(box.walk_data), walk):
                raise Violation("logging-changed-results", operation=op, settings=trail[-4:])
            if v is None:
                levels = judge(op, msgs, levels)
            else:
                lv = logging.INFO if v else logging.ERROR
                trail.append(["verbose", v])
                if not given and default == "no":
                    default = "must" if k == "build" or msgs and k in ("state", "time_state", "exposure") else "may"
                elif not given and default == "may" and k == "build":
                    default = "must"
                cands = [lv] if k == "build" or msgs and k in ("state", "time_state", "exposure") else \
                    sorted({lv} | set(levels), key=str)
                levels = judge(op, msgs, cands)
            st.state("c24", str(trail), k, len(msgs))
        for kind, n in [(f[1], 1) for f in sess.fired]:
            st.add("fault.log-" + kind, n)
        if any(s.kind == "closed" for k, s in sinks.items() if k in given):
            st.add("fault.log-closed-stream")
        if plan["threads"]:
            self.concurrently(plan, st, box, home, per, sinks, err, given, default, levels, known, setup)
        st.events.update(repr((trail, sorted(known))).encode())

    def concurrently(self, plan, st, box, home, per, sinks, err, given, default, levels, known, setup):
        """Threads that all set the same level, some installing handlers, while messages are emitted."""
        from collections import Counter
        t = plan["threads"]
        lv = getattr(logging, t["level"])
        n = len(t["per"])
        before = set(given)
        frozen = default

        def body(i):
            def f():
                ident = threading.get_ident()
                for j, op in enumerate(t["per"][i]):
                    rng.use_thread(ident, rng.Stream(rng.mix(plan["key"], "t", i, j)))
                    if op["op"] == "setup":
                        setup(op["level"], op["h"])
                    else:
                        self.do(plan, st, box, op, home, op["verbose"])
            return f
        b = threads.Baton([body(i) for i in range(n)], t["sched"])
        b.run()
        for e in b.errors:
            if e is not None:
                raise e
        st.add("probe.thread-switches", len(b.switches))
        st.add("probe.lock-contention", b.contended)
        late = {op["h"] for ops in t["per"] for op in ops if op["op"] == "setup" and op["h"] is not None}
        plain = any(op["op"] == "setup" and op["h"] is None or op.get("verbose") is not None
                    for ops in t["per"] for op in ops)
        # what each thread emitted at or above the level, after its own setting (which is its first operation)
        emitted = [Counter(m for ms in per[i] for k, m in ms if k >= lv) for i in range(n)]
        union = sum(emitted, Counter())
        for k, s in list(sinks.items()) + [("stderr", err)]:
            if s.sick:
                continue
            got = Counter(s.take(known))
            if k in before or k == "stderr" and frozen == "must":
                low = union
            elif k in late:
                low = Counter()
                for i in range(n):
                    if t["per"][i][0].get("h") == k:
                        low |= emitted[i]
            else:
                low = Counter()
                if k == "stderr" and not before and not late and frozen == "no" and plain:
                    low = union
            top = union if k in before or k in late or k == "stderr" else Counter()
            if k == "stderr" and frozen == "no" and not plain:
                top = Counter()
            if k == "stderr" and frozen == "must" and late:
                low = Counter()
            if low - got or got - top:
                raise Violation("message-lost-or-repeated", where="threads", handler=k, missing=dict(low - got),
                                surplus=dict(got - top), switches=b.switches[:20])
        # afterwards: one more message, once everywhere
        if lv <= logging.INFO:
            rng.use(rng.Stream(rng.mix(plan["key"], "after")))
            cap = Capture()
            lg = logging.getLogger("dorado")
            lg.addHandler(cap)
            try:
                self.do(plan, st, box, {"op": "build"}, home)
            finally:
                lg.removeHandler(cap)
            due = [m for k, m in cap.out if k >= lv]
            known |= set(due)
            for k, s in list(sinks.items()) + [("stderr", err)]:
                if s.sick:
                    continue
                got = s.take(known)
                if k in before or k in late:
                    ok = got == due
                elif k == "stderr":
                    ok = got == due if frozen in ("no", "must") and not before and not late and \
                        (plain or frozen == "must") else got in (due, [])
                else:
                    ok = got == []
                if not ok:
                    raise Violation("message-lost-or-repeated", where="after threads", handler=k, due=due, got=got,
                                    switches=b.switches[:20])
            st.add("probe.concurrent-setups")
            if due:
                st.nontrivial = True

    def simplify(self, plan):
        for k, v in (("threads", None), ("faults", []), ("ops", plan["ops"][:1])):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        if plan["threads"]:
            t = plan["threads"]
            if len(t["per"]) > 2:
                yield dict(plan, threads=dict(t, per=t["per"][:2]))
            for i, p in enumerate(t["per"]):
                if len(p) > 1:
                    yield dict(plan, threads=dict(t, per=t["per"][:i] + [p[:1]] + t["per"][i + 1:]))


CHECK = C()
