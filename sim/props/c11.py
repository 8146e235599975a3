"""C11: what a saving routine reports as done is on disk."""
import json
import os

import fs
import model
import routines_sim as R
from props.common import *

STALE = b"figure of an earlier run"
ERRS = ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE"]


def parse(b):
    try:
        d = json.loads(b.decode("utf-8"))
    except (ValueError, UnicodeDecodeError):
        return None
    return d


def gen_faults(r, n):
    out = []
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.choice(["mkdir", "open", "open", "write", "write", "write", "close", "short"])
        if k == "mkdir":
            f = {"op": "mkdir", "nth": r.randrange(4), "kind": r.choice(ERRS[:5] + ["crash"])}
        elif k == "open":
            f = {"op": "open", "kind": r.choice(ERRS + ["crash"])}
            if r.random() < 0.5:
                f["match"] = "data.txt"
            else:
                f["nth"] = r.randrange(n + 1)
        elif k == "short":
            f = {"op": "write", "kind": "short", "at": r.randrange(400), "match": r.choice(["data.txt", ".png"])}
        elif k == "write":
            f = {"op": "write", "kind": r.choice(["ENOSPC", "EIO", "EDQUOT", "crash"]),
                 "match": r.choice(["data.txt", "data.txt", ".png", None]), "at": None}
            if r.random() < 0.75:
                f["at"] = r.choice([0, 1, 2, r.randrange(60), r.randrange(400), r.randrange(3000)])
            else:
                f["nth"] = r.randrange(n + 2)
        else:
            f = {"op": "close", "kind": r.choice(["EIO", "lose", "lose", "crash"]), "match": r.choice(["data.txt", "data.txt", ".png"]),
                 "lost": r.choice([1, 1, 10, 1000])}
        out.append(f)
    return out


def twin(b):
    """A history of the same number of bytes with one other digit in it."""
    for i in range(len(b) - 1, 0, -1):
        if b[i:i + 1] in (b"1", b"3", b"5", b"7"):
            c = b[:i] + bytes([b[i] + 1]) + b[i + 1:]
            if isinstance(parse(c), dict):
                return c


class C(Check):
    id = "C11"
    quick = 1100
    thorough = 16000
    rule = ("steady, unsteady and time plots on random worlds into new, existing, nested and default output folders, "
            "without faults and with full disks, denied or failed opens and mkdirs, failed or short writes at every "
            "offset, failed closes and process death in the middle; non-trivial: data.txt was compared with the "
            "returned history, or a fault fired")
    states = "distinct (routine, folder, fault fired, outcome, state of data.txt) tuples"
    stub = Check.stub + ["disk faults injected below the real buffered file objects",
                         "Figure.savefig rendering replaced by a fixed small file in 95% of the runs"]

    def gen(self, r, tier):
        kind = r.choice(["steady", "unsteady", "time"])
        w = model.gen_world(r, **(R.UNSTEADY_WORLD if kind == "unsteady" else {}))
        if kind != "unsteady" and r.random() < 0.4:
            w["track"] = r.sample(model.TRACKABLE, r.randint(1, 3))
        op = gen_seed_op(r, w, 6)
        op.pop("nd", None)
        n = r.choice([1, 1, 2, 3, 4])
        plan = {"world": w, "kind": kind, "seed_op": op, "n": n, "key": r.getrandbits(48),
                "folder": r.choice(["new", "new", "exists", "exists", "nested", "used", "cwd", "slash", "relative"]),
                "step": r.choice([0.5, 1.0, 2.0, 4.0]), "real": r.random() < 0.05,
                "stale": r.random() < 0.7, "twin": r.random() < 0.5,
                "fmt": r.choice(["npy", "csv", "npz"]),
                "faults": gen_faults(r, n) if r.random() < 0.75 else []}
        return plan

    def run(self, plan, st):
        kind, w, op, n, key = plan["kind"], plan["world"], plan["seed_op"], plan["n"], plan["key"]
        root = fs.fresh("c11")
        src = os.path.join(root, "inputs")
        if kind == "unsteady":
            R.write_outputs(w, src, n, plan["fmt"])
        tau = plan["step"] * w["dx"] / w["speed"]
        args = dict(key=key, src=src, fmt=plan["fmt"], timestep=tau)
        home = os.path.join(root, "home")
        os.mkdir(home)
        os.mkdir(os.path.join(home, "run1"))
        for p, text in (("notes.txt", "mine"), ("run1/notes.txt", "mine too"), ("data.txt", "[1, 2, 3]")):
            with open(os.path.join(home, p), "w") as f:
                f.write(text)
        name = {"new": "run2", "exists": "run1", "nested": "a/b/c", "used": "run1", "cwd": None, "slash": "run2/",
                "relative": "run1/sub"}[plan["folder"]]
        out = home if name is None else os.path.join(home, name)
        folder = None if name is None else (name if plan["folder"] == "relative" else os.path.join(home, name))
        oldhist = None
        cwd = os.getcwd()
        os.chdir(home)
        try:
            with R.stub_figures(not plan["real"]):
                # what the call should save: the same run into another folder, no faults
                ref = os.path.join(root, "ref")
                want, _ = R.call(kind, w, op, n, ref, **args)
                want = snap(want)
                self.saved(os.path.join(ref, ""), want, n, "ref")
                st.events.update(repr(want).encode())
                st.add("op." + kind)
                if plan["folder"] == "used":
                    h, _ = R.call(kind, w, dict(op, n=op["n"] + 1), n, out, **dict(args, key=key + 1))
                    oldhist = snap(h)
                    for f in os.listdir(os.path.join(out, "figs")):
                        f = os.path.join(out, "figs", f)
                        os.remove(f)
                        if plan.get("stale"):
                            with open(f, "wb") as g:
                                g.write(STALE)
                    if plan["twin"]:            # a complete earlier history of exactly the same size, newer than any clock says
                        f = os.path.join(out, "data", "data.txt")
                        b = twin(R.tree(os.path.join(ref, ""))[os.path.join("data", "data.txt")])
                        if b is not None:
                            with open(f, "wb") as g:
                                g.write(b)
                            os.utime(f, (4e9, 4e9))
                            oldhist = parse(b)
                before = R.tree(home)
                sess = fs.Session(home, plan["faults"])
                exc = got = None
                with sess:
                    try:
                        got, _ = R.call(kind, w, op, n, folder, **args)
                        got = snap(got)
                    except fs.SimCrash as e:
                        exc = e
                    except Exception as e:
                        if not sess.fired:
                            raise
                        exc = e
        finally:
            os.chdir(cwd)
        after = R.tree(home)
        for o, k in sess.fired:
            st.add("fault.%s-%s" % (o, k))
        hard = [f for f in sess.fired if f[1] not in ("short",)]
        rel = os.path.relpath(out, home)
        pre = "" if rel == "." else rel + os.sep
        data = after.get(pre + os.path.join("data", "data.txt"))
        d = parse(data) if data is not None else None
        figs = [p for p in after if p.startswith(pre + "figs" + os.sep) and after[p] not in (None, STALE)]
        info = dict(routine=kind, folder=plan["folder"], fired=sess.fired, error=repr(exc))
        if exc is None:
            if hard:
                raise Violation("io-error-swallowed", **info)
            if not same_walk(got, want):
                # (that saving does not influence the run is C16's business; here it would make the comparison moot)
                raise Violation("result-depends-on-the-folder", first=diff_walk(got, want), **info)
            if d is None:
                raise Violation("reported-success-without-data", size=None if data is None else len(data), **info)
            if not same_walk(d, got):
                raise Violation("saved-history-differs-from-returned", first=diff_walk(d, got), **info)
            if len(figs) != n:
                raise Violation("wrong-number-of-figures", figures=sorted(figs), steps=n, **info)
            for p in figs:
                if not after[p].startswith(b"\x89PNG") or (not plan["real"] and after[p] != R.PNG):
                    raise Violation("figure-incomplete", figure=p, size=len(after[p]), **info)
            st.add("probe.saved-equals-returned")
        else:
            if d is not None and not same_walk(d, want) and not (oldhist is not None and same_walk(d, oldhist)):
                raise Violation("partial-history-parses", first=diff_walk(d, want) if isinstance(d, dict) else repr(d), **info)
            st.add("probe.failed-call-checked")
        for p, b in before.items():
            inside = p.startswith(pre + "figs" + os.sep) or p.startswith(pre + "data" + os.sep)
            if not inside and (p not in after or after[p] != b):
                raise Violation("other-file-changed", path=p, **info)
        for p in after:
            if p not in before and not (p.startswith(pre) or (p.endswith("/") and pre.startswith(p))):
                raise Violation("file-created-elsewhere", path=p, **info)
        st.state("c11", kind, plan["folder"], str(sess.fired), exc is None,
                 "none" if data is None else "torn" if d is None else "old" if oldhist is not None and same_walk(d, oldhist) else "full")
        st.nontrivial = True

    def saved(self, folder, want, n, tag):
        t = R.tree(folder)
        d = parse(t.get(os.path.join("data", "data.txt")) or b"")
        if d is None:
            raise Violation("reported-success-without-data", call=tag)
        if not same_walk(d, want):
            raise Violation("saved-history-differs-from-returned", first=diff_walk(d, want), call=tag)
        figs = [p for p in t if p.startswith("figs" + os.sep) and t[p] is not None]
        if len(figs) != n:
            raise Violation("wrong-number-of-figures", figures=sorted(figs), steps=n, call=tag)

    def simplify(self, plan):
        for k, v in (("folder", "new"), ("fmt", "npy"), ("n", 1), ("real", False)):
            if plan[k] != v:
                yield dict(plan, **{k: v})


CHECK = C()
