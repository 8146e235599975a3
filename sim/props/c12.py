"""C12: unsteady runs."""
import os
import shutil

import fs
import model
import rng
import routines_sim as R
from props.common import *

EXTRA = ["readme.txt", "Depth00.csv", ".depth00.csv", "my_depth.npy", "u00.npy", "v00.csv", "topography.csv",
         "notes", "velocity01.csv", "log.depth", "metadata.json", "q.csv", "Stage01.npy", "_qx00.csv", "q_x.csv", "q00x.npy",
         "dept.csv", "stag.csv", "DEPTH.csv", "dat.npz", "Data01.npz", "udata00.npz", "q-y.csv", "qmax00.csv", "maxdepth",
         "flux_qx_qy.npy", "d00.csv", "s00.csv", "yq.csv", "xq.csv"]
FIELDS = ("depth", "stage", "qx", "qy")


def names(r, n):
    k = r.choice(["02", "plain", "gap", "tag", "time"])
    if k == "02":
        t = ["%02d" % i for i in range(n)]
    elif k == "plain":                      # 1, 10, 11, 2, ...: name order is not numeric order
        s = r.choice([0, 1, 8, 9])
        t = [str(i) for i in range(s, s + n)]
    elif k == "gap":
        t = ["_%03d" % i for i in sorted(r.sample(range(1000), n))]
    elif k == "time":
        t = ["_t%d" % (3600 * (i + 1)) for i in range(n)]
    else:
        t = ["_" + "".join(r.choice("abXYZ019_-") for _ in range(4)) for _ in range(n)]
    return sorted(set(t))


def stamp(folder):
    for f in os.listdir(folder):
        os.utime(os.path.join(folder, f), (1.6e9, 1.6e9))


class C(Check):
    id = "C12"
    quick = 3500
    thorough = 30000
    rule = ("directories of 1-12 model outputs with random naming schemes and unrelated files, listed in a shuffled "
            "order, read as csv, npy or npz with short reads, for fewer, as many or more steps than outputs; compared "
            "with a run driven step by step; plus removed, truncated, garbled, vanishing and unreadable outputs; non-trivial: "
            "a history was compared or a fault reached")
    states = "distinct (format, naming, steps, outputs, fault, result) tuples"
    stub = Check.stub + ["Figure.savefig rendering replaced by a fixed small file", "directory listings (shuffled)",
                         "read faults injected below the real buffered file objects"]

    def gen(self, r, tier):
        w = model.gen_world(r, **R.UNSTEADY_WORLD)
        w["dtype"] = "f8"
        w["crest"] = r.random() < 0.1
        nf = r.choice([1, 2, 2, 3, 3, 4, 5, 12 if r.random() < 0.3 else 2])
        tags = names(r, nf)
        op = gen_seed_op(r, w, 6)
        op.pop("nd", None)
        op.pop("m", None)
        op.pop("t", None)
        plan = {"world": w, "tags": tags, "num": max(1, len(tags) + r.choice([0, 0, 0, -1, -2, 1, 3, 20])),
                "fmt": r.choice(["csv", "npy", "npz"]), "seed_op": op, "key": r.getrandbits(48),
                "ts": round(r.choice([0.25, 0.5, 1, 2, 4]) * (0.7 + r.random()) * w["dx"] / w["speed"], r.choice([1, 3, 6])) or 1.0,
                "extra": r.sample(EXTRA, r.choice([0, 0, 1, 3, 8])), "list": r.getrandbits(32), "bad": None, "reads": []}
        if r.random() < 0.006:                  # thousands of moves in one time step
            w.update(bed="lake", flow="vortex", L=r.choice([8, 10, 15]), W=r.choice([8, 10, 15]))
            op.update(n=r.choice([1, 2]), xs=[w["L"] // 2], ys=[w["W"] // 2])
            plan["tags"] = plan["tags"][:2]
            plan["num"] = min(plan["num"], 2)
            plan["ts"] = round(r.choice([1200, 2500]) * w["dx"] / w["speed"], 1)
        plan["stamp"] = r.random() < 0.4        # (copied files: all of one date)
        plan["prior"] = r.choice(["same", "other"]) if r.random() < 0.15 else None
        if r.random() < 0.3:
            plan["reads"] = [{"op": "read", "kind": "short", "nth": r.randrange(12)} for _ in range(3)]
        if r.random() < 0.45:
            k = r.choice(["remove", "truncate", "truncate", "open", "open", "read", "listdir", "vanish", "garble", "garble", "ragged"])
            plan["bad"] = {"kind": k, "step": r.randrange(len(plan["tags"])), "field": r.choice(FIELDS), "at": r.random() ** r.choice([1, 3]), "line": r.random() < 0.5,
                           "err": r.choice(["EIO", "EACCES", "EMFILE"])}
        return plan

    def file(self, plan, b):
        tag = plan["tags"][b["step"]]
        return ("data%s.npz" % tag) if plan["fmt"] == "npz" else "%s%s.%s" % (b["field"], tag, plan["fmt"])

    def damage(self, f, fmt, bad):
        """Text where a number belongs, a row that lost a cell; a binary file with a damaged header."""
        with open(f, "rb") as fh:
            b = fh.read()
        if fmt == "csv":
            rows = [x.split(b",") for x in b.split(b"\n") if x]
            i = int(bad["at"] * len(rows))
            j = int(bad["at"] * 7919) % len(rows[i])
            if bad["kind"] == "ragged":
                del rows[i][j]
            else:
                rows[i][j] = [b"****", b"n/a", b"", b"1.2.3", b"--", b"1,0", b"0x", b"one"][int(bad["at"] * 104729) % 8]
            b = b"\n".join(b",".join(x) for x in rows) + b"\n"
        elif fmt == "npy":
            i = int(bad["at"] * 6)
            b = b[:i] + bytes([b[i] ^ 0x55]) + b[i + 1:]
        else:
            i = b.rfind(b"PK\x05\x06") + int(bad["at"] * 4)
            b = b[:i] + bytes([b[i] ^ 0x55]) + b[i + 1:]
        with open(f, "wb") as fh:
            fh.write(b)

    def prior(self, plan, root, src):
        w = dict(plan["world"], seed=plan["world"]["seed"] ^ 1)
        d = src if plan["prior"] == "same" else os.path.join(root, "earlier")
        R.write_outputs(w, d, len(plan["tags"]), plan["fmt"], names=plan["tags"])
        if plan["stamp"]:
            stamp(d)
        with R.stub_figures():
            R.call("unsteady", w, plan["seed_op"], min(2, len(plan["tags"])), os.path.join(root, "out0"), plan["key"] ^ 1, src=d,
                   fmt=plan["fmt"], timestep=plan["ts"])
        shutil.rmtree(d)

    def reference(self, plan, n, st, targets):
        st.add("probe.reference-step", n)
        return R.stepwise(plan["world"], plan["seed_op"], n, plan["key"], targets)

    def run(self, plan, st):
        w, tags, bad = plan["world"], plan["tags"], plan["bad"]
        root = fs.fresh("c12")
        src, out = os.path.join(root, "in"), os.path.join(root, "out")
        n = min(plan["num"], len(tags))
        if plan["prior"]:                       # another run's outputs of the same names, replaced since or elsewhere
            self.prior(plan, root, src)
        R.write_outputs(w, src, len(tags), plan["fmt"], names=tags, extra=plan["extra"])
        if plan["stamp"]:
            stamp(src)
        faults = list(plan["reads"])
        must_fail, why = False, None
        if bad is not None:
            f = os.path.join(src, self.file(plan, bad))
            used = bad["step"] < n
            if bad["kind"] == "remove":
                if plan["fmt"] != "npz":        # (an npz output that is not there cannot be missed)
                    os.remove(f)
                    must_fail, why = used, "removed"
                    if not used:
                        why = "removed-unused"
            elif bad["kind"] == "truncate":
                size = os.path.getsize(f)
                keep = int(bad["at"] * (size - 28))
                if bad.get("line") and plan["fmt"] == "csv":        # after a whole number of lines
                    with open(f, "rb") as fh:
                        b = fh.read()
                    keep = b[:len(b) - 1].rfind(b"\n", 0, max(keep, b.find(b"\n") + 1)) + 1
                os.truncate(f, keep)
                must_fail, why = used, "truncated"
            elif bad["kind"] in ("garble", "ragged"):
                self.damage(f, plan["fmt"], bad)
                must_fail, why = used, bad["kind"]
            elif bad["kind"] == "open":
                faults.append({"op": "open-r", "match": os.path.basename(f), "kind": bad["err"]})
            elif bad["kind"] == "vanish":
                faults.append({"op": "open-r", "match": os.path.basename(f), "kind": "vanish"})
            elif bad["kind"] == "read":
                faults.append({"op": "read", "match": os.path.basename(f), "kind": "EIO",
                               "at": int(bad["at"] * os.path.getsize(f))})
            elif bad["kind"] == "listdir":
                faults.append({"op": "listdir", "kind": "EIO", "nth": int(bad["at"] * 5)})
        sess = fs.Session(root, faults, list_key=plan["list"])
        exc = got = None
        with R.stub_figures(), sess:
            try:
                got, _ = R.call("unsteady", w, plan["seed_op"], plan["num"], out, plan["key"], src=src,
                                fmt=plan["fmt"], timestep=plan["ts"])
                got = snap(got)
            except Exception as e:
                exc = e
        for o, k in sess.fired:
            st.add("fault.%s-%s" % (o, k))
        if why:
            st.add("fault.output-" + why)
        hard = [f for f in sess.fired if f[1] != "short"]
        st.add("op.unsteady")
        st.add("probe.listing-shuffled", sess.lists)
        st.events.update(repr((got, repr(exc), sess.fired)).encode())
        info = dict(fmt=plan["fmt"], fired=sess.fired, output=why, error=repr(exc), steps=plan["num"], outputs=len(tags))
        st.state("c12", plan["fmt"], len(tags), plan["num"], why, str(hard), exc is None)
        if exc is None:
            if must_fail:
                raise Violation("bad-output-accepted", file=os.path.relpath(f, root), **info)
            if hard:
                raise Violation("read-error-swallowed", **info)
            ts = plan["ts"]
            want = self.reference(plan, n, st, [ts * (i + 1) for i in range(n)])
            if not same_walk(got, want):
                t = [ts]
                for i in range(1, n):
                    t.append(t[-1] + ts)
                want2 = self.reference(plan, n, st, t)        # (multiples up to rounding)
                import numpy as np
                want3 = self.reference(plan, n, st, [float(x) for x in np.arange(ts, ts * (n + 1), ts)])
                if not same_walk(got, want2) and not same_walk(got, want3):
                    raise Violation("not-the-step-by-step-run", first=diff_walk(got, want), **info)
            st.add("probe.compared-with-stepwise-run")
            st.add("moves", sum(len(x) - 1 for x in got["xinds"]))
            st.simtime += n * ts
        else:
            if not (must_fail or hard or why == "removed-unused"):
                raise exc
        st.nontrivial = exc is None or bool(hard) or must_fail

    def simplify(self, plan):
        for k, v in (("extra", []), ("reads", []), ("prior", None), ("stamp", False), ("num", 1), ("num", 2), ("fmt", "npy"), ("fmt", "csv")):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        if len(plan["tags"]) > 1:
            yield dict(plan, tags=plan["tags"][:-1], bad=None if plan["bad"] and plan["bad"]["step"] >= len(plan["tags"]) - 1 else plan["bad"])


CHECK = C()
