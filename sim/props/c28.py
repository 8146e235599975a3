"""C28: seeding in proportion to the discharge brings exactly the requested particles, whatever happens in between."""
import json
import math
import sys
import warnings
from fractions import Fraction

import boot
import model
import rng
import session
import threads
from props.common import *
from props.c26 import Fault


def gen_q(r, n):
    k = r.choice(["any", "any", "ints", "tide", "flood", "equal", "sparse", "dyadic", "tiny"])
    if k == "ints":
        c = r.choice([1, 1, 1, 10 ** 4, 3 * 10 ** 9])
        q = [c * r.randint(0, 9) for _ in range(n)]
    elif k == "tide":
        p = r.uniform(0.5, 7)
        q = [round(100 * math.sin(i / p + 0.3), 6) for i in range(n)]
    elif k == "flood":
        q = [round(math.exp(-0.5 * (i - n / 3.0) ** 2), 9) for i in range(n)]
    elif k == "equal":
        q = [r.choice([1, 0.1, 200, 1 / 3.0])] * n
    elif k == "sparse":
        q = [r.choice([0, 0, 0, 5.5, -2]) for _ in range(n)]
    elif k == "dyadic":
        q = [r.choice([-2, -0.5, 0.25, 0.5, 1, 1.5, 4]) for _ in range(n)]
    elif k == "tiny":
        q = [r.uniform(0, 1) * r.choice([1e-9, 1, 1e6]) for _ in range(n)]
    else:
        q = [round(r.uniform(-50, 200), 3) for _ in range(n)]
    if not any(q):
        q[r.randrange(n)] = 3.0
    return q


class C(Check):
    id = "C28"
    quick = 4000
    thorough = 40000
    rule = ("generated discharge series (reversals, zeros, ties, longer than the seeding period, as list, array or "
            "column), whose counts drive a seeding campaign of target-time runs with crashes, restarts from JSON and "
            "recomputation of the counts in between, calls interrupted at a line, out of memory, or made from threads; "
            "counts against exact rational shares; non-trivial: particles seeded at two different times")
    states = "distinct (discharge series, total, restarts) tuples"
    real = Check.real + ["Python threads (one at a time)"]
    stub = ["thread scheduler (line-level baton)"] + Check.stub

    def gen(self, r, tier):
        big = r.random() < 0.02                 # (where products go beyond 64 bits)
        w = model.gen_world(r, L=r.choice([5, 6, 8]), W=r.choice([5, 6, 8]), layout="C")
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
        q = gen_q(r, n) if not big else [r.randint(0, 9) * 10 ** 9 for _ in range(n - 1)] + [10 ** 9]
        N = r.choice([0, 1, n - 1, n, n + 1, r.randint(1, 12), r.randint(1, 30), 2 * n + 1])
        if r.random() < 0.2:
            N = r.choice([100, 997, 1000, 12345, 10 ** 6, 10 ** 9 + 7, 8 * 10 ** 9])
        plan = {"world": w, "key": r.getrandbits(48), "q": q, "N": N, "n": n,
                "more": [round(r.uniform(-9, 9), 2) for _ in range(r.choice([0, 0, 0, 1, 3]))],
                "form": r.choice(["array", "array", "column", "column", "list", "ints", "f4", "readonly"]),
                "run": N <= 40 and n <= 8, "dt": round(w["dx"] * r.choice([0.5, 1, 3]), 3),
                "cells": [[r.randrange(w["L"]), r.randrange(w["W"])] for _ in range(r.choice([1, 2, 3]))],
                "m": r.choice(["random", "exact"]),
                "crash": sorted({r.randrange(n) for _ in range(r.choice([0, 0, 1, 2, 3]))}),
                "faults": [[int(2 ** r.uniform(0, 4)), r.choice(["int", "mem"])] for _ in range(r.choice([0, 0, 1, 2]))],
                "bad": r.choice([None, None, "short", "zero"]), "threads": None}
        if big or r.random() < 0.3 and all(v == int(v) for v in q):
            plan["form"], plan["more"] = "ints", []
        if r.random() < 0.2:
            k = r.choice([2, 3])
            plan["threads"] = [k, [[r.randrange(k), 1 + int(r.expovariate(0.5))] for _ in range(r.choice([5, 20, 40]))]]
        return plan

    def q(self, plan):
        import numpy as np
        f, q = plan["form"], list(plan["q"]) + list(plan["more"])
        if f == "ints":
            if any(v != int(v) for v in q):
                f = "array"
            else:
                a = np.array(q).astype(int)
                return a.astype("i4") if plan["key"] % 3 == 0 and abs(a).sum() < 2 ** 31 else a
        if f == "list":
            return q
        a = np.array(q, dtype="f4" if f == "f4" and plan["N"] < 1000 else "f8")
        if f == "column":
            a = a.reshape(-1, 1)
        if f == "readonly":
            a.setflags(write=False)
        return a

    def counts(self, plan, st, fault=None):
        import numpy as np
        import dorado.particle_track as pt
        q = self.q(plan)
        given = np.array(q).tolist()
        res = None
        if fault is not None:
            exc = KeyboardInterrupt() if fault[1] == "int" else MemoryError("simulated")
            tr = Fault(fault[0], exc)
            try:
                sys.settrace(tr)
                res = pt.flux_proportional_seeding(q, plan["N"], plan["n"])
            except (KeyboardInterrupt, MemoryError):
                if not tr.fired:
                    raise
                st.add("fault.seeding-" + fault[1])
            finally:
                sys.settrace(None)
        if res is None:
            res = pt.flux_proportional_seeding(q, plan["N"], plan["n"])
        if np.array(q).tolist() != given:
            raise Violation("inputs-modified", given=given[:6], now=np.array(q).tolist()[:6])
        st.add("op.counts-" + plan["form"])
        return res

    def judge(self, plan, res):
        """One integer per seeding step, all of them together N, each its share rounded up or down."""
        import numpy as np
        a = np.asarray(res)
        if len(a) != plan["n"] or a.size != plan["n"]:
            raise Violation("wrong-number-of-steps", got=list(a.shape), steps=plan["n"], form=plan["form"])
        flat = [session.plain(v) for v in a.reshape(-1)]
        if any(v != int(v) or v < 0 for v in flat):
            raise Violation("not-a-number-of-particles", counts=flat[:12])
        flat = [int(v) for v in flat]
        info = dict(counts=flat[:12], total=plan["N"], discharge=plan["q"][:12], form=plan["form"])
        if sum(flat) != plan["N"]:
            raise Violation("wrong-total", sum=sum(flat), **info)
        q = [abs(Fraction(float(v))) for v in np.asarray(self.q(plan)).reshape(-1)[:plan["n"]]]
        tot = sum(q)
        slack = 1 + plan["N"] * (1e-6 if plan["form"] == "f4" else 1e-11)
        for i, v in enumerate(q):
            if not abs(flat[i] - float(v * plan["N"] / tot)) < slack:
                raise Violation("not-proportional", step=i, share=float(v * plan["N"] / tot), **info)
            if v == 0 and flat[i] > 0:
                raise Violation("particles-without-discharge", step=i, **info)
        return flat

    def run(self, plan, st):
        import numpy as np
        import dorado.particle_track as pt
        if not any(plan["q"]):
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if plan["bad"]:
                q, n = (self.q(plan), len(plan["q"]) + len(plan["more"]) + 1) if plan["bad"] == "short" else \
                    (np.zeros(plan["n"]), plan["n"])
                try:
                    got = pt.flux_proportional_seeding(q, plan["N"], n)
                except ValueError:
                    st.add("probe.rejected-" + plan["bad"])
                else:
                    raise Violation("impossible-request-accepted", request=plan["bad"], got=repr(got)[:80])
            res = self.counts(plan, st, *plan["faults"][:1])
            flat = self.judge(plan, res)
            if plan["threads"]:
                self.concurrently(plan, st)
            if plan["run"]:
                self.campaign(plan, st, flat)
        if [int(v) for v in np.asarray(res).reshape(-1)] != flat:
            raise Violation("earlier-result-changed", was=flat[:12], now=repr(res)[:200])
        st.events.update(repr(flat).encode())
        st.state("c28", repr(plan["q"]), plan["N"], repr(plan["crash"]) if plan["run"] else "")

    def campaign(self, plan, st, flat):
        """Seed the counts step by step, with crashes; then count who is there."""
        import dorado.particle_track as pt
        w = plan["world"]
        faults = list(plan["faults"][1:])
        rng.use(rng.Stream(rng.mix(plan["key"], "campaign")))
        part = pt.Particles(model.make_params(w))
        xs, ys = [c[0] for c in plan["cells"]], [c[1] for c in plan["cells"]]
        for i in range(plan["n"]):
            part.generate_particles(flat[i], xs, ys, seed_time=i * plan["dt"], method=plan["m"])
            if part.walk_data["xinds"]:
                part.run_iteration(target_time=(i + 1) * plan["dt"], max_iter=200)
            if i in plan["crash"]:
                saved = json.loads(json.dumps(session.snap(part.walk_data)))
                part = pt.Particles(model.make_params(w))
                part.generate_particles(0, [], [], previous_walk_data=saved)
                res = self.counts(plan, st, faults.pop(0) if faults else None)
                if self.judge(plan, res) != flat:
                    raise Violation("counts-differ-after-restart", before=flat[:12], after=repr(res)[:200])
                st.add("fault.crash-in-campaign")
        seeded = [t[0] for t in part.walk_data["travel_times"]]
        want = [i * plan["dt"] for i in range(plan["n"]) for _ in range(flat[i])]
        if seeded != want:
            raise Violation("campaign-seeded-others", got=[seeded.count(i * plan["dt"]) for i in range(plan["n"])],
                            counts=flat, total=plan["N"])
        st.add("op.campaign")
        if len(set(seeded)) > 1:
            st.nontrivial = True

    def concurrently(self, plan, st):
        k, sched = plan["threads"]
        out = []

        def body(i):
            import dorado.particle_track as pt
            return lambda: out.append(pt.flux_proportional_seeding(self.q(plan), plan["N"] + i, plan["n"]))
        b = threads.Baton([body(0), body(1), body(0)][:k], sched)
        b.run()
        for e in b.errors:
            if e is not None:
                raise e
        st.add("probe.thread-switches", len(b.switches))
        totals = []
        for res in out:
            import numpy as np
            n = int(np.asarray(res).sum())
            totals.append(n)
            self.judge(dict(plan, N=n), res)
        if sorted(totals) != sorted([plan["N"], plan["N"] + 1, plan["N"]][:k]):
            raise Violation("wrong-total", in_threads=True, totals=totals, total=plan["N"])

    def simplify(self, plan):
        for k, v in (("threads", None), ("bad", None), ("crash", []), ("faults", []), ("more", []), ("form", "array"),
                     ("run", False)):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        if plan["n"] > 1:
            for i in range(plan["n"]):
                q = plan["q"][:i] + plan["q"][i + 1:]
                if any(q):
                    yield dict(plan, q=q, n=plan["n"] - 1, crash=[c for c in plan["crash"] if c < plan["n"] - 1])
        if plan["N"] > 1:
            yield dict(plan, N=plan["N"] // 2)
            yield dict(plan, N=plan["N"] - 1)


CHECK = C()
