"""C18: state queries return the recorded point asked for."""
import json
from fractions import Fraction

import model
import rng
import session
from props.common import *


def expected_iter(walk, k):
    out = []
    for p, row in enumerate(walk["xinds"]):
        n = len(row)
        out.append(k % n if -n <= k < n else n - 1)
    return out


def accepted_times(row, T):
    """Indices of acceptable records: the earliest nearest; rounding of |t - T| may merge near ties."""
    t = [Fraction(x) for x in row]
    d = [abs(x - Fraction(T)) for x in t]
    best = min(d)
    scale = max(abs(float(T)), max(abs(x) for x in row), 1e-300)
    tol = Fraction(scale) * Fraction(1, 1 << 50)
    first = {}
    for i, x in enumerate(row):
        first.setdefault(x, i)              # of equal times, the earliest
    near = sorted({first[row[i]] for i in range(len(row)) if d[i] <= best + tol})
    exact = [i for i in near if d[i] == best]
    if all(float(x) == x for x in (T,)) and len(near) == len(exact):
        # a tie in exact arithmetic is one in floating point too when the differences are representable
        if all(Fraction(abs(float(row[i]) - float(T))) == d[i] for i in near):
            return near[:1]
    return near


def check_result(walk, res, idx, what):
    """res: the returned tuple; idx: per particle, the acceptable indices."""
    extra = [k for k in walk if k not in session.BASE]
    if len(res) != (4 if extra else 3):
        raise Violation("wrong-shape", query=what, returned=len(res), variables=sorted(walk))
    lists = dict(zip(session.BASE, res[:3]))
    if extra:
        if set(res[3]) != set(extra):
            raise Violation("wrong-variables", query=what, returned=sorted(res[3]), recorded=sorted(extra))
        lists.update(res[3])
    n = len(walk["xinds"])
    for k, v in lists.items():
        if len(v) != n:
            raise Violation("wrong-number-of-particles", query=what, variable=k, returned=len(v), particles=n)
    for p in range(n):
        for i in idx[p]:
            if all(session.same_value(session.plain(lists[k][p]), walk[k][p][i]) for k in lists):
                break
        else:
            got = {k: session.plain(v[p]) for k, v in lists.items()}
            where = {k: [i for i, x in enumerate(walk[k][p]) if session.same_value(x, got[k])][:5] for k in lists}
            raise Violation("wrong-record", query=what, particle=p, expected_index=idx[p], got=got,
                            matches_index=where, points=len(walk["xinds"][p]))


class C(SessionCheck):
    id = "C18"
    quick = 6000
    thorough = 60000
    mix = dict(MIX_ALL, step=5)
    track_rate = 0.5
    rule = ("generated sessions (particles of different length: stopped, late, unmoved, interrupted, restored) with "
            "state queries by iteration and by time placed after random operations, on the live history, the history a "
            "call returned and its JSON reload, some interrupted; non-trivial: a query on a history with moves")
    states = "distinct (query kind, history shape, position asked for) tuples"

    def tweak(self, r, plan, tier):
        for op in plan["ops"]:
            qs = []
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                q = {"on": r.choice(["live", "live", "ret", "json"])}
                if r.random() < 0.5:
                    q["k"] = r.choice([-1, 0, 0, 1, 1, 2, 3, -2, -3, 5, 8, 13, -7, 40, 10 ** 6, -(10 ** 6)])
                    q["type"] = r.choice(["int", "int", "float", "np"])
                else:
                    q["t"] = r.choice(["exact", "mid", "frac", "before", "after", "near"])
                    q["p"], q["f"] = r.random(), r.random()
                if r.random() < 0.05:
                    q["line"] = int(2 ** r.uniform(0, 8))
                if r.random() < 0.1:
                    q["verbose"] = r.random() < 0.5
                qs.append(q)
            op["ask"] = qs
        if r.random() < 0.3:
            # equal times and exact ties
            w = plan["world"]
            w.update(bed="flat", flow=r.choice(["dyadic", "zero"]), dtype="f8", dc=0.0, inp="uv", dx=1.0, nan=0.0)
        return plan

    def oracles(self, st):
        return [self.queries]

    def queries(self, sess, ev):
        from dorado import routines
        import sys
        import warnings
        st = sess.stats
        live = sess.part.walk_data
        if live is None or ev.op["op"] == "clear":
            return
        for q in ev.op.get("ask") or ():
            data = live
            if q["on"] == "ret" and isinstance(ev.ret, dict) and ev.ret.get("xinds") is not None:
                data = ev.ret
            elif q["on"] == "json":
                data = json.loads(json.dumps(snap(live)))
            walk = snap(data)
            if not walk["xinds"]:
                continue
            n = len(walk["xinds"])
            kw = {} if q.get("verbose") is None else {"verbose": q["verbose"]}
            if "k" in q:
                import numpy as np
                k = q["k"]
                arg = float(k) if q["type"] == "float" else np.int64(k) if q["type"] == "np" else k
                call = lambda: routines.get_state(data, arg, **kw) if k != -1 or q["type"] != "int" else \
                    routines.get_state(data, **kw)
                idx = [[i] for i in expected_iter(walk, k)]
                what = {"iteration": k}
            else:
                row = walk["travel_times"][int(q["p"] * n)]
                if any(x != x or abs(x) > 1e300 for r in walk["travel_times"] for x in r):
                    continue
                i = int(q["f"] * len(row))
                j = min(i + 1, len(row) - 1)
                T = {"exact": row[i], "mid": (row[i] + row[j]) / 2, "frac": row[i] + (row[j] - row[i]) * q["f"],
                     "before": row[0] - 1.0, "after": row[-1] + 10.0, "near": row[i] * (1 + 1e-15)}[q["t"]]
                call = lambda: routines.get_time_state(data, T, **kw)
                idx = [accepted_times(r, T) for r in walk["travel_times"]]
                what = {"time": T}
            lines = session.LineInterrupt(q["line"]) if q.get("line") is not None else None
            res = None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    if lines is not None:
                        sys.settrace(lines)
                    res = call()
                except KeyboardInterrupt:
                    if lines is None or not lines.fired:
                        raise
                    st.add("fault.query-interrupted")
                finally:
                    sys.settrace(None)
            if not same_walk(snap(data), walk):
                raise Violation("query-changed-history", query=what, first=diff_walk(walk, snap(data)))
            st.add("op.get_state" if "k" in q else "op.get_time_state")
            if res is None:
                continue
            st.events.update(repr([session.plain(x) for x in res[2]]).encode())
            check_result(walk, res, idx, what)
            lens = sorted({len(r) for r in walk["xinds"]})
            st.state("c18", sorted(what), lens[:4], n, what.get("iteration"), tuple(len(i) for i in idx))
            if lens[-1] > 1:
                st.nontrivial = True
            if len(lens) > 1:
                st.add("probe.query-mixed-lengths")
            if "k" in q and any(not -len(r) <= q["k"] < len(r) for r in walk["xinds"]):
                st.add("probe.query-beyond-some-history")
            if "t" in q and q["t"] == "mid":
                st.add("probe.query-midway")


CHECK = C()
