"""C07: seeding."""
import oracles
import pooling
from props.common import *
import model


class C(SessionCheck):
    id = "C07"
    quick = 10000
    thorough = 60000
    mix = {"gen": 6, "step": 2, "target": 0.7, "regime": 0.7, "restart": 0.7, "clear": 0.5, "bad": 0.6, "int-gen": 0.7}
    rule = ("sequences of seeding calls (random and exact, lists and arrays, with and without supplied history and "
            "seed time) between moves, restarts, rejected and interrupted calls; non-trivial: at least two seeding "
            "calls, one with particles present or supplied")
    states = "distinct (requested, present, supplied, method, list length, array form) tuples"

    def tweak(self, r, plan, tier):
        w = plan["world"]
        for op in plan["ops"]:
            if op["op"] != "gen":
                continue
            if r.random() < 0.15:
                op["n"] = r.choice([0, 7, 12])
            if op.get("m") == "exact" or op.get("m") is None:
                if r.random() < 0.5 and len(op["xs"]) > 1:      # repeated locations
                    op["xs"] = op["xs"] + op["xs"][:1]
                    op["ys"] = op["ys"] + op["ys"][:1]
            if op.get("m") != "exact" and r.random() < 0.4:     # lists of different lengths
                op["xs"] = [r.randrange(1, w["L"] - 1) for _ in range(r.choice([1, 2, 3, 7]))]
                op["ys"] = [r.randrange(1, w["W"] - 1) for _ in range(r.choice([1, 2, 4, 5]))]
            elif op.get("m") != "exact" and r.random() < 0.3:   # the same list along both axes
                k = min(r.choice([2, 3, 4]), min(w["L"], w["W"]) - 2)
                a = r.randrange(1, max(2, min(w["L"], w["W"]) - 1 - k))
                vals = [a + i for i in range(k)]
                if r.random() < 0.3:
                    r.shuffle(vals)
                op["xs"], op["ys"], op["n"] = vals, list(vals), r.choice([5, 12, 30])
            if op.get("m") != "exact" and r.random() < 0.15:    # as many particles as places
                op["n"] = len(op["xs"])
            if r.random() < 0.2 and min(w["L"], w["W"]) > 4:
                # a supplied earlier history, as loaded from a file
                m = r.randint(1, 3)
                prev = {"xinds": [], "yinds": [], "travel_times": []}
                for _ in range(m):
                    x, y, t = r.randrange(2, w["L"] - 2), r.randrange(2, w["W"] - 2), 0.0
                    xs, ys, ts = [x], [y], [t]
                    for _ in range(r.choice([0, 0, 1, 3])):
                        x = min(w["L"] - 3, max(2, x + r.choice([-1, 1])))
                        if x == xs[-1]:
                            break
                        t += r.choice([0.5, 1.0, 3.25])
                        xs.append(x)
                        ys.append(y)
                        ts.append(t)
                    prev["xinds"].append(xs)
                    prev["yinds"].append(ys)
                    prev["travel_times"].append(ts)
                op["prev"] = prev
        return plan

    def oracles(self, st):
        return [oracles.seeding, self.uniform]

    def uniform(self, sess, ev):
        op = ev.op
        if op["op"] != "gen" or op.get("m") == "exact" or sess.extreme or ev.interrupted or not op["n"]:
            return
        st = sess.stats
        n1 = len(ev.after["xinds"])
        prev = None
        for p in range(n1 - op["n"], n1):
            cs = []
            for name, row, lst in (("x", ev.after["xinds"][p], op["xs"]), ("y", ev.after["yinds"][p], op["ys"])):
                n = len(lst)
                vals = sorted(set(lst))
                if len(vals) < 2:
                    cs.append(None)
                    continue
                for tag, v in (("first", lst[0]), ("last", lst[-1]), ("lowest", vals[0]), ("highest", vals[-1])):
                    pr = lst.count(v) / n
                    if 0 < pr < 1:
                        hit = (1.0 if row[0] == v else 0.0) - pr
                        pooling.add(st.pool, "uniform|%s|%s" % (name, tag), hit, pr * (1 - pr))
                        pooling.add(st.pool, "uniform|%s|%s|len%d" % (name, tag, n), hit, pr * (1 - pr))
                m = sum(lst) / n
                var = sum((x - m) ** 2 for x in lst) / n
                cs.append((row[0] - m) / var ** 0.5)
            x, y = ev.after["xinds"][p][0], ev.after["yinds"][p][0]
            nn = float(len(op["xs"]) * len(op["ys"]))
            tag = "identical" if op["xs"] == op["ys"] else "other"
            for name, hit, q in (
                    ("equal", x == y, sum(op["ys"].count(v) for v in op["xs"]) / nn),
                    ("first-first", (x, y) == (op["xs"][0], op["ys"][0]),
                     op["xs"].count(op["xs"][0]) * op["ys"].count(op["ys"][0]) / nn),
                    ("first-last", (x, y) == (op["xs"][0], op["ys"][-1]),
                     op["xs"].count(op["xs"][0]) * op["ys"].count(op["ys"][-1]) / nn)):
                if 0 < q < 1:
                    pooling.add(st.pool, "joint|%s|%s" % (name, tag), (1.0 if hit else 0.0) - q, q * (1 - q))
            if cs[0] is not None and cs[1] is not None:
                pooling.add(st.pool, "independence|x-y", cs[0] * cs[1], 1.0)
            if (p - n1 + op["n"]) % 2:          # the same place twice in a row (disjoint pairs)
                for d, key, lst in (("x", "xinds", op["xs"]), ("y", "yinds", op["ys"])):
                    q = sum(lst.count(v) for v in lst) / float(len(lst)) ** 2
                    if 0 < q < 1:
                        hit = ev.after[key][p][0] == ev.after[key][p - 1][0]
                        for tag in ("any", "as-many" if op["n"] == len(lst) else "more" if op["n"] > len(lst) else "fewer"):
                            pooling.add(st.pool, "same-place|%s|%s" % (d, tag), (1.0 if hit else 0.0) - q, q * (1 - q))
            if prev is not None:
                for d in (0, 1):
                    if cs[d] is not None and prev[d] is not None:
                        pooling.add(st.pool, "independence|particles|" + "xy"[d], cs[d] * prev[d], 1.0)
            prev = cs

    def run(self, plan, st):
        # supplied histories change the set of particles: the prefix comparison must account for them
        orc = self.oracles(st)
        s = Session(plan["world"], plan["key"], st, plan.get("extreme", 0.0), oracles=[log_event] + orc)
        seeds = 0
        for op in plan["ops"]:
            if s.steps_left <= 0:
                break
            if op["op"] in ("step", "target") and s.part.walk_data is None:
                continue
            s.apply(op)
            if op["op"] == "gen":
                seeds += 1
        st.nontrivial = seeds >= 2

    def pooled(self, pool, prior):
        return pooling.judge(pool, prior)


CHECK = C()
