"""C06: stopping rule and iteration limit of target-time runs."""
import oracles
from props.common import SessionCheck


class C(SessionCheck):
    id = "C06"
    quick = 12000
    thorough = 120000
    mix = {"gen": 1.5, "step": 3, "target": 7, "regime": 1, "restart": 1, "cut": 0.3, "bad": 0.2, "int-step": 0.3,
           "int-target": 0.6}
    rule = ("random worlds and sequences of target-time runs (targets behind, at, just ahead of and far ahead of the "
            "particles, iteration limits 1 to 400) between single iterations, restarts and new flow fields, verbosity "
            "unset, on and off; non-trivial: at least one move was recorded")
    states = "distinct (number of steps, rule outcome, absorbed, cut off) tuples"

    def tweak(self, r, plan, tier):
        plan["world"]["verbose"] = r.choice([None, None, True, False])
        for op in plan["ops"]:
            if op["op"] == "gen" and r.random() < 0.2:
                op["n"] = 12
            if op["op"] == "target" and r.random() < 0.15:      # about the 0.1 s a first step is taken to last
                op.update(f=0.0, d=r.choice([-0.03, 0.02, 0.045, 0.049, 0.051, 0.055, 0.06, 0.08, 0.12]))
        if r.random() < 0.0015:                 # more steps than the limit that holds when none is given
            w = plan["world"]
            w.update(bed="lake", flow="vortex", ct=None, steep=False, L=r.choice([8, 10]), W=r.choice([8, 10]), verbose=True)
            plan["extreme"] = 0.0
            plan["ops"] = [{"op": "gen", "n": r.choice([1, 2]), "xs": [w["L"] // 2], "ys": [w["W"] // 2], "m": "random"},
                           {"op": "target", "f": round(r.choice([300, 3000, 20000, 40000]) * (1 + r.random()), 1), "q": 1.0,
                            "max": "default"}]
        return plan

    def oracles(self, st):
        return [oracles.target_rule]


CHECK = C()
