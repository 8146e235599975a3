"""C08: append-only, aligned histories."""
import oracles
from props.common import SessionCheck


class C(SessionCheck):
    id = "C08"
    quick = 12000
    thorough = 100000
    track_rate = 0.5
    mix = {"gen": 2, "step": 5, "target": 3, "regime": 1, "restart": 1, "cut": 0.4, "clear": 0.4, "bad": 1.5,
           "int-step": 1.5, "int-target": 1.5, "int-gen": 1}
    rule = ("random operation sequences with rejected calls, Ctrl-C at the n-th random draw of a call and, as a last "
            "operation, at the n-th executed line of the package; non-trivial: at least one move was recorded")
    states = "distinct (operation, interrupted, particles, points appended per particle) tuples"

    def tweak(self, r, plan, tier):
        if r.random() < 0.4:
            op = dict(r.choice([o for o in plan["ops"] if o["op"] in ("gen", "step", "target")]))
            op.pop("int", None)
            op["line"] = r.randrange(r.choice([20, 100, 400, 1500]))
            plan["ops"].append(op)
        return plan

    def oracles(self, st):
        return [oracles.append_only]


CHECK = C()
