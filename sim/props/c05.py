"""C05: absorption at edges, progress elsewhere."""
import oracles
from props.common import SessionCheck


class C(SessionCheck):
    id = "C05"
    quick = 12000
    thorough = 120000
    rule = ("random worlds with outlets, walls, inner edge cells and open rings; up to 12 particles of mixed fates per "
            "call; seeding beside edges; every mode of movement, restart and interruption; non-trivial: at least one "
            "move was recorded")
    states = "distinct (absorbed/moved, start cell) pairs"

    def tweak(self, r, plan, tier):
        w = plan["world"]
        if r.random() < 0.4:
            w["ct"] = r.choice(["outlets", "inner", "land", "ring"])
        for op in plan["ops"]:
            if op["op"] == "gen" and r.random() < 0.3:
                op["n"] = 12
        return plan

    def oracles(self, st):
        return [oracles.absorption]


CHECK = C()
