"""C02: dry and land cells are never entered except at dead ends."""
import oracles
from props.common import SessionCheck


class C(SessionCheck):
    id = "C02"
    quick = 14000
    thorough = 120000
    extreme_rate = 0.7
    rule = ("random worlds rich in dry cells, cells exactly at dry_depth, land and pits, moved in every mode under "
            "seeded draws with extreme values (0, 1-2^-53, 2^-53, ...); non-trivial: at least one move was recorded")
    states = "distinct (dead end, direction, pattern of barred neighbours) tuples"

    def tweak(self, r, plan, tier):
        w = plan["world"]
        if r.random() < 0.6:
            w["bed"] = r.choice(["islands", "islands", "pits", "channel", "dyadic"])
        if r.random() < 0.25:
            w["flow"] = r.choice(["zero", "patchy"])
        return plan

    def oracles(self, st):
        return [oracles.no_dry_entry]


CHECK = C()
