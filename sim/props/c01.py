"""C01: confinement and D8 steps."""
import oracles
from props.common import SessionCheck


class C(SessionCheck):
    id = "C01"
    quick = 15000
    thorough = 120000
    rule = ("random worlds and operation sequences (seeding anywhere on the grid, the outer ring included, single "
            "iterations, target-time runs, new flow fields, restarts from memory, JSON or a cut history, rejected and "
            "interrupted calls) under seeded draws with extreme values; non-trivial: at least one move was recorded")
    states = "distinct (mode, direction, from cell, to cell) moves"
    styles = [None, None, "any", "ring", "near-edge"]

    def oracles(self, st):
        return [oracles.confinement]


CHECK = C()
