"""C09: tracked variables and ROI flags."""
import oracles
import model
from props.common import SessionCheck


class C(SessionCheck):
    id = "C09"
    quick = 10000
    thorough = 60000
    track_rate = 0.9
    mix = {"gen": 2, "step": 6, "target": 3, "regime": 2, "restart": 1.5, "cut": 0.3, "clear": 0.3, "bad": 0.3,
           "int-step": 0.5, "int-target": 0.5, "int-gen": 0.2}
    rule = ("random worlds with random sets of tracked variables and regions of interest, set and region changing at "
            "some restarts; non-trivial: at least one tracked value was compared with its field")
    states = "distinct (variable, mode, flow regime, value) tuples"

    def tweak(self, r, plan, tier):
        w = plan["world"]
        if r.random() < 0.15 and w["roi"]:
            w["track"] = w["track"] + ["roi_flag"]
        for op in plan["ops"]:
            if op["op"] == "restart" and r.random() < 0.3:
                op["track"] = r.sample(model.TRACKABLE, r.randint(0, 3))
            if op["op"] == "restart" and r.random() < 0.25 and "roi_flag" not in w["track"]:
                op["roi"] = r.choice(["block", "random", "all", ""])
        return plan

    def oracles(self, st):
        return [oracles.Tracked()]

    def finish(self, plan, st, s):
        st.nontrivial = st.c.get("probe.value-checked", 0) > 0


CHECK = C()
