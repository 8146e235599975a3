"""A bare driver of the public API: operations on a particle object, nothing checked on the way."""
import copy
import math

import model
import rng


def gen_op(r, w, first=False):
    from session import gen_cells
    if first or r.random() < 0.15:
        xs, ys, _ = gen_cells(r, w, r.choice(["interior", "interior", "any", "one", "near-edge"]))
        op = {"op": "gen", "n": r.choice([1, 2, 3, 4, 6]), "xs": xs, "ys": ys, "m": r.choice([None, "random", "exact"])}
        if r.random() < 0.25:
            op["t"] = r.choice([0, 1, 10.5, 100.0])
        if r.random() < 0.03:
            op["n"] = r.choice([17, 33, 70, 130])
        return op
    if r.random() < 0.7:
        return {"op": "step"}
    return {"op": "target", "T": round(r.choice([1, 2, 5, 10, 20]) * w["dx"] * (0.3 + r.random()), 3),
            "max": r.choice([3, 10, 40])}


def do(part, op, xs=None, ys=None, prev=None, ret=None):
    k = op["op"]
    if k == "gen":
        kw = {}
        if op.get("m") is not None:
            kw["method"] = op["m"]
        if op.get("t") is not None:
            kw["seed_time"] = op["t"]
        if prev is not None:
            kw["previous_walk_data"] = prev
        return part.generate_particles(op["n"], op["xs"] if xs is None else xs, op["ys"] if ys is None else ys, **kw)
    if k == "resume":
        return part.generate_particles(0, [], [], method="random", previous_walk_data=prev)
    if part.walk_data is None:
        return None
    if k == "step":
        return part.run_iteration()
    if k == "target":
        return part.run_iteration(target_time=op["T"], max_iter=op["max"])
    raise ValueError(k)
