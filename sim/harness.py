"""Seeded search over simulated runs: workers, watchdog, shrinking, replay files, evidence."""
import argparse
import copy
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time as _time
import traceback

REAL_TIME = _time.perf_counter      # captured before the simulated clock is installed

import boot

OUT = os.path.join(boot.VERIF, "out")
CPU_LIMIT = 25.0          # CPU seconds one simulated run may use (typical: under 0.1)


class Hang(BaseException):
    pass


def _on_vtalrm(sig, frame):
    raise Hang("no progress within %.0f CPU seconds" % CPU_LIMIT)


def load_prop(pid):
    return importlib.import_module("props." + pid.lower()).CHECK


def known_ids(pid):
    f = os.path.join(boot.VERIF, "known_findings.json")
    with open(f) as fh:
        data = json.load(fh)
    return {k["id"]: k for k in data["findings"] if k["property"] == pid and k["status"] == "known"}


class Check:
    """Base class of the property checks."""
    id = "C00"
    quick = 400
    thorough = 8000
    technique = "deterministic simulation"
    level = "exploration"
    rule = ""
    states = ""
    real = ["dorado (all modules, unmodified, from the working tree)", "numpy", "json"]
    stub = ["numpy global bit generator (SimBits)", "clock", "entropy"]
    assumptions = []
    cpu_limit = CPU_LIMIT

    def gen(self, r, tier):
        raise NotImplementedError

    def run(self, plan, st):
        raise NotImplementedError

    def simplify(self, plan):
        """Property-specific smaller plans."""
        return []

    def pooled(self, pool, confirm):
        """Judge numbers pooled over all runs: list of (kind, detail)."""
        return []


def plan_for(check, seed, i, tier):
    import rng
    return check.gen(random.Random(rng.mix(seed, check.id, i)), tier)


def reset(key):
    """Bring process-wide state to the same point before each run."""
    import rng
    import logging
    import fs
    boot.CLOCK.reset()
    rng.use_sim()
    rng.use(rng.Stream(rng.mix("idle", key)))
    rng.set_entropy(rng.mix("entropy", key))
    rng._by_thread.clear()
    fs.ACTIVE = None
    lg = logging.getLogger("dorado")
    lg.handlers[:] = [logging.NullHandler()]
    lg.propagate = False
    lg.setLevel(logging.WARNING)
    random.seed(0)


def one(check, plan, stats):
    """Execute one plan.  Returns None or a violation dict; harness failures propagate."""
    import rng
    import session
    import threads
    key = int.from_bytes(hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).digest()[:8], "big")
    reset(key)
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    signal.setitimer(signal.ITIMER_VIRTUAL, check.cpu_limit)
    try:
        check.run(plan, stats)
        return None
    except session.Violation as v:
        return {"kind": v.kind, "detail": jsonable(v.detail)}
    except session.HarnessError:
        raise
    except Hang as h:
        return {"kind": "no-progress", "detail": {"error": str(h), "at": where(sys.exc_info()[2])}}
    except MemoryError as e:
        return {"kind": "no-progress", "detail": {"error": "memory exhausted", "at": where(sys.exc_info()[2])}}
    except Exception as e:
        return {"kind": "unexpected-" + type(e).__name__,
                "detail": {"error": "%s: %s" % (type(e).__name__, e), "at": where(sys.exc_info()[2])}}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.settrace(None)
        threads.abandon()
        rng._by_thread.clear()
        import fs
        fs.ACTIVE = None


def where(tb):
    out = []
    for f in traceback.extract_tb(tb)[-6:]:
        out.append("%s:%d %s" % (os.path.basename(f.filename), f.lineno or 0, f.name))
    return out


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in (sorted(x) if isinstance(x, set) else x)]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Tally:
    """Aggregate of many runs' Stats."""

    def __init__(self):
        self.c, self.states, self.plans, self.simtime = {}, set(), set(), 0.0
        self.runs = 0
        self.nontrivial = 0
        self.pool = {}
        self.known = {}
        self.digest = 0

    def take(self, plan, st):
        self.runs += 1
        for k, v in st.c.items():
            self.c[k] = self.c.get(k, 0) + v
        if len(self.states) < 200000:
            self.states |= st.states
        self.simtime += st.simtime
        if st.nontrivial:
            self.plans.add(hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16])
        merge_pool(self.pool, st.pool)
        self.known.update(st.known_seen)

    def dump(self):
        return {"c": self.c, "states": list(self.states), "plans": list(self.plans), "simtime": self.simtime,
                "runs": self.runs, "pool": self.pool, "known": self.known}

    def absorb(self, d):
        self.runs += d["runs"]
        for k, v in d["c"].items():
            self.c[k] = self.c.get(k, 0) + v
        self.states |= set(d["states"])
        self.plans |= set(d["plans"])
        self.simtime += d["simtime"]
        merge_pool(self.pool, d["pool"])
        self.known.update(d["known"])


def merge_pool(a, b):
    """Pools are {key: [numbers]}: added element-wise."""
    for k, v in b.items():
        if k in a:
            a[k] = [x + y for x, y in zip(a[k], v)]
        else:
            a[k] = list(v)


def new_stats(check, known):
    import session
    st = session.Stats()
    st.nontrivial = False
    st.pool = {}
    st.known_seen = {}
    st.events = hashlib.sha256()

    def report_known(fid, **detail):
        if fid in known:
            st.known_seen.setdefault(fid, jsonable(detail))
        else:
            raise session.Violation(fid, **detail)
    st.known = report_known
    return st


def worker(check, seed, tier, start, count, w, jobs, best, wfd, want_digests):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    known = known_ids(check.id)
    tally = Tally()
    res = {"violation": None, "error": None, "digests": {}}
    try:
        for i in range(start + w, start + count, jobs):
            cur = struct.unpack("q", best[:8])[0]
            if cur >= 0 and cur < i:
                break
            plan = plan_for(check, seed, i, tier)
            st = new_stats(check, known)
            v = one(check, plan, st)
            tally.take(plan, st)
            if want_digests:
                res["digests"][i] = st.events.hexdigest() + ("!" + v["kind"] if v else "")
            if v is not None:
                res["violation"] = {"index": i, "plan": plan, "v": v, "seq": [start + w, jobs]}
                cur = struct.unpack("q", best[:8])[0]
                if cur < 0 or i < cur:
                    best[:8] = struct.pack("q", i)
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        import fs
        fs.cleanup()
    res["tally"] = tally.dump()
    data = json.dumps(res).encode()
    os.write(wfd, struct.pack("q", len(data)))
    mv = memoryview(data)
    while mv:
        mv = mv[os.write(wfd, mv):]
    os.close(wfd)


def search(check, seed, tier, start, count, jobs, want_digests=False):
    """Run plans start..start+count on `jobs` forked workers."""
    sys.stdout.flush()
    sys.stderr.flush()
    best = mmap.mmap(-1, 16)
    best[:8] = struct.pack("q", -1)
    pipes = {}
    for w in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                for fd in pipes:
                    os.close(fd)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(devnull, 2)
                worker(check, seed, tier, start, count, w, jobs, best, wr, want_digests)
            except BaseException:
                code = 3
                traceback.print_exc()
            finally:
                os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(wr)
        pipes[r] = [pid, b""]
    results = []
    live = dict(pipes)
    while live:
        ready, _, _ = select.select(list(live), [], [], 5)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                live[fd][1] += chunk
            else:
                pid, data = live.pop(fd)
                os.close(fd)
                try:
                    os.killpg(pid, signal.SIGKILL)     # simulated workers it may have left
                except OSError:
                    pass
                os.waitpid(pid, 0)
                if len(data) < 8 or len(data) - 8 != struct.unpack("q", data[:8])[0]:
                    raise RuntimeError("a simulation worker died (pid %d)" % pid)
                results.append(json.loads(data[8:]))
    tally = Tally()
    viol = []
    digests = {}
    for res in results:
        if res["error"]:
            raise RuntimeError("harness failure in a simulation worker:\n" + res["error"])
        tally.absorb(res["tally"])
        digests.update(res["digests"])
        if res["violation"]:
            viol.append(res["violation"])
    viol.sort(key=lambda v: v["index"])
    return tally, viol, digests


def isolated(check, plan, seq=None, seed=None, tier=None):
    """Run one plan (or the worker's whole sequence up to it) in a forked child."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        out = {}
        try:
            os.setpgid(0, 0)
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 2)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            known = known_ids(check.id)
            if seq is not None:
                for i in range(seq[0], seq[2], seq[1]):
                    one(check, plan_for(check, seed, i, tier), new_stats(check, known))
            st = new_stats(check, known)
            out["v"] = one(check, plan, st)
            out["pool"] = st.pool
            out["c"] = st.c
        except BaseException:
            out["error"] = traceback.format_exc()
        finally:
            import fs
            fs.cleanup()
            try:
                data = json.dumps(out).encode()
                mv = memoryview(data)
                while mv:
                    mv = mv[os.write(w, mv):]
            finally:
                os._exit(0)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        data += c
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    return json.loads(data) if data else {"error": "child died"}


# ------------------------------------------------------------------ minimisation
def generic_smaller(plan):
    """Smaller variants of a plan: fewer operations, simpler operations, plainer world."""
    for name in [k for k, v in plan.items() if isinstance(v, list)]:
        ops = plan[name]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                if n - size >= 0:
                    q = copy.deepcopy(plan)
                    q[name] = ops[:s] + ops[s + size:]
                    yield q
            size //= 2
        for i, op in enumerate(ops):
            if not isinstance(op, dict):
                continue
            for k, v in op.items():
                if k in ("op", "m", "via", "kind"):
                    continue
                if isinstance(v, list) and len(v) > 1 and k in ("xs", "ys"):
                    if k == "xs" and len(op.get("ys", [])) == len(v):
                        q = copy.deepcopy(plan)
                        q[name][i]["xs"], q[name][i]["ys"] = v[:1], op["ys"][:1]
                        yield q
                elif isinstance(v, bool) or v is None:
                    continue
                elif isinstance(v, int) and v > 1 and k in ("n", "max", "int", "s"):
                    for x in (1, v // 2):
                        q = copy.deepcopy(plan)
                        q[name][i][k] = x
                        yield q
                elif k in ("nd", "t", "cut", "int") and v:
                    q = copy.deepcopy(plan)
                    del q[name][i][k]
                    yield q
    w = plan.get("world")
    if isinstance(w, dict):
        plain = {"nan": 0.0, "dtype": "f8", "roi": None, "theta": None, "gamma": None, "dc": 0.0, "dry": None,
                 "ct": None, "model": None, "inp": "q", "give": "depth+stage", "dx": 1.0, "speed": 1.0,
                 "track": [], "verbose": None, "bed": "flat", "flow": "uniform", "stage": "flat"}
        for k, v in plain.items():
            if k in w and w[k] != v:
                q = copy.deepcopy(plan)
                q["world"][k] = v
                yield q
    for k in ("extreme",):
        if plan.get(k):
            q = copy.deepcopy(plan)
            q[k] = 0.0
            yield q


def shrink(check, plan, kind, budget=45.0, maxtries=600):
    t0, tries = REAL_TIME(), 0
    cur = plan
    progress = True
    while progress:
        progress = False
        for cand in list(check.simplify(cur)) + list(generic_smaller(cur)):
            if REAL_TIME() - t0 > budget or tries > maxtries:
                return cur, tries
            tries += 1
            r = isolated(check, cand)
            if r.get("v") and r["v"]["kind"] == kind:
                cur = cand
                progress = True
                break
    return cur, tries


def write_replay(check, seed, tier, body):
    os.makedirs(OUT, exist_ok=True)
    body = dict(property=check.id, seed=seed, tier=tier, **body)
    h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(OUT, "replay-%s-%s.json" % (check.id, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def fresh_replay(path):
    """Replay in a fresh process; returns its exit status."""
    env = {k: v for k, v in os.environ.items() if k != "VERIF_BOOTED"}
    p = subprocess.run([sys.executable, "-B", os.path.join(boot.VERIF, "sim", "run.py"), "--replay", path,
                        "--no-verify"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


def report(check, seed, tier, found):
    """Minimise, write the replay file, confirm it in a fresh process, print the VIOLATION line."""
    plan, v = found["plan"], found["v"]
    alone = isolated(check, plan)
    if alone.get("v") and alone["v"]["kind"] == v["kind"]:
        small, tries = shrink(check, plan, v["kind"])
        fin = isolated(check, small)
        body = {"plan": small, "violation": fin["v"], "run": found["index"], "shrink_tries": tries,
                "original_ops": len(plan.get("ops", []))}
        v = fin["v"]
    else:
        # depends on what the same process simulated before: keep the whole sequence of runs
        body = {"plan": plan, "violation": v, "run": found["index"],
                "sequence": [found["seq"][0], found["seq"][1], found["index"]]}
    path = write_replay(check, seed, tier, body)
    code, out = fresh_replay(path)
    print("violation of %s: %s" % (check.id, v["kind"]))
    print("  " + json.dumps(v["detail"], sort_keys=True)[:2000])
    print("  seed=%d run=%d; replay in a fresh process: %s" %
          (seed, found["index"], "reproduced" if code == 1 else "exit %d" % code))
    print("VIOLATION property=%s replay=%s" % (check.id, path))


def replay(path):
    with open(path) as f:
        body = json.load(f)
    boot.load()
    check = load_prop(body["property"])
    if "batch" in body:
        b = body["batch"]
        tally, viol, _ = search(check, b["seed"], body["tier"], b["start"], b["count"], jobs_default())
        bad = check.pooled(tally.pool, None)
        for kind, detail in bad:
            print("violation of %s: %s %s" % (check.id, kind, json.dumps(jsonable(detail))))
        if bad:
            print("VIOLATION property=%s replay=%s" % (check.id, path))
            return 1
        print("replay: no violation")
        return 0
    if "sequence" in body:
        r = isolated(check, body["plan"], body["sequence"], body["seed"], body["tier"])
    else:
        r = isolated(check, body["plan"])
    if r.get("error"):
        print(r["error"])
        return 2
    if r["v"] is None:
        print("replay: no violation")
        return 0
    same = r["v"] == body["violation"]
    print("violation of %s: %s (%s the recorded one)" % (check.id, r["v"]["kind"], "identical to" if same else "differs from"))
    print("  " + json.dumps(r["v"]["detail"], sort_keys=True)[:2000])
    print("VIOLATION property=%s replay=%s" % (check.id, path))
    return 1


def jobs_default():
    return max(1, min(8, len(boot.real_affinity(0))))


def evidence(check, tier, seed, tally, wall, violations, samples, extra=None):
    faults = {k[6:]: v for k, v in sorted(tally.c.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(tally.c.items()) if k.startswith("probe.")}
    ops = {k[3:]: v for k, v in sorted(tally.c.items()) if k.startswith("op.")}
    cov = {
        "evaluations": tally.runs,
        "distinct_nontrivial": len(tally.plans),
        "rule": check.rule,
        "samples": samples,
        "runs_per_hour": round(tally.runs / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(tally.runs / max(wall, 1e-9) * 3600),
        "seeds_note": "every run has its own seed, derived from (VERIF_SEED, property, run index)",
        "simulated_seconds": tally.simtime,
        "random_draws": tally.c.get("draws", 0),
        "moves": tally.c.get("moves", 0),
        "operations": ops,
        "faults_fired": faults,
        "probes": probes,
        "distinct_states": len(tally.states),
        "distinct_states_measure": check.states,
        "real_components": check.real,
        "stubbed_components": check.stub,
    }
    if extra:
        cov.update(extra)
    d = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
         "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(d, f, indent=1)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--no-verify", action="store_true")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--remote", action="store_true", help="serve one request of a check from stdin")
    a = ap.parse_args(argv)
    try:
        if a.selftest:
            import selftest
            return selftest.main(a)
        if a.remote:
            boot.load()
            sys.stdout.write("\n" + json.dumps(load_prop(a.prop).remote(json.load(sys.stdin))) + "\n")
            import fs
            fs.cleanup()
            return 0
        if a.replay:
            return replay(a.replay)
        return check_main(a)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2


def check_main(a):
    t0 = REAL_TIME()
    jobs = a.jobs or jobs_default()
    try:
        boot.load()
    except Exception as e:
        # the package cannot even be imported: every property of it is lost
        if not any("/dorado/" in f.filename for f in traceback.extract_tb(sys.exc_info()[2])):
            raise
        path = os.path.join(OUT, "replay-%s-import.json" % a.prop)
        os.makedirs(OUT, exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": a.prop, "import_error": repr(e)}, f)
        print("dorado cannot be imported: %r" % e)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    check = load_prop(a.prop)
    runs = a.runs or (check.quick if a.tier == "quick" else check.thorough)
    tier = "quick" if a.tier == "quick" else "thorough"
    print("%s tier=%s seed=%d runs=%d jobs=%d" % (check.id, tier, a.seed, runs, jobs))
    tally, viol, digests = search(check, a.seed, tier, a.start, runs, jobs, a.digests)
    if a.digests:
        for i in sorted(digests, key=int):
            print("D", i, digests[i])
    samples = [plan_for(check, a.seed, a.start + i, tier) for i in (0, 1)]
    nviol = 0
    if viol:
        report(check, a.seed, tier, viol[0])
        nviol = 1
    else:
        bad = check.pooled(tally.pool, None)
        if bad:
            # statistical: only believed if an independent sample says the same
            seed2 = a.seed + 1000003
            t2, v2, _ = search(check, seed2, tier, 0, runs, jobs)
            kinds = {k for k, _ in bad}
            again = [x for x in check.pooled(t2.pool, tally.pool) if x[0] in kinds]
            print("pooled statistics out of bounds: %s; independent sample: %s" %
                  (sorted(kinds), "the same" if again else "not confirmed"))
            if again:
                path = write_replay(check, a.seed, tier, {"batch": {"seed": seed2, "start": 0, "count": runs},
                                                          "violation": jsonable(again)})
                for kind, detail in again[:5]:
                    print("violation of %s: %s %s" % (check.id, kind, json.dumps(jsonable(detail))[:600]))
                print("VIOLATION property=%s replay=%s" % (check.id, path))
                nviol = 1
    known = known_ids(check.id)
    for fid in sorted(tally.known):
        print("KNOWN-FINDING: property=%s %s" % (check.id, known[fid]["what"]))
    wall = REAL_TIME() - t0
    if not a.no_evidence:
        extra = check.extra(tally) if hasattr(check, "extra") else None
        evidence(check, tier, a.seed, tally, wall, nviol, samples, extra)
    if not nviol:
        print("%s held on %d simulated runs (%d distinct states, %.1f s)" %
              (check.id, tally.runs, len(tally.states), wall))
    return 1 if nviol else 0
