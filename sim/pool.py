"""Seam for worker processes.

A stand-in for multiprocessing.Pool: tasks and results are really pickled and really run in forked
processes that share nothing with the caller, but which worker takes which task, in which order workers
start and finish, which die and which raise, is decided by the simulator's seeded scheduler.
"""
import gc
import heapq
import os
import pickle
import random
import signal
import struct
import sys
import traceback

import rng

ACTIVE = None         # the Cluster of the current simulated run
_real = {}


class Cluster:
    """Scheduling and faults of the pools created during one simulated call.

    start: "fork" | "spawn".  faults: list of dicts
      {"kind": "raise", "task": i, "line": k, "what": w}   the i-th task started raises at its k-th executed line
      {"kind": "kill", "task": i}                 its worker dies (OOM kill) while executing it
      {"kind": "kill-idle", "task": i}            a worker dies before the i-th task is handed out; replaced
      {"kind": "no-fork", "worker": i}            the i-th worker cannot be created
      {"kind": "ctrl-c", "task": i}               the user interrupts the caller while it waits
    """

    def __init__(self, key, start="fork", faults=(), cpus=8):
        self.cpus = cpus
        self.r = random.Random(key)
        self.start = start
        self.faults = [dict(f) for f in faults]
        self.pools = []
        self.fired = []
        self.tasks = 0
        self.forks = 0
        self.trace = []

    def fault(self, kind, **match):
        for f in self.faults:
            if f["kind"] == kind and not f.get("done") and all(f.get(k) == v for k, v in match.items()):
                f["done"] = True
                self.fired.append(kind)
                return f
        return None

    def __enter__(self):
        global ACTIVE
        import boot
        self._outer, ACTIVE = ACTIVE, self
        self._cpus, boot.CPUS[0] = boot.CPUS[0], self.cpus
        return self

    def __exit__(self, *a):
        global ACTIVE
        import boot
        boot.CPUS[0] = self._cpus
        ACTIVE = self._outer
        for p in self.pools:
            p._kill()

    def left_behind(self):
        gc.collect()
        return sum(1 for p in self.pools if p._state == "run" and p._alive())


def _read(fd, n):
    out = []
    while n:
        c = os.read(fd, min(n, 1 << 20))
        if not c:
            return None
        out.append(c)
        n -= len(c)
    return b"".join(out)


def _frame(fd, data):
    mv = memoryview(struct.pack("q", len(data)) + data)
    while mv:
        mv = mv[os.write(fd, mv):]


def _recv(fd):
    h = _read(fd, 8)
    return None if h is None else _read(fd, struct.unpack("q", h)[0])


FAILURES = {"memory": MemoryError, "os": OSError, "io": BlockingIOError, "value": ValueError,
            "runtime": RuntimeError, "index": IndexError, "eof": EOFError, "timeout": TimeoutError}


class _RaiseAtLine:
    """Tracing hook: an exception at the k-th line of the package executed by a task."""

    def __init__(self, k, what=None):
        self.k = k
        self.what = FAILURES[what or "memory"]
        import boot
        self.root = os.path.join(os.path.abspath(boot.REPO), "dorado") + os.sep

    def __call__(self, frame, event, arg):
        if not os.path.abspath(frame.f_code.co_filename).startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.k -= 1
            if self.k < 0:
                sys.settrace(None)
                raise self.what("simulated failure in a worker")
        return self.line


class Worker:
    def __init__(self, cluster, index, initializer, initargs, spawn):
        self.busy = False
        self.done = 0
        a, b = os.pipe(), os.pipe()
        entropy = rng.entropy64()
        pid = cluster.r.randrange(2, 1 << 22)       # what the worker takes for its process id
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                parent = os.getppid()
                os.getpid = lambda: pid
                self.identify(cluster.forks + 1, parent)
                self.serve(a[0], b[1], initializer, initargs, spawn, entropy)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r = a[1], b[0]
        cluster.forks += 1

    @staticmethod
    def identify(k, parent):
        """What multiprocessing tells a pool worker about itself."""
        import multiprocessing as mp
        p = mp.Process(name="ForkPoolWorker-%d" % k, daemon=True)
        p._identity = (k,)
        mp.process._current_process = p
        mp.process._parent_process = mp.process._ParentProcess("MainProcess", parent, None)
        mp.process._children = set()

    @staticmethod
    def serve(rd, wr, initializer, initargs, spawn, entropy):
        import numpy as np
        if spawn:
            # a fresh interpreter: the caller's random state is not inherited
            np.random.seed(np.array([entropy & 0xFFFFFFFF, entropy >> 32], dtype=np.uint32))
        over = [False]

        def late(sig, frame):
            over[0] = True
            raise TimeoutError("a worker made no progress")
        signal.signal(signal.SIGVTALRM, late)
        if initializer is not None:
            initializer(*initargs)
        while True:
            msg = _recv(rd)
            if msg is None:
                return
            signal.setitimer(signal.ITIMER_VIRTUAL, 20)
            fault, star, payload = pickle.loads(msg)
            trap = None
            if fault is not None:
                trap = _RaiseAtLine(*fault)
                sys.settrace(trap)
            try:
                func, items = pickle.loads(payload)
                res = (True, [func(*a, **k) if star == "call" else func(*a) if star else func(a)
                              for a, k in items])
            except Exception as e:
                sys.settrace(None)
                e.__traceback__ = None
                res = (False, e)
            finally:
                sys.settrace(None)
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            res += (trap is not None and trap.k < 0,)
            try:
                data = pickle.dumps(res)
            except Exception as e:
                data = pickle.dumps((False, RuntimeError("result could not be sent: %r" % (e,)), False))
            _frame(wr, data)

    def run(self, fault, star, payload):
        _frame(self.w, pickle.dumps((fault, star, payload)))
        data = _recv(self.r)
        self.done += 1
        if data is None:
            return (False, RuntimeError("worker died"), False)
        return pickle.loads(data)

    def kill(self):
        if self.pid is None:
            return
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.w)
        os.close(self.r)
        self.pid = None


class Result:
    """AsyncResult.  What comes out has been decided by the time it exists; when (on the pool's simulated
    clock) decides in which order callbacks run."""

    def __init__(self, pool, when, ok, value, hang, callback=None, error_callback=None):
        self.pool, self.when = pool, when
        self.ok, self.value, self.hang = ok, value, hang
        if not hang:
            pool._pending.append((when, len(pool._pending), (callback if ok else error_callback), value))

    def get(self, timeout=None):
        self.wait(timeout)
        if self.hang or not self.ready():
            import multiprocessing
            raise multiprocessing.TimeoutError
        if self.ok:
            return self.value
        raise self.value

    def wait(self, timeout=None):
        if self.hang and timeout is None:
            raise KeyboardInterrupt      # the user gives up on a call that never returns
        if timeout is None or timeout >= 1 and not self.hang:
            self.pool._until(self.when)
        else:
            self.pool._tick()

    def ready(self):
        if self.hang:
            self.pool._tick()
            return False
        if self.when > self.pool._now:
            self.pool._tick()
        return self.when <= self.pool._now

    def successful(self):
        if self.hang or self.when > self.pool._now:
            raise ValueError("not ready")
        return self.ok


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None,
                 start=None):
        self._c = ACTIVE
        self._init = (initializer, tuple(initargs))
        self._max = maxtasksperchild
        self._n = processes if processes is not None else os.cpu_count()
        self._spawn = (start or self._c.start) != "fork"
        self._state = "run"
        self._w = []
        self._heap = None        # (time, tie, worker) of workers becoming free
        self._pending = []       # (time, tie, callback, value) of results on their way
        self._now = 0.0
        self._idle = 0
        if self._n < 1:
            raise ValueError("Number of processes must be at least 1")
        try:
            for _ in range(self._n):
                self._new()
        except OSError:
            self._kill()
            raise
        self._c.pools.append(self)

    def _new(self):
        if self._c.fault("no-fork", worker=self._c.forks) is not None:
            raise BlockingIOError(11, "Resource temporarily unavailable [simulated]")
        self._w.append(Worker(self._c, len(self._w), self._init[0], self._init[1], self._spawn))

    def _alive(self):
        return sum(1 for w in self._w if w.pid is not None)

    def _kill(self):
        for w in self._w:
            w.kill()

    # ---- the clock of this pool
    def _until(self, when):
        """Wait for the simulated moment `when`: results that arrive before it are handled in order."""
        self._now = max(self._now, when)
        while True:
            due = [x for x in self._pending if x[0] <= self._now]
            if not due:
                return
            x = min(due, key=lambda x: x[:2])
            self._pending.remove(x)
            if x[2] is not None:
                x[2](x[3])

    def _tick(self):
        """One poll of the caller: the next result arrives."""
        self._idle += 1
        if self._idle > 10000:
            raise KeyboardInterrupt      # polling for something that never comes
        if self._pending:
            self._until(min(x[0] for x in self._pending))

    # ---- the scheduler
    def _execute(self, func, items, star, chunksize):
        """[(ok, values or exception)] per chunk in task order, completion order, and whether a task
        was lost for ever.  items: [(args, kwargs)]"""
        if self._state != "run":
            raise ValueError("Pool not running")
        c = self._c
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._n * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        res = [None] * len(chunks)
        order = []
        if self._heap is None:
            self._heap = []
            for w in self._w:
                if w.pid is not None:
                    heapq.heappush(self._heap, (c.r.expovariate(1.0), c.r.random(), w))
        ready = self._heap
        lost = False
        done = []
        for i, ch in enumerate(chunks):
            g = c.tasks
            c.tasks += 1
            if c.fault("ctrl-c", task=g):
                raise KeyboardInterrupt
            if c.fault("kill-idle", task=g) and ready:
                t, _, w = heapq.heappop(ready)
                w.kill()
                self._new()
                heapq.heappush(ready, (t + 1, c.r.random(), self._w[-1]))
            if not ready:
                # every worker was lost: the pool replaces them
                self._new()
                heapq.heappush(ready, (c.r.random(), c.r.random(), self._w[-1]))
            t, _, w = heapq.heappop(ready)
            payload = pickle.dumps((func, ch))
            c.trace.append((g, self._w.index(w)))
            if c.fault("kill", task=g):
                w.kill()
                lost = True
                self._new()
                heapq.heappush(ready, (t + 2, c.r.random(), self._w[-1]))
                continue
            f = next((f for f in c.faults if f["kind"] == "raise" and f["task"] == g), None)
            res[i] = w.run(None if f is None else (f["line"], f.get("what")), star, payload)
            if res[i][2]:
                c.fired.append("raise")
            t2 = t + c.r.expovariate(1.0) * c.r.choice([0.1, 1, 1, 10])
            done.append((t2, i))
            if self._max is not None and w.done >= self._max:
                w.kill()
                self._new()
                w = self._w[-1]
            heapq.heappush(ready, (t2, c.r.random(), w))
        order = [i for _, i in sorted(done)]
        c.trace.append(tuple(order))
        return res, order, lost, dict((i, t) for t, i in done)

    def _map(self, func, items, star, chunksize, callback=None, error_callback=None):
        res, order, lost, when = self._execute(func, items, star, chunksize)
        if lost:
            return Result(self, float("inf"), None, None, True)
        end = max(when.values()) if when else self._now
        for i in order:
            if not res[i][0]:
                return Result(self, end, False, res[i][1], False, callback, error_callback)
        return Result(self, end, True, [v for r in res for v in r[1]], False, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self._map(func, [(x, None) for x in iterable], False, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, [(x, None) for x in iterable], False, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, [(tuple(x), None) for x in iterable], True, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, [(tuple(x), None) for x in iterable], True, chunksize, callback, error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        res, _, lost, when = self._execute(func, [(tuple(args), dict(kwds))], "call", 1)
        if lost:
            return Result(self, float("inf"), None, None, True)
        ok, v = res[0][:2]
        return Result(self, when[0], ok, v[0] if ok else v, False, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _imap(self, func, iterable, chunksize, ordered):
        items = [(x, None) for x in iterable]
        res, order, lost, _ = self._execute(func, items, False, chunksize or 1)

        def it():
            for i in (range(len(res)) if ordered else order):
                if res[i] is None:
                    raise KeyboardInterrupt
                if not res[i][0]:
                    raise res[i][1]
                yield from res[i][1]
            if lost:
                raise KeyboardInterrupt
        return it()

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        if self._state == "run":
            self._state = "close"

    def terminate(self):
        self._state = "terminate"
        self._kill()

    def join(self):
        if self._state == "run":
            raise ValueError("Pool is still running")
        if self._state == "close":
            self._until(float("inf"))
        self._kill()

    def __enter__(self):
        if self._state != "run":
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()


def install():
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.pool
    _real["pool"] = multiprocessing.pool.Pool
    real_ctx = multiprocessing.context.BaseContext.Pool

    def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None, *a, **k):
        """multiprocessing.Pool, simulated while a Cluster is active."""
        if ACTIVE is None:
            return multiprocessing.get_context().Pool(processes, initializer, initargs, maxtasksperchild)
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if ACTIVE is None:
            return real_ctx(self, processes, initializer, initargs, maxtasksperchild)
        return SimPool(processes, initializer, initargs, maxtasksperchild, start=self.get_start_method())

    multiprocessing.Pool = Pool
    multiprocessing.context.BaseContext.Pool = ctx_pool

    class PoolClass(multiprocessing.pool.Pool):
        def __new__(cls, *a, **k):
            if ACTIVE is None:
                return super().__new__(cls)
            k.pop("context", None)
            return SimPool(*a, **k)
    multiprocessing.pool.Pool = PoolClass
