"""Seam for thread scheduling: real threads, one running at a time, switched at executed lines of dorado.

Every thread waits on its own lock; the running one counts the lines of the package it executes (tracing
hook) and, when the schedule says so, hands over to another and waits.  The schedule is a list of
[thread, lines]; when it is used up, the threads run to completion one after the other.

Locks made by the package are simulated too: a thread that finds one taken hands over, and a state in which
every thread waits is reported as a deadlock.
"""
import dis
import os
import sys
import threading

import boot
import rng

_current = None


class Abandon(BaseException):
    pass


class Died(BaseException):
    """A thread ended from outside (interpreter exit, cancellation)."""


class Deadlock(Exception):
    """Every simulated thread waits for a lock of the package."""


_held = {}              # thread ident -> locks of the package it holds


def shielded(frame):
    """Is this no line at which an interrupt could arrive?  CPython delivers no signal between the last line of a
    with or try block and the call of __exit__ or of the first function of the finally block, but it does
    report a line there; so none is raised while the thread holds a lock of the package, or leaves a with."""
    if _held.get(threading.get_ident()):
        return True
    code, i = frame.f_code.co_code, frame.f_lasti
    ops = [dis.opname[code[i + 2 * k]] for k in range(4) if i + 2 * k < len(code)]
    return ops[:1] in (["PUSH_EXC_INFO"], ["WITH_EXCEPT_START"]) or \
        len(ops) == 4 and all(o in ("LOAD_CONST", "RETURN_CONST") for o in ops[:3]) and ops[3].startswith(("CALL", "PRECALL"))


class Baton:
    def __init__(self, fns, sched, streams=None, aborts=None):
        """fns: callables, one per thread.  aborts: {thread: line} the thread is ended there."""
        self.fns = fns
        self.sched = [tuple(x) for x in sched]
        self.pos = 0
        self.left = 0
        self.aborts = dict(aborts or {})
        self.lines = [0] * len(fns)
        self.alive = list(range(len(fns)))
        self.locks = [threading.Lock() for _ in fns]
        for lk in self.locks:
            lk.acquire()
        self.main = threading.Lock()
        self.main.acquire()
        self.errors = [None] * len(fns)
        self.aborted = [False] * len(fns)
        self.switches = []
        self.giveup = False
        self.root = os.path.join(os.path.abspath(boot.REPO), "dorado") + os.sep
        self.threads = []
        self.index = {}          # thread ident -> number
        self.waiting = {}        # number -> lock it waits for
        self.contended = 0
        self.dead = None

    # ---- scheduling
    def pick(self):
        """The next thread to run, or None if all of them wait for a lock."""
        while self.pos < len(self.sched):
            t, n = self.sched[self.pos]
            self.pos += 1
            t = t % len(self.fns)
            if t in self.alive and n > 0 and t not in self.waiting:
                self.left = n
                return t
        self.left = 1 << 60
        return next((t for t in self.alive if t not in self.waiting), None)

    def stuck(self):
        self.giveup = True
        for lk in self.locks:
            try:
                lk.release()
            except RuntimeError:
                pass
        self.main.release()

    def block(self, i, lock):
        """Thread i found `lock` taken."""
        self.contended += 1
        self.waiting[i] = lock
        t = self.pick()
        if t is None:
            self.dead = Deadlock("threads %s wait for locks for ever" % sorted(self.waiting))
            self.stuck()
            raise self.dead
        self.switches.append((t, self.lines[i]))
        self.locks[t].release()
        self.locks[i].acquire()
        if self.giveup:
            raise Abandon()

    def freed(self, lock):
        for i in [i for i, lk in self.waiting.items() if lk is lock]:
            del self.waiting[i]

    def tick(self, i, frame):
        if self.giveup:
            raise Abandon()
        self.lines[i] += 1
        if self.aborts.get(i) is not None and self.lines[i] >= self.aborts[i] and not shielded(frame):
            self.aborts[i] = None
            self.aborted[i] = True
            raise Died("simulated end of a thread")
        self.left -= 1
        if self.left < 0:
            t = self.pick()
            self.left -= 1
            if t is not None and t != i:
                self.switches.append((t, self.lines[i]))
                self.locks[t].release()
                self.locks[i].acquire()
                if self.giveup:
                    raise Abandon()

    def body(self, i):
        ident = threading.get_ident()
        self.index[ident] = i
        _held.pop(ident, None)
        self.locks[i].acquire()

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None

        def local(frame, event, arg):
            if event == "line":
                self.tick(i, frame)
            return local
        try:
            if not self.giveup:
                sys.settrace(glob)
                self.fns[i]()
        except Abandon:
            pass
        except BaseException as e:
            self.errors[i] = e
        finally:
            sys.settrace(None)
            rng.use_thread(ident, None)
            self.alive.remove(i)
            if not self.giveup:
                if self.alive:
                    t = self.pick()
                    if t is None:
                        self.dead = Deadlock("a thread ended holding a lock others wait for")
                        self.stuck()
                        return
                    self.switches.append((t, self.lines[i]))
                    self.locks[t].release()
                else:
                    self.main.release()

    def run(self):
        global _current
        _current = self
        self.threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in self.threads:
            t.start()
        self.locks[self.pick()].release()
        while not self.main.acquire(timeout=0.5):
            pass
        for t in self.threads:
            t.join()
        _current = None
        if self.dead is not None:
            raise self.dead

    def stop(self):
        """Give up: every thread leaves at its next line."""
        self.giveup = True
        for lk in self.locks:
            try:
                lk.release()
            except RuntimeError:
                pass
        for t in self.threads:
            t.join(20)


def abandon():
    global _current
    if _current is not None:
        b, _current = _current, None
        b.stop()


# ---- locks of the package
_Lock, _RLock = threading.Lock, threading.RLock


class SimLock:
    """threading.Lock / RLock: real outside a simulated schedule, a scheduling point inside one."""

    def __init__(self, re=False):
        self._re, self._real, self._owner, self._n = re, _Lock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        b = _current
        i = b.index.get(me) if b is not None else None
        if i is not None and b.giveup:
            raise Abandon()
        if i is None:
            # nobody else runs: a lock that is taken now was left behind by a thread that is gone
            ok = self._real.acquire(blocking, 1 if blocking and timeout < 0 else timeout)
            if not ok and blocking and timeout < 0:
                raise Deadlock("a lock is held by a thread that has ended")
        else:
            tries = 0
            while True:
                ok = self._real.acquire(False)
                if ok or not blocking or timeout >= 0 and tries > 50:
                    break
                tries += 1
                b.block(i, self)
        if ok:
            self._owner, self._n = me, 1
            _held[me] = _held.get(me, 0) + 1
        return ok

    __enter__ = acquire

    def release(self):
        if self._re and self._owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._re and self._n:
            return
        if self._owner is not None:
            _held[self._owner] = _held.get(self._owner, 1) - 1
        self._owner = None
        self._real.release()
        b = _current
        if b is not None:
            b.freed(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._real.locked()


def install():
    def ours():
        return sys._getframe(2).f_globals.get("__name__", "").split(".")[0] == "dorado"
    threading.Lock = lambda: SimLock() if ours() else _Lock()
    threading.RLock = lambda: SimLock(True) if ours() else _RLock()
