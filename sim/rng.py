"""Seam for randomness.

dorado draws from numpy's legacy global generator (np.random.uniform, numpy.random.random,
np.random.rand).  numpy lets that generator be re-based on any BitGenerator; SimBits is one whose
every output is decided here, from one integer key.  Beyond plain pseudo-random output it can

* serve extreme values (exactly 0.0, the largest double below 1, 2**-53, ...) with a given rate,
* count draws, and raise Ctrl-C (KeyboardInterrupt) on return from the call making the k-th draw,
* keep one stream per simulated thread,
* be re-keyed by the scheduler before any operation, so that "the same random draws" can be given
  to two histories whose number of earlier draws differs.
"""
import ctypes
import _thread
import threading
import os

M64 = (1 << 64) - 1


def mix(*parts):
    """splitmix-style hash of integers/strings to 64 bits (stable across processes)."""
    h = 0x9E3779B97F4A7C15
    for p in parts:
        if isinstance(p, str):
            q = 0
            for ch in p.encode():
                q = (q * 0x100000001B3 + ch + 1) & M64
            p = q
        h = (h ^ (p & M64)) * 0xBF58476D1CE4E5B9 & M64
        h ^= h >> 31
        h = (h + 0x9E3779B97F4A7C15) & M64
        h = (h ^ (h >> 27)) * 0x94D049BB133111EB & M64
        h ^= h >> 30
    return h


EXTREMES = (0.0, 1.0 - 2.0 ** -53, 2.0 ** -53, 0.5, 1.0 - 2.0 ** -52, 2.0 ** -52)


# A Ctrl-C due: delivered, through the profiling hook, on return from the call that made the draw (a
# signal raised inside numpy's callback into this module would be lost there).
PENDING = []


def deliver(frame, event, arg):
    if PENDING and frame.f_code.co_filename != __file__:
        PENDING.clear()
        raise KeyboardInterrupt


class Stream:
    """One stream of draws (xorshift-multiply counter generator)."""

    __slots__ = ("key", "n", "doubles", "extreme", "extremes", "script", "interrupt_at", "fired",
                 "hit", "log")

    def __init__(self, key=0, extreme=0.0, extremes=EXTREMES, script=None, interrupt_at=None, log=None):
        self.key = key & M64
        self.n = 0                      # raw outputs so far
        self.doubles = 0
        self.extreme = int(extreme * 2 ** 32)
        self.extremes = extremes
        self.script = script            # list of doubles served first
        self.interrupt_at = interrupt_at
        self.fired = 0                  # interrupts raised
        self.hit = 0                    # extreme values served
        self.log = log

    def next64(self):
        self.n += 1
        z = (self.key + self.n * 0x9E3779B97F4A7C15) & M64
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        return z ^ (z >> 31)

    def next_double(self):
        d = self.doubles
        self.doubles = d + 1
        if self.interrupt_at is not None and d == self.interrupt_at:
            self.fired += 1
            self.interrupt_at = None
            PENDING.append(d)
        if self.script is not None and d < len(self.script):
            v = self.script[d]
        else:
            z = self.next64()
            if self.extreme and (z & 0xFFFFFFFF) < self.extreme:
                self.hit += 1
                v = self.extremes[(z >> 40) % len(self.extremes)]
            else:
                v = (z >> 11) * (1.0 / 9007199254740992.0)
        if self.log is not None:
            self.log.append(v)
        return v


_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _bitgen_t(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", _U64), ("next_uint32", _U32),
                ("next_double", _DBL), ("next_raw", _U64)]


_cur = Stream(1)          # stream of the main thread
_by_thread = {}           # thread ident -> Stream, for simulated threads


def _s():
    if _by_thread:
        return _by_thread.get(_thread.get_ident(), _cur)
    return _cur


def _n64(_):
    return _s().next64()


def _n32(_):
    return _s().next64() >> 32


def _nd(_):
    return _s().next_double()


_cb = (_U64(_n64), _U32(_n32), _DBL(_nd), _U64(_n64))
_struct = _bitgen_t(None, _cb[0], _cb[1], _cb[2], _cb[3])
_NAME = b"BitGenerator"
_cap = ctypes.pythonapi.PyCapsule_New
_cap.restype = ctypes.py_object
_cap.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]


class SimBits:
    """Duck-typed numpy BitGenerator over the current Stream.  np.random.seed(x) and
    get_state/set_state work: seeding re-keys the current stream, as a user's call would."""

    def __init__(self, seed=None):
        self.lock = threading.RLock()
        self.capsule = _cap(ctypes.addressof(_struct), _NAME, None)
        self.seed_key = None
        if seed is None:
            self.seed_key = entropy64()
        else:
            import numpy as np
            self.seed_key = mix("seed", *[int(x) for x in np.atleast_1d(np.asarray(seed)).ravel()])

    @property
    def state(self):
        s = _s()
        return {"bit_generator": "SimBits", "state": {"key": self.seed_key if self.seed_key is not None else s.key,
                                                      "n": 0 if self.seed_key is not None else s.n}}

    @state.setter
    def state(self, v):
        s = _s()
        s.key, s.n = v["state"]["key"] & M64, v["state"]["n"]
        self.seed_key = None


_entropy = [0x1234567, 0]
_real = {}


def entropy64():
    _entropy[1] += 1
    return mix("entropy", _entropy[0], _entropy[1])


def set_entropy(key):
    _entropy[0], _entropy[1] = key, 0


def _urandom(n):
    out = b""
    while len(out) < n:
        out += entropy64().to_bytes(8, "little")
    return out[:n]


_installed = None


def install():
    """Put numpy's global generator and all fresh-entropy sources behind the seam."""
    global _installed
    if _installed is not None:
        return
    import numpy as np
    import random as pyrandom
    _real["generator"] = np.random.Generator
    _real["pcg"] = np.random.PCG64
    _real["mt"] = np.random.get_bit_generator()
    _installed = SimBits(0)
    _installed.seed_key = None
    np.random.set_bit_generator(_installed)
    real_default_rng = np.random.default_rng

    def default_rng(seed=None):
        return real_default_rng(entropy64() if seed is None else seed)
    np.random.default_rng = default_rng
    _real["urandom"] = os.urandom
    os.urandom = _urandom
    pyrandom.seed(0)


def use(stream):
    """Make `stream` the main thread's source of draws; returns the previous one."""
    global _cur
    old, _cur = _cur, stream
    return old


def current():
    return _cur


def use_thread(ident, stream):
    if stream is None:
        _by_thread.pop(ident, None)
    else:
        _by_thread[ident] = stream


def use_real_mt(seed):
    """Switch the process to numpy's own MT19937 (parallel checks: real seeding semantics)."""
    import numpy as np
    np.random.set_bit_generator(_real["mt"])
    np.random.seed(seed)


def use_sim():
    import numpy as np
    np.random.set_bit_generator(_installed)


def nprng(key):
    """A private numpy Generator for building inputs; independent of the seams."""
    return _real["generator"](_real["pcg"](key & M64))
