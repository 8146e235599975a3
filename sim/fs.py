"""Seam for disk I/O.

Files below the active session's scratch root are opened through a raw layer (FaultyRaw) under the
real buffered/text stack, so dorado, json, numpy and matplotlib run their real code while every
open, read, write, close, mkdir and listing may be made to fail, fall short, be torn or be the last
thing the process does.  Everything else passes through untouched.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

_open = io.open
_mkdir, _listdir, _scandir = os.mkdir, os.listdir, os.scandir
_replace, _rename, _remove = os.replace, os.rename, os.remove
_os_open, _os_write, _os_close = os.open, os.write, os.close
_fds = {}             # descriptors opened through os.open below the active scratch root: [session, path, position]


class SimCrash(BaseException):
    """The simulated process died here; nothing after this point reaches the disk."""


ACTIVE = None

ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
       "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT}


def _oserr(kind, path):
    n = ERR[kind]
    return OSError(n, os.strerror(n) + " [simulated]", path)


class Session:
    """One simulated disk: a scratch root and a list of faults.

    fault = {"op": "open"|"write"|"close"|"mkdir"|"listdir"|"read", "match": substring of the path or
             None, "nth": which matching event (0-based), "at": byte offset (write/read), "kind": ...}
    kinds: errno names; "short" (partial write/read, legal); "short-sticky"; "crash"; "eof" (read ends
    early); "lose" (close reports an error after the buffered tail was lost)
    """

    def __init__(self, root, faults=(), list_key=None):
        self.root = os.path.abspath(root)
        self.faults = [dict(f, _seen=0) for f in faults]
        self.list_key = list_key
        self.dead = False
        self.fired = []
        self.counts = {}
        self.opened = []
        self.lists = 0

    def covers(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def event(self, op, path, span=None):
        """Count an event; return the fault that hits it, if any.  span=(lo, hi) bytes for read/write."""
        self.counts[op] = self.counts.get(op, 0) + 1
        for f in self.faults:
            if f["op"] != op or f.get("done"):
                continue
            if f.get("match") and f["match"] not in path:
                continue
            if span is not None and f.get("at") is not None:
                if not (span[0] <= f["at"] < span[1]):
                    continue
            else:
                k = f["_seen"]
                f["_seen"] = k + 1
                if k != f.get("nth", 0):
                    continue
            if not f.get("sticky"):
                f["done"] = True
            self.fired.append((op, f["kind"]))
            return f
        return None

    def crash(self):
        self.dead = True
        raise SimCrash("simulated process death")

    def __enter__(self):
        global ACTIVE
        self._outer, ACTIVE = ACTIVE, self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self._outer


class FaultyRaw(io.FileIO):
    def __init__(self, sess, path, mode, fd=None):
        self._sess, self._p = sess, path
        self._pos = 0
        super().__init__(path if fd is None else fd, mode)
        if "a" in mode:
            self._pos = os.path.getsize(path)

    def fileno(self):
        # keeps numpy and PIL from going around this layer
        raise io.UnsupportedOperation("fileno")

    def seek(self, *a):
        self._pos = super().seek(*a)
        return self._pos

    def write(self, b):
        s = self._sess
        if s.dead:
            return len(b)
        n = len(b)
        f = s.event("write", self._p, (self._pos, self._pos + max(n, 1)))
        if f is not None:
            part = max(0, f["at"] - self._pos) if f.get("at") is not None else 0
            kind = f["kind"]
            if part:
                super().write(memoryview(b)[:part])
                self._pos += part
            if kind == "crash":
                s.crash()
            if kind == "short" and part:
                return part
            if kind == "short":
                w = super().write(memoryview(b)[:max(1, n // 2)])
                self._pos += w
                return w
            if part:
                # as a real disk: first the short count, then the error on the next write
                f2 = dict(f, at=None, done=False, _seen=0, nth=0, match=self._p)
                s.faults.append(f2)
                return part
            raise _oserr(kind, self._p)
        w = super().write(b)
        self._pos += w
        return w

    def _read_fault(self, want):
        s = self._sess
        f = s.event("read", self._p, (self._pos, self._pos + max(want, 1)))
        if f is None:
            return None, want
        keep = max(0, f["at"] - self._pos) if f.get("at") is not None else 0
        if f["kind"] == "short":
            return None, max(1, min(want, keep or want // 2 or 1))
        if f["kind"] == "eof":
            self._eof = True
            return None, keep
        if f["kind"] == "crash":
            s.crash()
        raise _oserr(f["kind"], self._p)

    _eof = False

    def readinto(self, b):
        if self._eof:
            return 0
        m = memoryview(b).cast("B")
        _, n = self._read_fault(len(m))
        if n == 0:
            return 0
        r = super().readinto(m[:n])
        self._pos += r or 0
        return r

    def readall(self):
        out = b""
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def close(self):
        if self.closed:
            return
        s = self._sess
        try:
            f = None if s.dead else s.event("close", self._p)
            if f is not None and self.writable():
                if f["kind"] == "crash":
                    s.crash()
                if f["kind"] == "lose":
                    # write-back failed: the tail is gone and close() says so (as on NFS)
                    try:
                        os.truncate(self._p, max(0, self._pos - f.get("lost", 1)))
                    except OSError:
                        pass
                    raise _oserr("EIO", self._p)
                raise _oserr(f["kind"], self._p)
        finally:
            super().close()


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
              opener=None):
    s = ACTIVE
    if s is not None and isinstance(file, int) and file in _fds and _fds[file][0] is s and closefd:
        path = _fds.pop(file)[1]
        return _stack(FaultyRaw(s, path, mode.replace("b", "").replace("t", ""), file), mode, buffering, encoding,
                      errors, newline)
    if s is None or isinstance(file, int) or opener is not None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = s.covers(file)
    if path is None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if s.dead:
        if writing:
            raise SimCrash("open after death")
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    _open_event(s, path, writing)
    s.opened.append((mode, path))
    return _stack(FaultyRaw(s, path, mode.replace("b", "").replace("t", "")), mode, buffering, encoding, errors,
                  newline)


def _open_event(s, path, writing):
    f = s.event("open" if writing else "open-r", path)
    if f is not None:
        if f["kind"] == "crash":
            s.crash()
        if f["kind"] == "vanish":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory [simulated]", path)
        raise _oserr(f["kind"], path)


def _stack(raw, mode, buffering, encoding, errors, newline):
    binary = "b" in mode
    writing = any(c in mode for c in "wax+")
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else 8192
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    text.mode = mode
    return text


def _sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = ACTIVE
    p = s.covers(path) if s is not None and dir_fd is None else None
    if p is None or flags & getattr(os, "O_DIRECTORY", 0):
        return _os_open(path, flags, mode, dir_fd=dir_fd)
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR))
    if s.dead:
        if writing:
            raise SimCrash("open after death")
        return _os_open(path, flags, mode)
    _open_event(s, p, writing)
    fd = _os_open(path, flags, mode)
    _fds[fd] = [s, p, os.path.getsize(path) if flags & os.O_APPEND else 0]
    return fd


def _sim_os_write(fd, data):
    h = _fds.get(fd)
    if h is None or h[0] is not ACTIVE:
        return _os_write(fd, data)
    s, p, pos = h
    n = len(data)
    if s.dead:
        return n
    f = s.event("write", p, (pos, pos + max(n, 1)))
    if f is not None:
        part = max(0, f["at"] - pos) if f.get("at") is not None else 0
        if f["kind"] == "short":
            part = part or max(1, n // 2)
        if part:
            w = _os_write(fd, memoryview(data)[:part])
            h[2] += w
        if f["kind"] == "crash":
            s.crash()
        if f["kind"] != "short" and part:
            s.faults.append(dict(f, at=None, done=False, _seen=0, nth=0, match=p))
        if part:
            return part
        raise _oserr(f["kind"], p)
    w = _os_write(fd, data)
    h[2] += w
    return w


def _sim_os_close(fd):
    h = _fds.pop(fd, None)
    if h is not None and h[0] is ACTIVE and not h[0].dead:
        s, p, pos = h
        f = s.event("close", p)
        if f is not None and pos:
            if f["kind"] == "lose":
                os.ftruncate(fd, max(0, pos - f.get("lost", 1)))
            _os_close(fd)
            if f["kind"] == "crash":
                s.crash()
            raise _oserr("EIO" if f["kind"] == "lose" else f["kind"], p)
    return _os_close(fd)


def _sim_mkdir(path, *a, **k):
    s = ACTIVE
    if s is not None and s.covers(path):
        if s.dead:
            raise SimCrash("mkdir after death")
        if os.path.lexists(path):
            return _mkdir(path, *a, **k)       # EEXIST comes first
        f = s.event("mkdir", s.covers(path))
        if f is not None:
            if f["kind"] == "crash":
                s.crash()
            raise _oserr(f["kind"], os.fspath(path))
    return _mkdir(path, *a, **k)


def _shuffle(items, key):
    import rng
    return sorted(items, key=lambda x: rng.mix("ls", key, os.fsdecode(getattr(x, "name", x))))


def _sim_listdir(path="."):
    out = _listdir(path)
    s = ACTIVE
    if s is not None and s.covers(path):
        f = s.event("listdir", s.covers(path))
        if f is not None:
            raise _oserr(f["kind"], os.fspath(path))
        if s.list_key is not None:
            s.lists += 1
            out = _shuffle(out, s.list_key + s.lists)
    return out


class _Scan:
    def __init__(self, it, items):
        self._it, self._items = it, iter(items)

    def __iter__(self):
        return self._items

    def __next__(self):
        return next(self._items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._it.close()

    def close(self):
        self._it.close()


def _sim_scandir(path="."):
    it = _scandir(path)
    s = ACTIVE
    if s is not None and not isinstance(path, int) and s.covers(path) and s.list_key is not None:
        s.lists += 1
        return _Scan(it, _shuffle(list(it), s.list_key + s.lists))
    return it


def _guard(real):
    def g(*a, **k):
        s = ACTIVE
        if s is not None and s.dead and any(isinstance(x, (str, bytes, os.PathLike)) and s.covers(x) for x in a):
            raise SimCrash("after death")
        return real(*a, **k)
    return g


def install():
    builtins.open = _sim_open
    io.open = _sim_open
    os.open, os.write, os.close = _sim_os_open, _sim_os_write, _sim_os_close
    os.mkdir = _sim_mkdir
    os.listdir = _sim_listdir
    os.scandir = _sim_scandir
    os.replace = _guard(_replace)
    os.rename = _guard(_rename)
    os.remove = _guard(_remove)


_scratch = None


def scratch():
    """This process's scratch root (removed by cleanup())."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="verif-dst-%d-" % os.getpid(), dir="/tmp"))
    return _scratch[1]


def fresh(name):
    d = os.path.join(scratch(), name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    _mkdir(d)
    return d


def cleanup():
    global _scratch
    if _scratch is not None and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None
