"""Simulated process death with a fresh process taking over: a standby child, forked before the first
process does anything, that knows nothing but what it is sent."""
import json
import os
import signal
import struct
import traceback


def _send(fd, obj):
    data = json.dumps(obj).encode()
    mv = memoryview(struct.pack("q", len(data)) + data)
    while mv:
        mv = mv[os.write(fd, mv):]


def _recv(fd):
    head = b""
    while len(head) < 8:
        c = os.read(fd, 8 - len(head))
        if not c:
            return None
        head += c
    n = struct.unpack("q", head)[0]
    out = []
    while n:
        c = os.read(fd, min(n, 1 << 20))
        if not c:
            return None
        out.append(c)
        n -= len(c)
    return json.loads(b"".join(out))


class Standby:
    def __init__(self, fn, cpu=25):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(a[1])
                os.close(b[0])
                req = _recv(a[0])
                if req is not None:
                    def over(sig, frame):
                        raise TimeoutError("no progress within %d CPU seconds" % cpu)
                    signal.signal(signal.SIGVTALRM, over)
                    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
                    try:
                        res = fn(req)
                    except BaseException as e:
                        import session
                        if isinstance(e, session.Violation):
                            from harness import jsonable
                            res = {"violation": [e.kind, jsonable(e.detail)]}
                        else:
                            res = {"error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:],
                                   "harness": isinstance(e, session.HarnessError)}
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                    _send(b[1], res)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r = a[1], b[0]

    def call(self, req):
        """Hand over; returns the child's result, raising its violation here."""
        import session
        try:
            _send(self.w, req)
            res = _recv(self.r)
        finally:
            self.close()
        if res is None:
            raise session.Violation("process-died-after-restart")
        if "violation" in res:
            raise session.Violation(res["violation"][0], **res["violation"][1])
        if "error" in res:
            if res["harness"]:
                raise session.HarnessError(res["trace"])
            raise session.Violation("unexpected-exception", error=res["error"], trace=res["trace"])
        return res

    def close(self):
        if self.pid is None:
            return
        os.close(self.w)
        os.close(self.r)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        self.pid = None
