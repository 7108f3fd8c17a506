"""Evaluations in a process that has done nothing else: a server forked before the worker first uses
the library forks one child per request."""
import os
import pickle
import struct
import sys
import traceback


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def need(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(need(struct.unpack("Q", need(8))[0]))


class Zygote:
    def __init__(self, fn):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                while True:
                    req = _recv(r1)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            res = ("ok", fn(req))
                        except BaseException as e:  # noqa: BLE001
                            res = ("raised", f"{type(e).__name__}: {e}")
                        _send(w2, res)
                        os._exit(0)
                    _, st = os.waitpid(pid, 0)
                    if st != 0:
                        _send(w2, ("died", st))
            except EOFError:
                os._exit(0)
            except BaseException:  # noqa: BLE001
                traceback.print_exc(file=sys.stderr)
                os._exit(1)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def ask(self, req):
        _send(self.w, req)
        return _recv(self.r)
