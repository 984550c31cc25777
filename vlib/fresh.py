"""Evaluates functions in processes in which nothing else has run: a server is forked before the first execution and forks
again for every request."""
import importlib
import os
import pickle
import signal
import struct
import sys

_server = None


class Failed(Exception):
    pass


def _read(fd, n):
    out = b""
    while len(out) < n:
        x = os.read(fd, n - len(out))
        if not x:
            raise EOFError
        out += x
    return out


def _recv(fd):
    return _read(fd, struct.unpack("<Q", _read(fd, 8))[0])


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _child(req, w):
    mod, fn, args = pickle.loads(req)
    try:
        out = ("ok", getattr(importlib.import_module(mod), fn)(*args))
    except Exception as e:
        out = ("error", f"{type(e).__name__}: {e}")
    _send(w, pickle.dumps(out))


def _serve(r, w):
    for s in (signal.SIGPROF, signal.SIGALRM):
        signal.signal(s, signal.SIG_DFL)
    while True:
        try:
            req = _recv(r)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.close(r)
                _child(req, w)
            except BaseException:
                rc = 1
            os._exit(rc)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            _send(w, pickle.dumps(("error", f"the process ended with status {st}")))


def start():
    """To be called before anything else runs in this process"""
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    sys.stdout.flush()
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    me = os.getpid()
    if os.fork() == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(w1)
            os.close(r2)
            _serve(r1, w2)
        finally:
            os._exit(1)
    os.close(r1)
    os.close(w2)
    _server = (me, w1, r2)


def call(mod, fn, *args):
    start()
    _, w, r = _server
    _send(w, pickle.dumps((mod, fn, args)))
    how, x = pickle.loads(_recv(r))
    if how == "error":
        raise Failed(x)
    return x
