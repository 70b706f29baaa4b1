"""Calls in fresh processes: a server forked before the code under test was used forks a child for every call."""
import os
import pickle
import signal
import socket
import struct
import traceback

from . import core

_sock = None
CPU_S = 60


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack(">Q", len(b)) + b)


def _recv(s):
    def exactly(n):
        out = b""
        while len(out) < n:
            c = s.recv(min(n - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(exactly(struct.unpack(">Q", exactly(8))[0]))


def _serve(s):
    while True:
        try:
            fn, args = _recv(s)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_S)
            try:
                r = ("ok", fn(*args))
            except Exception as e:  # noqa: BLE001
                r = ("code" if core.touches_repo(e) else "harness",
                     (traceback.format_exception_only(type(e), e)[-1].strip(), traceback.format_exc()))
            _send(s, r)
            os._exit(0)
        if os.waitpid(pid, 0)[1] != 0:
            _send(s, ("dead", None))


def start():
    """Called before the code under test is used in this process."""
    global _sock
    if _sock is None:
        a, b = socket.socketpair()
        if os.fork() == 0:
            a.close()
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            _serve(b)
        b.close()
        _sock = a


def call(fn, *args):
    start()
    _send(_sock, (fn, args))
    kind, r = _recv(_sock)
    if kind == "ok":
        return r
    if kind == "code":
        core.fail("raised %s on a valid case", r[0])
    if kind == "dead":
        raise core.Inconclusive("CPU budget of %d s ran out in a fresh process" % CPU_S)
    raise RuntimeError(r[1])
