"""Results from a process in which nothing was computed before.

`serve()` (first call: before the worker computes anything) forks a server; every request is answered by a child
forked from that server, so that no earlier object, cache or library state of this worker can have touched the answer.
Its fresh memory is filled with something else than that of the workers.
"""
import ctypes
import multiprocessing as mp
import os
import traceback

_conn = None


def _loop(conn):
    while True:
        try:
            fn, args = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        pid = os.fork()
        if not pid:
            try:
                out = ("ok", fn(*args))
            except BaseException as e:  # noqa: BLE001
                out = ("err", type(e).__name__, str(e), traceback.format_exc())
            conn.send(out)
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            conn.send(("err", "Died", f"status {status}", ""))


def serve():
    global _conn
    if _conn is None:
        _conn, other = mp.Pipe()
        if not os.fork():
            _conn.close()
            try:
                ctypes.CDLL(None).mallopt(-6, 128)      # M_PERTURB: 1.4e306 in memory never written to
            except (OSError, AttributeError):
                pass
            _loop(other)
        other.close()


def call(fn, *args):
    """fn(*args), in a process of its own; fn and the arguments must be picklable. Returns ("ok", value) or ("err", ...)."""
    serve()
    _conn.send((fn, args))
    return _conn.recv()
