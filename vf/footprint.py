"""What a piece of code leaves behind in its process: settings, files, descriptors, threads, memory."""
import ctypes
import gc
import importlib
import os
import signal
import sys
import tempfile
import threading
import warnings

WRITES = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.chown",
          "shutil.rmtree", "shutil.move", "shutil.copyfile", "os.system", "subprocess.Popen", "os.exec", "os.posix_spawn",
          "os.fork", "os.forkpty", "os.spawn", "os.startfile", "os.kill", "socket.connect", "socket.bind", "socket.sendto",
          "os.chdir", "os.putenv", "os.unsetenv", "os.utime", "os.setxattr", "urllib.Request", "webbrowser.open")


class Watch:
    """Audit events that change something outside of the process's own memory."""

    def __init__(self):
        self.on, self.seen, self.events = False, [], 0
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        self.events += 1
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or path == os.devnull:
                return
            if flags is not None and (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)):
                self.seen.append(("write", os.fsdecode(path)))
            elif isinstance(mode, str) and set(mode) & set("wax+"):
                self.seen.append(("write", os.fsdecode(path)))
        elif event in WRITES:
            self.seen.append((event, repr(args)[:200]))


def settings(mpl):
    """Process-wide settings, by name; values can be compared and printed."""
    import locale
    import logging
    import random

    import numpy as np
    s = {}
    s["numpy:errors"] = repr(np.geterr())
    s["numpy:errcall"] = repr(np.geterrcall())
    s["numpy:print"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s["numpy:bufsize"] = np.getbufsize()
    st = np.random.get_state()
    s["numpy:random"] = hash((st[1].tobytes(), st[2], st[3], st[4]))
    s["random"] = hash(random.getstate())
    s["warnings:filters"] = repr(warnings.filters)
    s["warnings:show"] = repr(warnings.showwarning)
    s["cwd"] = os.getcwd()
    s["environment"] = repr(sorted(os.environ.items()))
    s["path"] = repr(sys.path)
    s["streams"] = repr((id(sys.stdin), id(sys.stdout), id(sys.stderr)))
    s["hooks"] = repr((id(sys.excepthook), id(sys.displayhook), [id(m) for m in sys.meta_path], sys.gettrace() is None))
    s["recursion"] = sys.getrecursionlimit()
    s["switch"] = sys.getswitchinterval()
    s["gc"] = repr((gc.isenabled(), gc.get_threshold(), gc.get_debug()))
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["tempdir"] = repr(tempfile.tempdir)
    u = os.umask(0)
    os.umask(u)
    s["umask"] = u
    s["signals"] = repr([signal.getsignal(i) for i in range(1, 32)])
    s["logging"] = repr((logging.root.level, logging.root.handlers, logging.root.manager.disable))
    s["threads"] = repr(sorted(t.name for t in threading.enumerate()))
    xr = sys.modules.get("xarray")
    if xr:
        s["xarray:options"] = repr(sorted((k, str(v)) for k, v in xr.get_options().items()))
    if mpl:
        import matplotlib
        s["matplotlib:settings"] = hash(repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items())))
        s["matplotlib:backend"] = matplotlib.get_backend()
    return s


PATCHABLE = ("builtins", "math", "warnings", "numpy", "numpy.linalg", "scipy", "scipy.interpolate", "scipy.linalg", "scipy.constants", "xarray",
             "xarray.core.dataarray:DataArray", "xarray.core.dataset:Dataset", "os", "sys")


def namespaces():
    """Identity of every function other people's modules hold."""
    out = {}
    for name in PATCHABLE:
        mod, _, cls = name.partition(":")
        m = sys.modules.get(mod)
        m = getattr(m, cls, None) if m is not None and cls else m
        if m is not None:
            out[name] = {k: v for k, v in vars(m).items() if callable(v) or isinstance(v, (int, float, str))}
    return out


def patched(before, after):
    return [f"{n}.{k}" for n, b in before.items() for k, v in b.items()
            if n in after and (k not in after[n] or after[n][k] is not v) and not k.startswith("__")]


class _Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                                               "fordblks", "keepcost")]


def heap():
    """Bytes malloc has handed out and not got back."""
    f = ctypes.CDLL(None).mallinfo2
    f.restype = _Mallinfo2
    m = f()
    return m.uordblks + m.hblkhd


def descriptors():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return out


def tasks():
    return len(os.listdir("/proc/self/task"))


def third_party():
    return sorted(m for m in sys.modules if not m.startswith(("falwa", "checks", "vf.", "__")) and sys.modules[m] is not None)


def preload(names):
    for n in names:
        try:
            importlib.import_module(n)
        except Exception:  # noqa: BLE001  (private names some packages register)
            pass
