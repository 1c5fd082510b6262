"""Which lines of the library (and of the repository's scripts) a worker executed: sys.monitoring, one event a line.

Only evidence: no verdict depends on it.
"""
import os
import sys
import warnings

TOOL = 5
hit = {}


def key_of(filename):
    """Path below falwa/ or scripts/, for the files worth counting."""
    for part in ("/falwa/", "/scripts/"):
        i = filename.rfind(part)
        if i >= 0 and filename.endswith(".py"):
            return filename[i + 1:]
    return None


def start(roots):
    roots = tuple(os.path.realpath(r) for r in roots)
    mon = getattr(sys, "monitoring", None)
    if mon is None or mon.get_tool(TOOL) is not None:
        return
    names = {}

    def line(code, lineno):
        f = code.co_filename
        if f not in names:
            names[f] = key_of(f) if os.path.realpath(f).startswith(roots) else None
        if names[f]:
            hit.setdefault(names[f], set()).add(lineno)
        return mon.DISABLE

    mon.use_tool_id(TOOL, "vf-lines")
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)


def export():
    return {k: sorted(v) for k, v in hit.items()}


def executable(path):
    """Line numbers of a source file that hold code."""
    with open(path) as fh, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        todo = [compile(fh.read(), path, "exec")]
    out = set()
    while todo:
        c = todo.pop()
        out |= {ln for *_, ln in c.co_lines() if ln}
        todo += [k for k in c.co_consts if hasattr(k, "co_code")]
    return out
