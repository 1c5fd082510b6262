#!/usr/bin/env python3
"""setup_cmd: the framework has nothing to build ahead of time (every check stages /repo's tree itself); this
confirms that staging works and that the monitor notices a wrong number."""
import os
import pathlib
import shutil
import sys
import tempfile

root = pathlib.Path(__file__).resolve().parent.parent
VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("VF_REEXEC"):
    os.environ["VF_REEXEC"] = "1"
    os.execv(VENV, [VENV, "-B", os.path.abspath(__file__)])
sys.path.insert(0, str(root))
from vf import stage as st  # noqa: E402
from vf.mon import Monitor  # noqa: E402

d = tempfile.mkdtemp(prefix="vf-setup-")
try:
    st.stage(d, "plain")
finally:
    shutil.rmtree(d, ignore_errors=True)
m = Monitor()
assert m.close([1.0, 2.0], [1.0, 2.0], "x") and not m.close([1.0, 2.1], [1.0, 2.0], "x", atol=0.05)
assert not m.close([1.0, float("nan")], [1.0, 2.0], "x", atol=1.0)
assert not m.equal([1.0], [1.0, 2.0], "x")
print("setup ok")
