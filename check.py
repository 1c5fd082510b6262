#!/usr/bin/env python3
"""python3 check.py C01 [--tier quick|thorough] [--replay FILE] [--verbose]"""
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("VF_REEXEC"):
    os.environ["VF_REEXEC"] = "1"
    os.execv(VENV, [VENV, "-B"] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf.runner import main  # noqa: E402

sys.exit(main())
