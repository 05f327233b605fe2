#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay file] [-v]"""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("PYVC_REEXEC") != "1":
    os.environ["PYVC_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))
