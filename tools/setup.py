"""Nothing to build: checks that what the framework needs is there."""
import os, sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, pyang, lxml, regex  # noqa
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("z3", z3.get_version_string())
