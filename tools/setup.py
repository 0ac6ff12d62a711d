"""Nothing to build: the verifier is Python. Checks that its solver and the package are there."""
import os
import subprocess
import sys
VT = "/opt/veriftools/pyvenv/bin/python3"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.call([VT, "-B", "-c", "import sys; sys.path.insert(0, %r); import z3; import vc.contract; vc.contract.preload(); print('ready')" % HERE])
if r == 0:
    try:      # a report about the trusted part (on a changed tree its programs may differ in exceptions or rounding)
        subprocess.call([VT, "-B", os.path.join(HERE, "tools", "crosscheck.py")], timeout=300)
    except subprocess.TimeoutExpired:
        print("comparison with CPython: time limit")
sys.exit(r)
