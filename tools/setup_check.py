"""Sanity of the tools and of the verifier itself (nothing has to be built)."""
import os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
for p in (VT, "/opt/venv/bin/python"):
    assert os.path.exists(p), p
subprocess.check_call([VT, "-c", "import z3"])
for t in ("difftest.py", "canary.py"):      # semantics against CPython/numpy; wrong contracts are rejected
    subprocess.check_call([VT, "-B", os.path.join(H, t)])
print("ok")
