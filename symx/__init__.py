"""symx: a small solver-backed symbolic executor for the real Python code in /repo."""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    # appended, so that numpy/scipy/sympy keep coming from the venv the project is built with
    sys.path.append(_VT)
