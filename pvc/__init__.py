import sys
sys.setrecursionlimit(200000)
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)      # z3, mpmath (numpy/pandas stay the venv's own)
