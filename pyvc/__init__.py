"""pyvc: a small deductive verifier for the Python/numpy code of openamundsen.

See /verif/DESIGN.md.
"""
import sys as _sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in _sys.path:
    _sys.path.append(_VT)
