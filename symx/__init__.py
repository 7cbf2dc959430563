"""symbolic execution of stoqcompiler"""
import sys

_TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)
