"""Locate the interpreter paths that the harness needs.

The code under test is imported from /repo/src (the current working tree).
Third-party packages used by that code come from /opt/venv.  Hypothesis comes
from the pre-installed verification tools; its directory goes at the *end* of
``sys.path`` so that it never shadows what the code under test depends on.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def activate():
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
