"""Shared machinery of the property checks (see DESIGN.md)."""
import sys, os

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
# the code under test always comes from the working tree
sys.path.insert(0, SRC)
# hypothesis lives in the tooling venv; appended last so that numpy/scipy/plotly
# of the project's own venv win.
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)
sys.dont_write_bytecode = True
