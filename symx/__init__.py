"""symx: symbolic execution of the real pymoo functions inside the Python interpreter (see DESIGN.md)."""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # z3 only; numpy/scipy/moocore come from the repository's own venv
