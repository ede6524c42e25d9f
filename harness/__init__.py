"""Property-based checks for GIRTH."""
import sys

# hypothesis lives in the verification venv; numpy / scipy must stay those of
# the interpreter GIRTH is installed in, so this goes at the end of the path.
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
