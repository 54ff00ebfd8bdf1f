"""make z3 and the code under test importable from the project's interpreter"""
import sys, os
sys.dont_write_bytecode = True
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

def boot():
    try:
        import z3  # noqa
    except ImportError:
        if _VT not in sys.path:
            sys.path.append(_VT)
        import z3  # noqa
    src = os.environ.get("SYMX_REPO", "/repo") + "/src"
    if src not in sys.path:
        sys.path.insert(0, src)
boot()
