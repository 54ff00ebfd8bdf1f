"""nothing to build: check that the solver and the repository are importable"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from symx import boot                      # noqa: F401
import z3, aligned_textgrid, praatio       # noqa: F401
print("z3", z3.get_version_string(), "aligned_textgrid", aligned_textgrid.__file__)
