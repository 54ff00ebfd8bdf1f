"""symx.npmodel -- models of the few library functions that C code would force to
plain floats.  Each one falls through to the original when nothing symbolic is
involved, so concrete runs in the same process are unaffected."""
import math
import sys
import builtins
import numpy as np

from .core import SymReal, SymBool, f_and, f_or, f_not, from_token, as_formula
from . import core

_orig = {}

def _has_sym(*xs):
    for x in xs:
        if isinstance(x, (SymReal, SymBool)):
            return True
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return True
        elif isinstance(x, (list, tuple)):
            if any(_has_sym(y) for y in x):
                return True
    return False

def _obj(x):
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x
    a = _orig['array'](x, dtype=object)
    return a

def _close(a, b, rtol, atol):
    """|a-b| <= atol + rtol*|b| as one formula (no fork)"""
    if a is b:
        return True
    a, b = SymReal.lift(a), SymReal.lift(b)
    if a is None or b is None:
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    d = a - b
    if not d.t and d.c == 0:
        return True
    pos = b * rtol + atol
    neg = b * (-rtol) + atol
    # |b| >= b and |b| >= -b: d <= atol + rtol|b|  iff  d <= pos or d <= neg
    up = f_or([as_formula(d <= pos), as_formula(d <= neg)])
    dn = f_or([as_formula(-d <= pos), as_formula(-d <= neg)])
    return f_and([up, dn])

def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not _has_sym(a, b):
        return _orig['isclose'](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    A, B = np.broadcast_arrays(_obj(a), _obj(b))
    out = np.empty(A.shape, dtype=bool)
    it = np.nditer(out, flags=['multi_index'], op_flags=['writeonly'])
    if out.ndim == 0:
        return bool(SymBool(_close(A.item(), B.item(), rtol, atol)))
    for idx in np.ndindex(A.shape):
        out[idx] = bool(SymBool(_close(A[idx], B[idx], rtol, atol)))
    return out

def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not _has_sym(a, b):
        return _orig['allclose'](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    A, B = np.broadcast_arrays(_obj(a), _obj(b))
    fs = [_close(x, y, rtol, atol) for x, y in zip(A.ravel(), B.ravel())]
    f = f_and(fs)
    return bool(SymBool(f)) if f is not True and f is not False else f

def array_equal(a, b, equal_nan=False):
    if not _has_sym(a, b):
        return _orig['array_equal'](a, b, equal_nan=equal_nan)
    A, B = _obj(a), _obj(b)
    if A.shape != B.shape:
        return False
    f = f_and([as_formula(x == y) for x, y in zip(A.ravel(), B.ravel())])
    return bool(SymBool(f)) if f is not True and f is not False else f

def _floaty(dtype):
    if dtype is None:
        return False
    if dtype is builtins.float or dtype is SFloat:
        return True
    try:
        return np.dtype(dtype).kind == 'f'
    except TypeError:
        return False

def _wrap_array(name):
    orig = getattr(np, name)
    _orig[name] = orig
    def wrapped(x, dtype=None, *args, **kw):
        if dtype is not None and _floaty(dtype) and _has_sym(x):
            dtype = object
        if dtype is None:
            return orig(x, *args, **kw)
        return orig(x, dtype, *args, **kw)
    wrapped.__name__ = name
    return wrapped

def fromiter(it, dtype, count=-1, **kw):
    xs = list(it)
    if _has_sym(xs):
        return _orig['array'](xs, dtype=object)
    return _orig['fromiter'](xs, dtype, count, **kw)

def _elementwise_pred(name, value):
    orig = getattr(np, name)
    _orig[name] = orig
    def wrapped(x, *args, **kw):
        if isinstance(x, SymReal):
            return value
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=bool)
            for idx in np.ndindex(x.shape):
                v = x[idx]
                out[idx] = value if isinstance(v, SymReal) else orig(v)
            return out
        if isinstance(x, (list, tuple)) and _has_sym(x):
            return wrapped(_obj(x))
        return orig(x, *args, **kw)
    wrapped.__name__ = name
    return wrapped

def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not _has_sym(a, b):
        return _orig['m_isclose'](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    a, b = SymReal.lift(a), SymReal.lift(b)
    if a is None or b is None:
        raise TypeError("must be real number")
    d = a - b
    if not d.t and d.c == 0:
        return True
    alts = []
    for m in (a, -a, b, -b):
        k = m * rel_tol
        alts.append(f_and([as_formula(d <= k), as_formula(-d <= k)]))
    alts.append(f_and([as_formula(d <= abs_tol), as_formula(-d <= abs_tol)]))
    f = f_or(alts)
    return bool(SymBool(f)) if f is not True and f is not False else f


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SymReal))
    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, SymReal))
    def __eq__(cls, o):
        return o is cls or o is builtins.float
    def __hash__(cls):
        return hash(builtins.float)

class SFloat(builtins.float, metaclass=_FloatMeta):
    """float() that lets a symbolic number through and reads number tokens"""
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return SFloat(x.item())
        v = builtins.float(x)
        if isinstance(x, str):
            return from_token(v)
        return v


_installed = False

def digitize(x, bins, right=False):
    if not _has_sym(x, bins):
        return _orig["digitize"](x, bins, right=right)
    return np.searchsorted(_obj(bins), x, side="left" if right else "right")      # increasing bins

def install():
    """patch numpy / math and give the modules under test the float() above"""
    global _installed
    if _installed:
        return
    _installed = True
    for n in ("isclose", "allclose", "array_equal", "fromiter"):
        _orig[n] = getattr(np, n)
    _orig["m_isclose"], _orig["digitize"] = math.isclose, np.digitize
    np.digitize = digitize
    for n in ("array", "asarray", "asanyarray"):
        setattr(np, n, _wrap_array(n))
    np.isclose, np.allclose, np.array_equal, np.fromiter = isclose, allclose, array_equal, fromiter
    np.isnan = _elementwise_pred("isnan", False)
    np.isfinite = _elementwise_pred("isfinite", True)
    np.isinf = _elementwise_pred("isinf", False)
    math.isclose = m_isclose
    math.isnan, _orig['m_isnan'] = (lambda x: False if isinstance(x, SymReal) else _orig['m_isnan'](x)), math.isnan
    rebind()

def rebind():
    """(re)apply the per-module bindings after imports"""
    for name, mod in list(sys.modules.items()):
        if mod is None:
            continue
        if name.startswith("aligned_textgrid") or name.startswith("praatio"):
            d = vars(mod)
            d.setdefault("float", SFloat)
            # names imported with `from numpy import ...` / `from math import ...`
            for n in ("allclose", "isclose", "array_equal", "array", "asarray", "fromiter"):
                if n in _orig and d.get(n) is _orig[n]:
                    d[n] = getattr(np, n)
            if d.get("isclose") is _orig["m_isclose"]:
                d["isclose"] = math.isclose
