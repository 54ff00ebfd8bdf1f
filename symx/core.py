"""symx.core -- symbolic values and the path explorer.

The code under test (/repo/src/aligned_textgrid, and praatio below it) is executed
by the ordinary Python interpreter, but the times, labels and choices it works on
are symbolic: `SymReal` (a linear expression over solver variables), `SymLabel`
(an uninterpreted label with symbolic equality) and `SymBool` (a formula).  Every
time the code asks a symbolic formula for its truth value the explorer asks the SMT
solver which outcomes are possible under the path condition, and forks when both
are.  A path ends with assertions, each of which is a solver query
`path condition AND NOT assertion`; `unsat` means it holds for every value on the
path.  When every path is exhausted the assertion holds for every value within the
stated bounds.
"""
from __future__ import annotations
import time as _time
from fractions import Fraction
import numbers

import z3

# ----------------------------------------------------------------- exceptions

class SymxStop(BaseException):
    """Base of the explorer's own control flow; BaseException so that the code
    under test does not swallow it."""

class PathInfeasible(SymxStop):
    pass

class PathEnd(SymxStop):
    """The path is finished early (a violation was found on every value of it)."""

class Unsupported(SymxStop):
    """An operation the encoding does not model."""

class Divergence(SymxStop):
    """A re-execution did not take the recorded decisions."""

class Budget(SymxStop):
    pass


CTX = None          # the current context (SymContext or ConcreteContext)

def ctx():
    return CTX

def set_ctx(c):
    global CTX
    CTX = c

# ----------------------------------------------------------------- formulas
# formula := True | False | ('le', lin) | ('eq', lin) | ('not', f)
#          | ('and', (f, ...)) | ('or', (f, ...))
# lin := (((var, coef), ...) sorted, const)   meaning  sum + const  (<= 0 / == 0)

ONE = Fraction(1)

def _num(x):
    """exact rational of a python / numpy number"""
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return x
    if isinstance(x, bool):
        return int(x)
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite number in symbolic arithmetic")
    if f.is_integer():
        return int(f)
    return Fraction(f)


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    return ('not', f)

def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))

def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))

def f_le(terms, const):
    """terms + const <= 0, canonical"""
    if not terms:
        return const <= 0
    lead = terms[0][1]
    s = abs(lead)
    if s != 1:
        inv = ONE / s
        terms = tuple((v, _norm(c * inv)) for v, c in terms)
        const = _norm(const * inv)
    return ('le', (terms, const))

def f_eq(terms, const):
    if not terms:
        return const == 0
    lead = terms[0][1]
    if lead != 1:
        inv = ONE / lead
        terms = tuple((v, _norm(c * inv)) for v, c in terms)
        const = _norm(const * inv)
    return ('eq', (terms, const))

def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c

def f_lt(terms, const):
    # e < 0   ==  not (-e <= 0)
    return f_not(f_le(tuple((v, -c) for v, c in terms), -const))

def lin_eval(lin, model):
    t, c = lin
    s = c
    for v, k in t:
        s += k * model[v]
    return s

def f_eval(f, model):
    if f is True or f is False:
        return f
    k = f[0]
    if k == 'le':
        return lin_eval(f[1], model) <= 0
    if k == 'eq':
        return lin_eval(f[1], model) == 0
    if k == 'not':
        return not f_eval(f[1], model)
    if k == 'and':
        return all(f_eval(g, model) for g in f[1])
    return any(f_eval(g, model) for g in f[1])

# ----------------------------------------------------------------- SymBool

class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CTX.branch(self.f)

    def __and__(self, o):
        return SymBool(f_and([self.f, as_formula(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(f_or([self.f, as_formula(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        g = as_formula(o)
        return SymBool(f_or([f_and([self.f, f_not(g)]), f_and([f_not(self.f), g])]))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(f_not(self.f))

    def __eq__(self, o):
        g = as_formula(o)
        return SymBool(f_or([f_and([self.f, g]), f_and([f_not(self.f), f_not(g)])]))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return f"<SymBool {self.f}>"


def as_formula(x):
    if isinstance(x, SymBool):
        return x.f
    if x is True or x is False:
        return x
    return bool(x)

# ----------------------------------------------------------------- SymReal

def _merge(a, b, sb=1):
    """a + sb*b on sorted term tuples"""
    if not b:
        return a
    if not a and sb == 1:
        return b
    d = dict(a)
    for v, c in b:
        n = d.get(v, 0) + sb * c
        if n == 0:
            d.pop(v, None)
        else:
            d[v] = n
    return tuple(sorted(d.items()))


class SymReal:
    """A linear expression over solver variables."""
    __slots__ = ("t", "c")

    def __init__(self, t, c=0):
        self.t = t
        self.c = c

    # -- helpers
    @staticmethod
    def lift(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return SymReal((), int(bool(x)))
        if isinstance(x, (int, float, Fraction, numbers.Real)) or hasattr(x, "dtype"):
            if hasattr(x, "dtype") and getattr(x, "ndim", 0) != 0:
                return None
            if hasattr(x, "dtype"):
                y = x.item()
                if isinstance(y, SymReal):
                    return y
                if not isinstance(y, (int, float)):
                    return None
                x = y
            return SymReal((), _num(x))
        return None

    def _bin(self, o, s):
        o = SymReal.lift(o)
        if o is None:
            return None
        return SymReal(_merge(self.t, o.t, s), _norm(self.c + s * o.c))

    def __add__(self, o):
        r = self._bin(o, 1)
        return NotImplemented if r is None else r
    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, -1)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, -1)
        return NotImplemented if r is None else -r

    def __neg__(self):
        return SymReal(tuple((v, -k) for v, k in self.t), -self.c)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o2 = SymReal.lift(o)
        if o2 is None:
            return NotImplemented
        if o2.t and self.t:
            raise Unsupported("product of two symbolic values")
        if self.t and not o2.t:
            k, e = o2.c, self
        else:
            k, e = self.c, o2
        if k == 0:
            return SymReal((), 0)
        return SymReal(tuple((v, _norm(c * k)) for v, c in e.t), _norm(e.c * k))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        if o.t:
            raise Unsupported("division by a symbolic value")
        if o.c == 0:
            raise ZeroDivisionError("float division by zero")
        return self * (ONE / o.c)

    def __rtruediv__(self, o):
        if not self.t:
            return SymReal.lift(o) / self.c
        raise Unsupported("division by a symbolic value")

    def __abs__(self):
        if not self.t:
            return SymReal((), abs(self.c))
        return self if bool(self >= 0) else -self

    # -- comparisons
    def _cmp(self, o, mk):
        o = SymReal.lift(o)
        if o is None:
            return None
        t = _merge(self.t, o.t, -1)
        c = _norm(self.c - o.c)
        return SymBool(mk(t, c))

    def __le__(self, o):
        r = self._cmp(o, f_le)
        return NotImplemented if r is None else r

    def __lt__(self, o):
        r = self._cmp(o, f_lt)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda t, c: f_le(tuple((v, -k) for v, k in t), -c))
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda t, c: f_not(f_le(t, c)))
        return NotImplemented if r is None else r

    def __eq__(self, o):
        if o is self:
            return True
        r = self._cmp(o, f_eq)
        return False if r is None else r

    def __ne__(self, o):
        if o is self:
            return False
        r = self._cmp(o, lambda t, c: f_not(f_eq(t, c)))
        return True if r is None else r

    def __hash__(self):
        # equal values must hash equally and equality is symbolic
        if not self.t:
            return hash(self.c)
        return 0x5EED

    def __bool__(self):
        if not self.t:
            return self.c != 0
        return CTX.branch(f_not(f_eq(self.t, self.c)))

    # -- conversions.  float()/int() are asked for by C code: the value is pinned
    def __float__(self):
        if not self.t:
            return float(self.c)
        return CTX.realise(self)

    def __int__(self):
        return int(self.__float__())

    def __round__(self, n=None):
        if not self.t:
            return round(float(self.c), n)
        return round(CTX.realise(self), n)

    def __floordiv__(self, o):
        return self.__float__() // o

    def __mod__(self, o):
        return self.__float__() % o

    def __pow__(self, o):
        if o == 1:
            return self
        return self.__float__() ** o

    def __trunc__(self):
        return int(self.__float__())

    def __floor__(self):
        import math
        return math.floor(self.__float__())

    def __ceil__(self):
        import math
        return math.ceil(self.__float__())

    def sqrt(self):
        import math
        return math.sqrt(self.__float__())

    def item(self):
        return self

    def is_integer(self):
        return self.__float__().is_integer()

    # -- text: a token which the number reader maps back to this value
    def __str__(self):
        return token_of(self)
    __repr__ = __str__

    def __format__(self, spec):
        return token_of(self, spec)

    def __reduce__(self):
        return (SymReal, (self.t, self.c))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy asks objects for these
    def conjugate(self):
        return self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def rint(self):
        return round(self.__float__())

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()


numbers.Real.register(SymReal)

# tokens: number -> text -> number.  Digits only, in a range no concrete number of the
# harnesses uses, so that number readers (float(), regular expressions) accept them.
_TOKENS = {}
_TOKEN_BASE = 7700000000000

def token_of(sym, spec=""):
    if not sym.t:
        return format(float(sym.c), spec)
    key = (sym.t, sym.c, spec)
    for n, (s, sp) in _TOKENS.items():
        if (s.t, s.c, sp) == key:
            return f"{n}.5"
    n = _TOKEN_BASE + len(_TOKENS)
    _TOKENS[n] = (sym, spec)
    return f"{n}.5"

def from_token(x):
    """a concrete number read from text -> the symbolic value it stands for, or x"""
    if isinstance(x, float) and x >= _TOKEN_BASE:
        n = int(x)
        if n in _TOKENS:
            sym, spec = _TOKENS[n]
            if spec:
                # written with a precision: pin the value and read what was written
                return float(format(CTX.realise(sym), spec))
            return sym
    return x

def reset_tokens():
    _TOKENS.clear()
    _LABELS.clear()

_LABELS = {}

def label_of_text(text):
    """the symbolic label a text read from a file stands for, or the text"""
    return _LABELS.get(str(text), text) if type(text) is str else text

# ----------------------------------------------------------------- labels

LABEL_CONSTS = {"": -1, "#": -2}

def label_const(s):
    if s not in LABEL_CONSTS:
        LABEL_CONSTS[s] = -1 - len(LABEL_CONSTS) - 1
    return LABEL_CONSTS[s]


LABEL_CASES = ("a", "LAUGH", "sp", "AH1", "12", "x y", "don't", "\u0259", "abcdefghijklmnopqrstuvwxyz")

def _raw(s):
    """the characters, as a plain str"""
    return s if type(s) is str else str.__getitem__(s, slice(None))

class SymLabel(str):
    """A label the code under test can only carry, join and compare.

    Its text is a token, its identity is a solver variable: two labels may or may
    not be equal, and each may or may not be one of the constants the code
    compares it with."""

    def __new__(cls, text, var):
        o = str.__new__(cls, text)
        o.var = var
        return o

    def _eqf(self, o):
        if isinstance(o, SymLabel):
            if o.var == self.var:
                return True
            a, b = sorted((self.var, o.var))
            return f_eq(((a, 1), (b, -1)), 0)
        if isinstance(o, str):
            return f_eq(((self.var, 1),), -label_const(str(o)))
        return None

    def __eq__(self, o):
        if o is self:
            return True
        f = self._eqf(o)
        if f is None:
            return False
        if isinstance(f, bool):
            return f
        return CTX.branch(f)

    def __ne__(self, o):
        return not self.__eq__(o)

    def sym_eq(self, o):
        f = self._eqf(o)
        return SymBool(False if f is None else f)

    def __hash__(self):
        return 0x1ABE1

    def __bool__(self):
        return not (self == "")

    def _case(self, *extra):
        """the text, for code that looks into it: one of a few texts of different kinds (the solver says
        which are possible here), or the token of a label that is none of them"""
        plain = CTX is not None and getattr(CTX, "names", None) and CTX.names[self.var] in CTX.plain
        for t in ("",) + extra + LABEL_CASES:
            if t and (t != t.strip() or "#" in t or plain and not t.isalnum()):
                continue
            if self == t:
                return t
        return _raw(self)

    def __len__(self):
        return len(self._case())

    def startswith(self, p, *a):
        ps = p if isinstance(p, tuple) else (p,)
        return self._case(*[q for p in ps for q in (_raw(p), _raw(p) + "z")]).startswith(p, *a)

    def endswith(self, p, *a):
        ps = p if isinstance(p, tuple) else (p,)
        return self._case(*[q for p in ps for q in (_raw(p), "z" + _raw(p))]).endswith(p, *a)

    def __contains__(self, p):
        return p in self._case(_raw(p), "y" + _raw(p) + "z")

    def __getitem__(self, i):
        return self._case()[i]

    def __iter__(self):
        return iter(self._case())

    def lower(self): return _Cased(self, str.lower)
    def upper(self): return _Cased(self, str.upper)
    def casefold(self): return _Cased(self, str.casefold)
    def isupper(self): return self._case().isupper()
    def islower(self): return self._case().islower()
    def isdigit(self): return self._case().isdigit()
    def isnumeric(self): return self._case().isnumeric()
    def isdecimal(self): return self._case().isdecimal()
    def isalpha(self): return self._case().isalpha()
    def isalnum(self): return self._case().isalnum()
    def isascii(self): return self._case().isascii()
    def isspace(self): return self._case().isspace()
    def istitle(self): return self._case().istitle()
    def count(self, p, *a): return self._case(_raw(p), "y" + _raw(p) + "z").count(p, *a)
    def find(self, p, *a): return self._case(_raw(p), "y" + _raw(p) + "z").find(p, *a)

    def strip(self, chars=None):
        # labels in the harnesses carry no surrounding white space (praatio strips)
        return self

    lstrip = strip
    rstrip = strip

    def __lt__(self, o):
        # any strict order consistent with equality will do: compare identities
        return self._ord(o, f_lt)

    def __gt__(self, o):
        return self._ord(o, lambda t, c: f_not(f_le(t, c)))

    def __le__(self, o):
        return self._ord(o, f_le)

    def __ge__(self, o):
        return not self.__lt__(o)

    def _ord(self, o, mk):
        if isinstance(o, SymLabel):
            if o.var == self.var:
                return mk((), 0)
            f = mk(tuple(sorted(((self.var, 1), (o.var, -1)))), 0)
        elif isinstance(o, str):
            f = mk(((self.var, 1),), -label_const(str(o)))
        else:
            return NotImplemented
        return CTX.branch(f) if not isinstance(f, bool) else f

    def __reduce__(self):
        return (SymLabel, (str.__str__(self), self.var))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return self


class _Cased(str):
    """label.lower() and the like, compared with a constant"""
    def __new__(cls, lab, fn):
        o = str.__new__(cls, fn(_raw(lab)))
        o.lab, o.fn = lab, fn
        return o

    def __eq__(self, o):
        if isinstance(o, _Cased) and o.fn is self.fn:
            return self.lab == o.lab or _raw(self) == _raw(o)
        if isinstance(o, str) and not isinstance(o, (SymLabel, _Cased)):
            if self.fn(o) != o:
                return False
            return any(self.lab == t for t in dict.fromkeys((o, o.lower(), o.upper(), o.capitalize()))) or _raw(self) == o
        return _raw(self) == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0x1ABE1

    def startswith(self, p, *a):
        return self.fn(self.lab._case(_raw(p), _raw(p) + "z") if isinstance(p, str) else self.lab._case()).startswith(p, *a)

    def __contains__(self, p):
        return p in self.fn(self.lab._case(_raw(p), "y" + _raw(p) + "z"))

# ----------------------------------------------------------------- contexts

class Stats:
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.infeasible = 0
        self.branches = 0          # symbolic branch points met (fresh)
        self.forks = 0             # branch points with both sides feasible
        self.feas_queries = 0      # solver queries deciding branch feasibility
        self.asserts = 0           # solver queries deciding assertions
        self.trivial = 0           # assertions settled by constant folding
        self.folded = 0            # branches settled by the assumed bounds of single variables
        self.solver_s = 0.0
        self.unknown = 0
        self.realised = 0
        self.unsupported = 0
        self.witness_ok = 0        # path witnesses re-run concretely with the same outcome
        self.witness_bad = 0
        self.depth_max = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            if k == "depth_max":
                self.depth_max = max(self.depth_max, v)
            else:
                setattr(self, k, getattr(self, k) + v)


class Violation:
    def __init__(self, what, values, labels, choices, detail=""):
        self.what = what
        self.values = values
        self.labels = labels
        self.choices = choices
        self.detail = detail


RICH = (Fraction(5461, 16384), Fraction(5461, 16384) + 1, Fraction(5461, 1 << 24), Fraction(-5461, 1 << 24))

class SymContext:
    symbolic = True

    def __init__(self, prefix, stats, timeout_ms=20000):
        self.prefix = prefix               # list of (formula, outcome, implied)
        self.stats = stats
        self.trail = []
        self.known = {}
        self.bounds = {}                   # variable -> [lo, hi] as assumed
        self.model = []                    # current satisfying values by variable index
        self.names = []
        self.kinds = []                    # 'time' | 'label' | 'choice'
        self.zvars = []
        self.labels = {}                   # label name -> var
        self.plain = set()                 # labels to be letters and digits only
        self.open = []                     # alternatives discovered: list of prefixes
        self.solver = z3.SolverFor("QF_LRA")
        self.solver.set("timeout", timeout_ms)
        self.zcache = {}
        self.candidates = []
        self.was_realised = False
        self.notes = []
        self.n_checks = 0

    # ---- z3 translation
    def zlin(self, lin):
        t, c = lin
        parts = []
        for v, k in t:
            zv = self.zvars[v]
            if k == 1:
                parts.append(zv)
            else:
                parts.append(z3.RealVal(str(k)) * zv)
        if c != 0 or not parts:
            parts.append(z3.RealVal(str(c)))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def z(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        r = self.zcache.get(f)
        if r is not None:
            return r
        k = f[0]
        if k == 'le':
            t, c = f[1]
            r = self.zlin((t, 0)) <= z3.RealVal(str(-c))
        elif k == 'eq':
            t, c = f[1]
            r = self.zlin((t, 0)) == z3.RealVal(str(-c))
        elif k == 'not':
            r = z3.Not(self.z(f[1]))
        elif k == 'and':
            r = z3.And([self.z(g) for g in f[1]])
        else:
            r = z3.Or([self.z(g) for g in f[1]])
        self.zcache[f] = r
        return r

    # ---- variables
    def _var(self, name, kind, init=0):
        i = len(self.names)
        self.names.append(name)
        self.kinds.append(kind)
        self.zvars.append(z3.Real(f"v{i}"))
        self.model.append(init)
        return i

    def real(self, name):
        return SymReal(((self._var(name, 'time'), 1),), 0)

    def label(self, name, blank=True, plain=False):
        """plain: a concrete label is letters and digits only"""
        i = self._var(name, 'label', init=len(self.names) + 1)
        lab = SymLabel(f"<{name}>", i)
        _LABELS[f"<{name}>"] = lab
        if plain:
            self.plain.add(name)
        # never the reserved boundary mark
        self.assume_f(f_not(f_eq(((i, 1),), -label_const("#"))))
        if not blank:
            self.assume_f(f_not(f_eq(((i, 1),), -label_const(""))))
        return lab

    def read(self, v):
        """a number or text that went through a data frame or file -> the symbolic value it stands for"""
        return from_token(v) if isinstance(v, float) else label_of_text(v)

    def choose(self, name, n):
        """a symbolic integer 0..n-1, returned as the concrete value of this path"""
        i = self._var(name, 'choice')
        t = ((i, 1),)
        self.assume_f(f_or([f_eq(t, -k) for k in range(n)]))
        for k in range(n - 1):
            if self.branch(f_eq(t, -k)):
                return k
        return n - 1

    # ---- solver
    def _query(self, *zs):
        t0 = _time.perf_counter()
        r = self.solver.check(*zs)
        self.stats.solver_s += _time.perf_counter() - t0
        return r

    def _read_model(self):
        m = self.solver.model()
        out = []
        for i, zv in enumerate(self.zvars):
            v = m.eval(zv, model_completion=True)
            out.append(_norm(Fraction(v.numerator_as_long(), v.denominator_as_long())))
        return out

    def assume(self, cond):
        self.assume_f(as_formula(cond))

    def assume_f(self, f):
        if f is True:
            return
        if f is False:
            raise PathInfeasible()
        self._add(f)
        if f_eval(f, self.model):
            return
        self.stats.feas_queries += 1
        r = self._query()
        if r == z3.unsat:
            raise PathInfeasible()
        if r != z3.sat:
            self.stats.unknown += 1
            raise Unsupported("solver gave no answer on an assumption")
        self.model = self._read_model()

    def _add(self, f):
        self.solver.add(self.z(f))
        if f is True or f is False:
            return
        if f[0] == 'and':
            for g in f[1]:
                self._know(g, True)
        else:
            self._know(f, True)

    def _know(self, f, val):
        if f[0] == 'not':
            self._know(f[1], not val)
            return
        self.known[f] = val
        if f[0] == 'le' and len(f[1][0]) == 1:
            ((v, k),), c = f[1]                       # k is 1 or -1
            lo, hi = self.bounds.get(v, (None, None))
            x = -c * k
            if (k > 0) == val:
                hi = x if hi is None or x < hi else hi
            else:
                lo = x if lo is None or x > lo else lo
            self.bounds[v] = (lo, hi)

    def _bounded(self, g):
        """what the bounds of its variables say of a comparison, or None"""
        if not self.bounds or g[0] not in ('le', 'eq'):
            return None
        t, c = g[1]
        lo = hi = c
        for v, k in t:
            b = self.bounds.get(v)
            if b is None:
                return None
            x, y = b if k > 0 else (b[1], b[0])
            lo = None if lo is None or x is None else lo + k * x
            hi = None if hi is None or y is None else hi + k * y
            if lo is None and hi is None:
                return None
        if lo is not None and lo > 0:
            return False
        if g[0] == 'le' and hi is not None and hi <= 0:
            return True
        if g[0] == 'eq' and hi is not None and hi < 0:
            return False
        return None

    def branch(self, f):
        if f is True or f is False:
            return f
        neg = False
        g = f
        if g[0] == 'not':
            g = g[1]
            neg = True
        k = self.known.get(g)
        if k is not None:
            return k != neg
        k = self._bounded(g)
        if k is not None:
            self.stats.folded += 1
            self.known[g] = k
            return k != neg
        i = len(self.trail)
        if i < len(self.prefix):
            h, val, implied = self.prefix[i]
            if h != g:
                raise Divergence(f"decision {i}: recorded {h}, now {g}")
            self.trail.append((g, val, implied))
            if not implied:
                self.solver.add(self.z(g if val else f_not(g)))
            self.known[g] = val
            if i + 1 == len(self.prefix):
                # refresh the model once, at the end of the replayed prefix
                self.stats.feas_queries += 1
                r = self._query()
                if r == z3.unsat:
                    raise PathInfeasible()
                if r != z3.sat:
                    self.stats.unknown += 1
                    raise Unsupported("solver gave no answer on a prefix")
                self.model = self._read_model()
            return val != neg
        self.stats.branches += 1
        val = f_eval(g, self.model)
        other = f_not(g) if val else g
        self.stats.feas_queries += 1
        r = self._query(self.z(other))
        if r == z3.sat:
            self.stats.forks += 1
            self.open.append(self.trail + [(g, not val, False)])
            self.trail.append((g, val, False))
        elif r == z3.unsat:
            self.trail.append((g, val, True))      # implied by the path condition
            self.known[g] = val
            return val != neg
        else:
            self.stats.unknown += 1
            self.notes.append("solver gave no answer on a branch")
            self.trail.append((g, val, False))
        self.solver.add(self.z(g if val else f_not(g)))
        self.known[g] = val
        return val != neg

    def realise(self, sym):
        """pin a symbolic number to one value (C code asked for a float)"""
        self.stats.realised += 1
        self.was_realised = True
        lin = (sym.t, sym.c)
        v = lin_eval(lin, self.model)
        # prefer a value with many binary digits, so that rounding is visible
        for d in RICH:
            q = Fraction(int(v // 1)) + d if abs(d) > 2 ** -10 else _norm(Fraction(v) + d)
            f = f_eq(sym.t, _norm(sym.c - q))
            if f is True or f is False or self._query(self.z(f)) != z3.sat:
                continue
            self._add(f)
            self._query()
            self.model = self._read_model()
            return float(q)
        fv = float(v)
        f = f_eq(sym.t, _norm(sym.c - v))
        if f is not True and f is not False:
            self._add(f)
        return fv

    # ---- assertions
    def check(self, cond, what, detail=""):
        f = as_formula(cond) if not isinstance(cond, SymBool) else cond.f
        self.n_checks += 1
        if f is True:
            self.stats.trivial += 1
            return
        if f is False:
            self.fail(what, detail)
            raise PathEnd()
        self.stats.asserts += 1
        r = self._query(self.z(f_not(f)))
        if r == z3.unsat:
            return
        if r != z3.sat:
            self.stats.unknown += 1
            self.notes.append(f"solver gave no answer on: {what}")
            return
        self.fail(what, detail, extra=f_not(f))
        # go on with the values for which it holds, if any
        self._add(f)
        self.stats.feas_queries += 1
        if self._query() != z3.sat:
            raise PathEnd()
        self.model = self._read_model()

    def fail(self, what, detail="", extra=None):
        vals = self.concrete_model(extra)
        self.candidates.append(Violation(what, *vals, detail=detail))

    def exact_model(self, extra=None):
        """a model of the path whose times are short binary fractions, so that the
        real code computes with them exactly; found by rounding one variable at a
        time and asking the solver whether the rest still has a solution"""
        sv = self.solver
        sv.push()
        try:
            if extra is not None and extra is not True:
                sv.add(self.z(extra))
            if self._query() != z3.sat:
                return None
            m = self._read_model()
            for i, k in enumerate(self.kinds):
                if k != 'time':
                    # prefer pairwise different labels
                    if k == 'label' and m[i] != i + 1:
                        c = self.zvars[i] == i + 1
                        if self._query(c) == z3.sat:
                            sv.add(c)
                            self._query()
                            m = self._read_model()
                            continue
                    sv.add(self.zvars[i] == z3.RealVal(str(m[i])))
                    continue
                v = Fraction(m[i])
                done = False
                for grid in (1, 8, 1024, 1 << 20, 1 << 30, 1 << 36):
                    base = (v * grid).__floor__()
                    for n in (base, base + 1):
                        q = Fraction(n, grid)
                        c = self.zvars[i] == z3.RealVal(str(q))
                        if q == v or self._query(c) == z3.sat:
                            sv.add(c)
                            if q != v:
                                if self._query() != z3.sat:
                                    return None
                                m = self._read_model()
                            done = True
                            break
                    if done:
                        break
                if not done:
                    return None
            return m
        finally:
            sv.pop()

    def concrete_model(self, extra=None):
        m = self.exact_model(extra)
        if m is None:
            # no dyadic model: fall back to the solver's rationals
            self.solver.push()
            if extra is not None and extra is not True:
                self.solver.add(self.z(extra))
            if self._query() == z3.sat:
                m = self._read_model()
            else:
                m = self.model
            self.solver.pop()
        return self.split(m)

    def split(self, m):
        values, labels, choices = {}, {}, {}
        inv = {v: k for k, v in LABEL_CONSTS.items()}
        for n, k, v in zip(self.names, self.kinds, m):
            if k == 'time':
                values[n] = float(v)
            elif k == 'choice':
                choices[n] = int(v)
            else:
                labels[n] = inv[v] if v in inv else rich_label(v) if n not in self.plain else plain_label(v)
        return values, labels, choices


def plain_label(v):
    return "Lb" + str(v).replace("/", "o").replace("-", "m")

def rich_label(v):
    """a concrete text for a label: mixed case, not ASCII only, with a quote, a space
    and digits, so that a change of the text is visible"""
    n = str(v).replace("/", "o").replace("-", "m")
    return f'Lb{n} \u0259"q\'1'


from .concrete import ConcreteContext, CheckFailed, AssumptionFailed, MissingInput
