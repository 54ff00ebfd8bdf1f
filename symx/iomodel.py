"""symx.iomodel -- symbolic numbers and labels through text.

praatio writes numbers and labels as text and reads them back.  A symbolic number is
written as a digit token and a symbolic label as its token text; the readers map both back.
What this leaves out: praatio's own rounding of numbers within 1e-14 of an integer, and the
spelling of floats (repr), which the concrete witness runs exercise as they are."""
import json as _json
import types

from .core import SymReal, SymLabel, token_of, from_token, label_of_text

_done = False

def _out(x):
    if isinstance(x, SymReal):
        return float(token_of(x))
    if isinstance(x, SymLabel):
        return str.__str__(str.__add__(x, ""))
    if isinstance(x, dict):
        return {_out(k): _out(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_out(v) for v in x]
    return x

def _cells(x):
    """data for a data frame: symbolic cells as token floats and token texts"""
    import numpy as np
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _out(x.tolist())
    if isinstance(x, tuple):
        return tuple(_cells(v) for v in x)
    if isinstance(x, (list, SymReal, SymLabel)):
        return [_cells(v) for v in x] if isinstance(x, list) else _out(x)
    if isinstance(x, dict):
        return {_out(k): _cells(v) for k, v in x.items()}
    return x

def _polars():
    import polars as pl
    def wrap(owner, name):
        f = getattr(owner, name, None)
        if f is None:
            return
        def g(*a, **k):
            return f(*[_cells(v) for v in a], **{n: _cells(v) for n, v in k.items()})
        g.__name__ = name
        setattr(owner, name, g)
    def init(cls):
        f = cls.__init__
        def g(self, *a, **k):
            f(self, *[_cells(v) for v in a], **{n: _cells(v) for n, v in k.items()})
        cls.__init__ = g
    init(pl.DataFrame)
    init(pl.Series)
    for n in ("lit", "from_dict", "from_dicts", "from_records", "repeat"):
        wrap(pl, n)

def _in(x):
    if isinstance(x, float):
        return from_token(x)
    if isinstance(x, str):
        return label_of_text(x)
    if isinstance(x, dict):
        return {k: _in(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_in(v) for v in x]
    return x

def install():
    global _done
    if _done:
        return
    _done = True
    from praatio.utilities import my_math, textgrid_io
    num = my_math.numToStr
    my_math.numToStr = lambda x: token_of(x) if isinstance(x, SymReal) and x.t else num(x)
    textgrid_io.json = types.SimpleNamespace(dumps=lambda o, **k: _json.dumps(_out(o), **k), loads=lambda s, **k: _in(_json.loads(s, **k)))
    def wrap(f):
        def g(data):
            tg = f(data)
            for t in tg["tiers"]:
                t["entries"] = [type(e)(*[label_of_text(v) if i == len(e) - 1 else v for i, v in enumerate(e)]) for e in t["entries"]]
            return tg
        return g
    textgrid_io._parseNormalTextgrid = wrap(textgrid_io._parseNormalTextgrid)
    textgrid_io._parseShortTextgrid = wrap(textgrid_io._parseShortTextgrid)
    _polars()
