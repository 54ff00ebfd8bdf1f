"""Concrete runs of a harness on plain floats and strings.  No solver in here: the
replay process imports this module only."""
import json, traceback


class Instance:
    """one harness with concrete bounds"""
    def __init__(self, name, fn, params=None, witness=1, bound=""):
        self.name, self.fn, self.params, self.witness = name, fn, dict(params or {}), witness
        self.bound = bound
    def key(self):
        return self.name + json.dumps(self.params, sort_keys=True, default=str)


class MissingInput(BaseException):
    """a concrete run asked for an input the symbolic path never created"""


class CheckFailed(Exception):
    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what = what
        self.detail = detail


class AssumptionFailed(BaseException):
    pass


class ConcreteContext:
    """The same harness on plain floats and strings, on the code as it is."""
    symbolic = False

    def __init__(self, values, labels, choices):
        self.values, self.labels_, self.choices = values, labels, choices
        self.n_checks = 0

    def real(self, name):
        return self._get(self.values, name)

    def label(self, name, blank=True, plain=False):
        return self._get(self.labels_, name)

    def read(self, v):
        return v

    def choose(self, name, n):
        return self._get(self.choices, name)

    @staticmethod
    def _get(d, name):
        try:
            return d[name]
        except KeyError:
            raise MissingInput(name) from None

    def assume(self, cond):
        if not bool(cond):
            raise AssumptionFailed()

    def check(self, cond, what, detail=""):
        self.n_checks += 1
        if not bool(cond):
            raise CheckFailed(what, detail)

    def branch(self, f):
        raise RuntimeError("symbolic value in a concrete run")


def run_concrete(inst, values, labels, choices):
    """(outcome, what, detail): outcome in 'ok', 'fail', 'raise', 'assume', 'engine'"""
    c = ConcreteContext(values, labels, choices)
    try:
        inst.fn(c, **inst.params)
        return ("ok", "", "")
    except CheckFailed as e:
        return ("fail", e.what, e.detail)
    except AssumptionFailed:
        return ("assume", "", "")
    except MissingInput as e:
        return ("engine", str(e), "")
    except Exception as e:
        return ("raise", f"raised {type(e).__name__}", traceback.format_exc()[-1500:])
