"""The interface a harness is written against.  The same harness runs symbolically (all values at once) and concretely
(one counterexample, or one witness of a path, against the real numpy / filterpy / scipy)."""
import math
import os
from fractions import Fraction

import numpy as np

from . import core, symnp
from .core import Sym, SymBool, SymFP, SymNum, mk_and, mk_bool, mk_ite, mk_not, mk_or
from .crowd import Proxy
from .loader import World

z3 = core.z3


class ConcreteViolation(BaseException):
    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail


class ConcreteInfeasible(BaseException):
    pass


class BaseEnv:
    """shared surface"""

    world_args = {}
    crowd = None

    def fresh_world(self, **kw):
        self.world = World(self.sym, **kw)
        self.np = self.world.np
        return self.world

    @property
    def nf(self):
        if self._nf is None:
            if self.world is None:
                self.fresh_world(**self.world_args)
            self._nf = self.world.load("norfair")
            if self.crowd:
                self._nf = Proxy(self._nf, self, self.crowd)
        return self._nf

    def mod(self, name):
        self.nf
        return self.world.load(name)

    def And(self, *xs):
        return mk_and(*_flat(xs))

    def Or(self, *xs):
        return mk_or(*_flat(xs))

    def Not(self, x):
        return mk_not(x)

    def Implies(self, a, b):
        return mk_or(mk_not(a), b)

    def Iff(self, a, b):
        a, b = _b(a), _b(b)
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return mk_bool(core.bterm(a) == core.bterm(b))
        return bool(a) == bool(b)

    def Ite(self, c, a, b):
        return mk_ite(c, a, b)

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = symnp._minimum(r, x)
        return r

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = symnp._maximum(r, x)
        return r

    _scratch = None

    def scratch(self):
        """a directory of its own, removed when the path ends; the working directory of the code under test"""
        if self._scratch is None:
            import tempfile

            self._scratch = tempfile.mkdtemp(prefix="vf-")
            self._cwd = os.getcwd()
            os.chdir(self._scratch)
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            import shutil

            os.chdir(self._cwd)
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    def trial(self, f, *a, **k):
        """(value, None) or (None, exception) of the code under test"""
        try:
            return f(*a, **k), None
        except Exception as e:  # noqa: BLE001 - the engine's own control flow is not an Exception
            return None, e

    def flat(self, x):
        """elements of an array-like, in order"""
        if isinstance(x, symnp.SymArray):
            return list(x.a.flat)
        if isinstance(x, np.ndarray):
            return list(x.flat)
        if isinstance(x, (list, tuple)):
            r = []
            for i in x:
                r.extend(self.flat(i))
            return r
        return [x]

    def arr(self, x, dtype=float):
        return self.np.array(x, dtype=dtype)

    def check_all_close(self, a, b, label, tol=1e-7):
        fa, fb = self.flat(a), self.flat(b)
        self.check(len(fa) == len(fb), label + " (size)")
        for x, y in zip(fa, fb):
            self.check_close(x, y, label, tol)


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(_flat(x))
        elif isinstance(x, symnp.SymArray):
            out.extend(x.a.flat)
        elif isinstance(x, np.ndarray):
            out.extend(x.flat)
        elif hasattr(x, "__next__"):
            out.extend(_flat(list(x)))
        else:
            out.append(_b(x))
    return out


def _b(x):
    if isinstance(x, SymNum):
        return mk_bool(x.t != 0)
    return x


def _isbad(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, engine):
        self.e = engine
        self.world = None
        self._nf = None
        self.np = None
        self.decl = {}

    # ------------------------------------------------------------------ symbolic inputs
    def _var(self, name, kind, mk, **info):
        got = self.decl.get(name)
        if got is not None:
            return got[2]
        v = mk(name)
        self.decl[name] = (kind, v, v, info)
        return v

    def _bounds(self, v, lo, hi):
        e = self.e
        if lo is not None:
            e.add(v >= lo)
        if hi is not None:
            e.add(v <= hi)

    def int(self, name, lo=None, hi=None):
        got = self.decl.get(name)
        if got:
            return SymNum("i", got[1])
        if lo is not None and lo == hi:
            return lo
        v = z3.Int(name)
        self.decl[name] = ("int", v, None, {})
        self._bounds(v, lo, hi)
        return SymNum("i", v)

    def real(self, name, lo=None, hi=None):
        got = self.decl.get(name)
        if got:
            return SymNum("r", got[1])
        v = z3.Real(name)
        self.decl[name] = ("real", v, None, {})
        self._bounds(v, None if lo is None else core.rval(lo), None if hi is None else core.rval(hi))
        return SymNum("r", v)

    def dyadic(self, name, lo=0, hi=4, den=8):
        got = self.decl.get(name)
        if got:
            return SymNum("r", z3.ToReal(got[1]) * z3.Q(1, got[3]["den"]))
        v = z3.Int(name)
        self.decl[name] = ("dyadic", v, None, {"den": den})
        self._bounds(v, int(lo * den), int(hi * den))
        return SymNum("r", z3.ToReal(v) * z3.Q(1, den))

    def bool(self, name):
        got = self.decl.get(name)
        if got:
            return SymBool(got[1])
        v = z3.Bool(name)
        self.decl[name] = ("bool", v, None, {})
        return SymBool(v)

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def text(self, name, n, lo=1, hi=126):
        """text of n characters"""
        from .symstr import mk

        return mk([self.int(f"{name}[{i}]", lo, hi) for i in range(n)])

    def fp(self, name, kind="f64"):
        got = self.decl.get(name)
        if got:
            return SymFP(kind, got[1])
        v = z3.FP(name, core._F32 if kind == "f32" else core._F64)
        self.decl[name] = ("fp", v, None, {"kind": kind})
        return SymFP(kind, v)

    def values(self, model):
        out = {}
        for n, (k, v, _, info) in self.decl.items():
            x = model.eval(v, model_completion=True)
            if k in ("int", "dyadic"):
                out[n] = x.as_long()
            elif k == "bool":
                out[n] = z3.is_true(x)
            elif k == "real":
                f = core.to_fraction(x)
                out[n] = f"{f.numerator}/{f.denominator}"
            elif k == "fp":
                out[n] = core.fp_to_float(x).hex()
        return out

    # ------------------------------------------------------------------ assertions
    def assume(self, *cs):
        for c in _flat(cs):
            self.e.assume(c)

    def check(self, c, label):
        self.e.check(c, label)

    def check_close(self, a, b, label, tol=1e-7):
        if isinstance(a, SymFP) or isinstance(b, SymFP):
            return self.check(a == b, label)
        ba, bb = _isbad(a), _isbad(b)
        if ba or bb:
            same = ba and bb and (a == b or (a != a and b != b))
            return self.check(same, label)
        d = a - b
        if not isinstance(d, Sym):
            scale = 1 if isinstance(b, Sym) else 1 + abs(float(b))
            return self.check(abs(d) <= tol * scale, label)
        d = core._n(d)
        s = z3.simplify(d.t == 0)
        if z3.is_true(s) or (d.k == "r" and core.rational_zero(d.t)):
            self.e.stats.checks_discharged += 1
            return
        r, m = self.e.decide(z3.Not(s))
        if r == z3.unsat:
            self.e.stats.checks_discharged += 1
            return
        # not identically equal: is there a difference that matters, if possible a large one?
        bt = core._n(b).t if isinstance(b, Sym) else core.rval(b)
        dt = z3.ToReal(d.t) if z3.is_int(d.t) else d.t
        if z3.is_int(bt):
            bt = z3.ToReal(bt)
        for mult in (100000, 10):
            f = core.rval(tol * mult)
            up, dn = f * (1 + bt), f * (1 - bt)
            neg = z3.Or(z3.And(dt > up, dt > dn), z3.And(-dt > up, -dt > dn))
            if mult != 10:
                r, m = self.e.decide(neg) if r == z3.sat else (z3.unknown, None)
                if r == z3.sat:
                    self.e.last_neg = neg
                    raise core.Violation(label, m)
                r = z3.sat
        self.check(mk_bool(z3.Not(neg)), label)

    def concretise(self, x, label=""):
        return x.__index__() if isinstance(x, SymNum) else x

    def split_minmax(self):
        """from here on minima and maxima fork instead of becoming if-then-else terms"""
        self.e.split_minmax = True

    def split_ite(self):
        self.e.split_ite = True

    def split(self, c):
        """fork on a condition"""
        return bool(c)

    def fail(self, label):
        self.e.check(False, label)

    def reach(self, label):
        self.e.reached.add(label)

    def observe(self, label, value):
        self.e.observations.append((label, value))

    def note(self, k, v):
        self.e.notes.setdefault(k, set()).add(v)

    def token_value(self, s):
        """the value a piece of text produced by str()/format() of a number stands for"""
        got = self.e.tokens.get(s)
        if got is not None:
            return got[0]
        return float(s)

    def expand(self, s):
        """text in which every token that stands for symbolic text is that text again"""
        from .symstr import codes, mk

        return mk(codes(s))

    def token_spec(self, s):
        got = self.e.tokens.get(s)
        return got[1] if got is not None else None


class ConcEnv(BaseEnv):
    sym = False

    def __init__(self, values):
        self.v = values
        self.world = None
        self._nf = None
        self.np = np
        self.observations = []
        self.reached = set()
        self.log = []

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        r = int(self.v.get(name, lo if lo is not None else (hi if hi is not None else 0)))
        if lo is not None and r < lo or hi is not None and r > hi:
            raise ConcreteInfeasible()
        return r

    def real(self, name, lo=None, hi=None):
        x = self.v.get(name)
        if x is None:
            return float(lo if lo is not None else 0.0)
        n, _, d = str(x).partition("/")
        f = float(Fraction(int(n), int(d or 1)))
        return f

    def dyadic(self, name, lo=0, hi=4, den=8):
        return self.v.get(name, int(lo * den)) / den

    def bool(self, name):
        return bool(self.v.get(name, False))

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def text(self, name, n, lo=1, hi=126):
        return "".join(chr(self.int(f"{name}[{i}]", lo, hi)) for i in range(n))

    def fp(self, name, kind="f64"):
        x = float.fromhex(self.v.get(name, "0x0p+0"))
        return np.float32(x) if kind == "f32" else x

    def assume(self, *cs):
        for c in _flat(cs):
            if not c:
                raise ConcreteInfeasible()

    def check(self, c, label):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise ConcreteViolation(label)

    def check_close(self, a, b, label, tol=1e-7):
        a, b = float(a), float(b)
        if a != a or b != b or math.isinf(a) or math.isinf(b):
            ok = (a == b) or (a != a and b != b)
        else:
            ok = abs(a - b) <= tol * (1 + abs(b))
        if not ok:
            raise ConcreteViolation(label, f"{a!r} != {b!r}")

    def concretise(self, x, label=""):
        return x

    def split_minmax(self):
        pass

    split_ite = split_minmax

    def split(self, c):
        return bool(c)

    def fail(self, label):
        raise ConcreteViolation(label)

    def reach(self, label):
        self.reached.add(label)

    def observe(self, label, value):
        self.observations.append((label, value))

    def note(self, k, v):
        pass

    def expand(self, s):
        return s

    def token_value(self, s):
        return float(s)

    def token_spec(self, s):
        return None


def eval_obs(value, model):
    """an observed value under a model, as a comparable Python value"""
    if isinstance(value, SymBool):
        return z3.is_true(model.eval(value.t, model_completion=True))
    if isinstance(value, SymNum):
        x = model.eval(value.t, model_completion=True)
        f = core.to_fraction(x)
        return int(f) if value.k == "i" else float(f)
    if isinstance(value, SymFP):
        return core.fp_to_float(model.eval(value.t, model_completion=True))
    if isinstance(value, symnp.SymArray):
        return [eval_obs(x, model) for x in value.a.flat]
    if isinstance(value, np.ndarray):
        return [plain(x) for x in value.flat]
    if isinstance(value, (list, tuple)):
        return [eval_obs(x, model) for x in value]
    return plain(value)


def plain(x):
    if isinstance(x, np.ndarray):
        return [plain(i) for i in x.flat]
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    return str(x)


def same(a, b, tol=1e-6):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(
            same(x, y, tol) for x, y in zip(a, b)
        )
    if isinstance(a, str) and "⟦" in a:
        return True  # text containing symbolic numbers
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(b))
    return a == b
