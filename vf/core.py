"""Symbolic values and the path-exploring engine.

The code under test is ordinary Python executed by CPython; its inputs are the Sym* values below, which build
SMT terms through operator overloading.  A symbolic truth value that reaches a Python `if`/`while`/`and` forks the
path: both outcomes that the solver finds feasible are explored (by re-executing the harness with a recorded
decision prefix).  The solver (z3) decides feasibility of every branch and every assertion.
"""
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import z3  # noqa: E402
import numpy as np  # noqa: E402

INF = float("inf")


# --------------------------------------------------------------------------------------------------------------
# control flow of the engine: BaseException, so that `except Exception` in the code under test does not swallow it
# --------------------------------------------------------------------------------------------------------------
class Control(BaseException):
    pass


class PathInfeasible(Control):
    """An assumption is unsatisfiable on this path."""


class Unsupported(Control):
    """The encoding does not cover an operation the code performed on symbolic values."""


class PathTooDeep(Control):
    """More decisions on one path than the bound."""


class PathTimeout(Control):
    """Wall-clock limit of a single path (possible non-termination)."""


class Violation(Control):
    def __init__(self, label, model_values, detail=""):
        self.label, self.values, self.detail = label, model_values, detail


_engine = None


def engine():
    if _engine is None:
        raise RuntimeError("symbolic operation outside of an exploration")
    return _engine


def set_engine(e):
    global _engine
    _engine = e


# --------------------------------------------------------------------------------------------------------------
# terms
# --------------------------------------------------------------------------------------------------------------
def _frac(x):
    return Fraction(x.item() if isinstance(x, np.generic) else x)


_rcache = {}


def rval(x):
    """Exact rational constant of a Python / numpy number."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    f = Fraction(int(x)) if isinstance(x, (int, np.integer)) else Fraction(float(x))
    k = (f.numerator, f.denominator)
    v = _rcache.get(k)
    if v is None:
        v = _rcache[k] = z3.Q(f.numerator, f.denominator)
    return v


def ival(x):
    return z3.IntVal(int(x))


_F32, _F64 = z3.Float32(), z3.Float64()
_RNE = z3.RNE()


class Sym:
    __array_ufunc__ = None
    __slots__ = ()

    # numpy scalars expose a few array-like attributes; so do these values (0-d)
    shape = ()
    ndim = 0
    size = 1

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def T(self):
        return self


def is_sym(x):
    return isinstance(x, Sym)


def const_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction)) or (
        isinstance(x, np.ndarray) and x.ndim == 0
    )


def _isfinite(x):
    if isinstance(x, (float, np.floating)):
        return np.isfinite(x)
    return True


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return engine().branch(self.t)

    def __and__(self, o):
        return mk_and(self, o) if _boolish(o) else _arr(o, "and", self)

    __rand__ = __and__

    def __or__(self, o):
        return mk_or(self, o) if _boolish(o) else _arr(o, "or", self)

    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.t, bterm(o))) if _boolish(o) else _arr(o, "xor", self)

    __rxor__ = __xor__

    def __invert__(self):
        return mk_not(self)

    def __eq__(self, o):
        if _boolish(o):
            return mk_bool(self.t == bterm(o))
        if const_num(o) or isinstance(o, SymNum):
            return self.as_int() == o
        if _is_array(o):
            return _arr(o, "eq", self)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mk_not(r)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return SymNum("i", z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    # arithmetic: as an integer
    def _num(self):
        return self.as_int()

    def __add__(self, o):
        return self._num() + _n(o)

    def __radd__(self, o):
        return _n(o) + self._num()

    def __sub__(self, o):
        return self._num() - _n(o)

    def __rsub__(self, o):
        return _n(o) - self._num()

    def __mul__(self, o):
        if _boolish(o):
            return self._num() * _n(o)
        return _n(o) * self._num()

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        return self._num() / _n(o)

    def __rtruediv__(self, o):
        return _n(o) / self._num()

    def __lt__(self, o):
        return self._num() < _n(o)

    def __le__(self, o):
        return self._num() <= _n(o)

    def __gt__(self, o):
        return self._num() > _n(o)

    def __ge__(self, o):
        return self._num() >= _n(o)

    def __neg__(self):
        return -self._num()

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self

    def astype(self, dt):
        from . import symnp

        return symnp.cast_scalar(self, symnp.to_dtype(dt))

    @property
    def dtype(self):
        return np.dtype(bool)

    def __repr__(self):
        return engine().token(self) if _engine is not None else "<SymBool>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _n(o):
    return o.as_int() if isinstance(o, SymBool) else (int(o) if isinstance(o, (bool, np.bool_)) else o)


def _boolish(o):
    return isinstance(o, (SymBool, bool, np.bool_))


def _is_array(o):
    return isinstance(o, np.ndarray) or getattr(o, "_symarray", False)


def _arr(o, op, s, swapped=False):
    if not _is_array(o):
        return NotImplemented
    from . import symnp

    return symnp.array_binop(op, s, o) if not swapped else symnp.array_binop(op, o, s)


def bterm(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, SymNum):
        return o.t != 0
    return z3.BoolVal(bool(o))


def mk_bool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mk_not(x):
    if isinstance(x, SymBool):
        if z3.is_not(x.t):
            return mk_bool(x.t.arg(0))
        return mk_bool(z3.Not(x.t))
    if isinstance(x, SymNum):
        return mk_bool(x.t == 0)
    if _is_array(x):
        from . import symnp

        return symnp.logical_not(x)
    return not x


def mk_and(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return mk_bool(ts[0] if len(ts) == 1 else z3.And(*ts))


def mk_or(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return mk_bool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def mk_ite(c, a, b):
    """if-then-else without forking, when both branches have a common representation"""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if _boolish(a) and _boolish(b):
        return mk_bool(z3.If(c.t, bterm(a), bterm(b)))
    a, b = _n(a), _n(b)
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        k = fp_kind(a, b)
        return SymFP(k, z3.If(c.t, fp_term(a, k), fp_term(b, k)))
    if (isinstance(a, SymNum) or const_num(a)) and (isinstance(b, SymNum) or const_num(b)):
        if _isfinite(a) and _isfinite(b):
            k = "r" if _kind(a) == "r" or _kind(b) == "r" else "i"
            ta, tb = _term(a, k), _term(b, k)
            if ta.eq(tb):
                return a
            if _engine is not None and _engine.split_ite:
                return a if bool(c) else b
            return SymNum(k, z3.If(c.t, ta, tb))
    return a if bool(c) else b  # infinities, objects: fork


def _kind(x):
    if isinstance(x, SymNum):
        return x.k
    if isinstance(x, (float, np.floating, Fraction)):
        return "r"
    if isinstance(x, np.ndarray):
        return "r" if x.dtype.kind == "f" else "i"
    return "i"


def _term(x, k):
    if isinstance(x, SymNum):
        if x.k == k:
            return x.t
        if k == "r":
            return z3.ToReal(x.t)
        raise Unsupported("real used as int")
    if k == "r":
        return rval(x)
    return ival(x)


class SymNum(Sym):
    """Python int (k='i', unbounded) or float modelled as a real number (k='r')."""

    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k, self.t = k, t

    # -- arithmetic ---------------------------------------------------------------------------------------------
    def _bin(self, o, op, swap=False):
        if isinstance(o, SymBool):
            o = o.as_int()
        elif isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, SymFP):
            return NotImplemented
        if isinstance(o, SymNum) or const_num(o):
            if isinstance(o, np.ndarray):
                o = o.item()
            a, b = (o, self) if swap else (self, o)
            return num_binop(op, a, b)
        if _is_array(o):
            return _arr(o, op, self, swapped=swap)
        if isinstance(o, (list, tuple)) and op in ("mul",):
            return o * self.__index__()
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        if isinstance(o, str):
            return o * self.__index__()
        return self._bin(o, "mul")

    def __rmul__(self, o):
        if isinstance(o, str):
            return o * self.__index__()
        return self._bin(o, "mul", True)

    def __truediv__(self, o):
        return self._bin(o, "div")

    def __rtruediv__(self, o):
        return self._bin(o, "div", True)

    def __floordiv__(self, o):
        return self._bin(o, "floordiv")

    def __rfloordiv__(self, o):
        return self._bin(o, "floordiv", True)

    def __mod__(self, o):
        return self._bin(o, "mod")

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, "mod", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        return self._bin(o, "pow")

    def __rpow__(self, o):
        return self._bin(o, "pow", True)

    def __neg__(self):
        return SymNum(self.k, -self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if z3.is_app_of(self.t, z3.Z3_OP_UMINUS):
            return SymNum(self.k, z3.If(self.t >= 0, self.t, self.t.arg(0)))
        return SymNum(self.k, z3.If(self.t >= 0, self.t, -self.t))

    def __invert__(self):
        return -self - 1

    def __and__(self, o):
        return self._bin(o, "and")

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, "xor")

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self._bin(o, "lshift")

    def __rlshift__(self, o):
        return self._bin(o, "lshift", True)

    def __rshift__(self, o):
        return self._bin(o, "rshift")

    def __rrshift__(self, o):
        return self._bin(o, "rshift", True)

    # -- comparison ---------------------------------------------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, SymFP):
            return NotImplemented
        if isinstance(o, SymNum) or const_num(o):
            return num_cmp(op, self, o)
        if _is_array(o):
            return _arr(o, op, self)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __bool__(self):
        return engine().branch(self.t != 0)

    def __hash__(self):
        if self.k == "i":
            return hash(self.__index__())
        raise Unsupported("hash of a symbolic real")

    # -- conversions --------------------------------------------------------------------------------------------
    def __index__(self):
        if self.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return engine().concretize_int(self.t)

    def __int__(self):
        return self.trunc().__index__() if self.k == "r" else self.__index__()

    def __float__(self):
        if self.k == "i":
            return float(self.__index__())
        return engine().concretize_real(self.t)

    def __complex__(self):
        return complex(float(self))

    def to_real(self):
        return self if self.k == "r" else SymNum("r", z3.ToReal(self.t))

    def floor(self):
        return self if self.k == "i" else SymNum("i", z3.ToInt(self.t))

    def ceil(self):
        return self if self.k == "i" else SymNum("i", -z3.ToInt(-self.t))

    def trunc(self):
        if self.k == "i":
            return self
        if z3.is_app_of(self.t, z3.Z3_OP_TO_REAL):
            return SymNum("i", self.t.arg(0))
        return SymNum("i", z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def rint(self):
        if self.k == "i" or z3.is_app_of(self.t, z3.Z3_OP_TO_REAL):
            return self.trunc()
        return SymNum("i", engine().rint(self.t))

    def __round__(self, n=None):
        if n is None:
            return self.rint()
        return self.round(n)

    def round(self, n=0):
        if self.k == "i":
            return self
        if n == 0:
            return self.rint().to_real()
        s = 10 ** n
        return (self * s).rint().to_real() / s

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __trunc__(self):
        return self.trunc()

    # numpy-scalar-like methods
    def item(self):
        return self

    def astype(self, dt):
        from . import symnp

        return symnp.cast_scalar(self, symnp.to_dtype(dt))

    @property
    def dtype(self):
        return np.dtype("int64") if self.k == "i" else np.dtype("float64")

    def any(self):
        return mk_bool(self.t != 0)

    all = any

    def sum(self):
        return self

    min = max = mean = sum

    def copy(self):
        return self

    def is_integer(self):
        return mk_bool(z3.IsInt(self.t)) if self.k == "r" else True

    def bit_length(self):
        return self.__index__().bit_length()

    def __repr__(self):
        return engine().token(self) if _engine is not None else "<SymNum>"

    __str__ = __repr__

    def __format__(self, spec):
        return engine().token(self, spec)


def bit_and(t, c):
    """t & c of an integer term and a constant, in integer arithmetic"""
    if c < 0:
        return t - bit_and(t, ~c)
    out, k = z3.IntVal(0), 0
    while c >> k:
        if not c >> k & 1:
            k += 1
            continue
        n = k
        while c >> n & 1:
            n += 1
        # the run of bits k..n-1
        q = t if k == 0 else t / z3.IntVal(1 << k)
        out = out + (q % z3.IntVal(1 << (n - k))) * (1 << k)
        k = n
    return z3.simplify(out)


def int_bits(op, a, b):
    if not all(isinstance(x, (int, np.integer)) or isinstance(x, SymNum) and x.k == "i" for x in (a, b)):
        raise TypeError(f"unsupported operand type(s) for {op}")
    if op in ("lshift", "rshift"):
        if isinstance(b, SymNum):
            b = engine().concretize_int(b.t)
        b = int(b)
        if b < 0:
            raise ValueError("negative shift count")
        return a * (1 << b) if op == "lshift" else a // (1 << b)
    if isinstance(a, SymNum) and isinstance(b, SymNum):
        raise Unsupported("bitwise operation on two symbolic integers")
    x, c = (a, int(b)) if isinstance(a, SymNum) else (b, int(a))
    both = bit_and(x.t, c)
    return SymNum("i", both if op == "and" else x.t + c - both if op == "or" else x.t + c - 2 * both)


def num_binop(op, a, b):
    """a op b with at least one SymNum; the other SymNum or a concrete number"""
    if op in ("and", "or", "xor", "lshift", "rshift"):
        return int_bits(op, a, b)
    fa, fb = _isfinite(a), _isfinite(b)
    if not (fa and fb):
        return _nonfinite_binop(op, a, b)
    ka, kb = _kind(a), _kind(b)
    if op == "div":
        k = "r"
    elif ka == "r" or kb == "r":
        k = "r"
    else:
        k = "i"
    ca, cb = not isinstance(a, SymNum), not isinstance(b, SymNum)
    if op == "add":
        if ca and a == 0 and kb == k:
            return b
        if cb and b == 0 and ka == k:
            return a
        return SymNum(k, _term(a, k) + _term(b, k))
    if op == "sub":
        if cb and b == 0 and ka == k:
            return a
        ta, tb = _term(a, k), _term(b, k)
        if ta.eq(tb):
            return 0.0 if k == "r" else 0
        return SymNum(k, ta - tb)
    if op == "mul":
        for (c, v, kv) in ((ca, a, kb), (cb, b, ka)):
            if c and v == 0:
                return 0.0 if k == "r" else 0
        if ca and a == 1 and kb == k:
            return b
        if cb and b == 1 and ka == k:
            return a
        return SymNum(k, _term(a, k) * _term(b, k))
    if op == "div":
        if cb:
            if b == 0:
                return _div_by_zero(a, b)
            if b == 1:
                return a.to_real()
            f = _frac(b)
            return SymNum("r", _term(a, "r") * z3.Q(f.denominator, f.numerator))
        tb = _term(b, "r")
        if engine().branch(tb == 0):
            return _div_by_zero(a, b)
        if ca and a == 0:
            return 0.0
        return SymNum("r", _term(a, "r") / tb)
    if op in ("floordiv", "mod"):
        if cb and b == 0 or (not cb and engine().branch(_term(b, k) == 0)):
            raise ZeroDivisionError("division or modulo by zero")
        if k == "r":
            q = SymNum("r", _term(a, "r") / _term(b, "r"))
            fl = q.floor().to_real()
            return fl if op == "floordiv" else a - fl * b
        ta, tb = _term(a, "i"), _term(b, "i")
        # SMT div/mod: remainder in [0, |b|); Python: sign of the divisor
        if cb and b > 0:
            return SymNum("i", ta / tb if op == "floordiv" else ta % tb)
        fl = z3.If(tb > 0, ta / tb, (-ta) / (-tb))
        return SymNum("i", fl if op == "floordiv" else ta - fl * tb)
    if op == "pow":
        if cb:
            if b == 2:
                return SymNum(k, _term(a, k) * _term(a, k))
            if b == 1:
                return a
            if b == 0:
                return 1.0 if k == "r" else 1
            if b == 0.5:
                return sym_sqrt(a)
            if isinstance(b, (int, np.integer)) and 0 < b <= 6:
                r = a
                for _ in range(int(b) - 1):
                    r = r * a
                return r
            if isinstance(b, (int, np.integer)) and -6 <= b < 0:
                return 1.0 / num_binop("pow", a, -int(b))
        raise Unsupported("power")
    raise Unsupported(op)


def _div_by_zero(a, b):
    if not isinstance(b, SymNum) and isinstance(b, int) and not isinstance(b, np.generic) and _kind(a) == "i":
        raise ZeroDivisionError("division by zero")
    if isinstance(b, SymNum) and b.k == "i":
        raise ZeroDivisionError("division by zero")
    s = a > 0
    if bool(s):
        return np.float64(INF)
    if bool(a < 0):
        return np.float64(-INF)
    return np.float64("nan")


def _nonfinite_binop(op, a, b):
    ca = not isinstance(a, SymNum)
    c, s = (a, b) if ca else (b, a)
    c = float(c)
    if c != c:
        return np.float64("nan")
    if op == "add":
        return np.float64(c)
    if op == "sub":
        return np.float64(c if ca else -c)
    if op == "mul":
        if bool(s > 0):
            return np.float64(c)
        if bool(s < 0):
            return np.float64(-c)
        return np.float64("nan")
    if op == "div":
        if not ca:
            return np.float64(0.0)
        return np.float64(c) if bool(s >= 0) else np.float64(-c)
    raise Unsupported("non-finite " + op)


_CMPF = {
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
}


def num_cmp(op, a, b):
    if isinstance(b, np.ndarray):
        b = b.item()
    if not isinstance(b, SymNum) and not _isfinite(b):
        return bool(_CMPF[op](0.0, float(b)))
    if not isinstance(a, SymNum) and not _isfinite(a):
        return bool(_CMPF[op](float(a), 0.0))
    k = "r" if _kind(a) == "r" or _kind(b) == "r" else "i"
    ta, tb = _term(a, k), _term(b, k)
    if ta.eq(tb):
        return op in ("le", "ge", "eq")
    return mk_bool(_CMPF[op](ta, tb))


def sym_sqrt(x):
    if not is_sym(x):
        return np.sqrt(x)
    x = _n(x)
    if isinstance(x, SymFP):
        return SymFP(x.k, z3.fpSqrt(_RNE, x.t))
    return engine().sqrt(x.to_real())


# --------------------------------------------------------------------------------------------------------------
# IEEE floats (bit exact)
# --------------------------------------------------------------------------------------------------------------
class SymFP(Sym):
    __slots__ = ("k", "t")  # k in f32, f64

    def __init__(self, k, t):
        self.k, self.t = k, t

    def _bin(self, o, op, swap=False):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, SymNum):
            return NotImplemented
        if isinstance(o, SymFP) or const_num(o):
            a, b = (o, self) if swap else (self, o)
            k = fp_kind(a, b)
            ta, tb = fp_term(a, k), fp_term(b, k)
            f = {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}.get(op)
            if f is None:
                raise Unsupported("fp " + op)
            return SymFP(k, f(_RNE, ta, tb))
        if _is_array(o):
            return _arr(o, op, self, swapped=swap)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        return self._bin(o, "mul")

    def __rmul__(self, o):
        return self._bin(o, "mul", True)

    def __truediv__(self, o):
        return self._bin(o, "div")

    def __rtruediv__(self, o):
        return self._bin(o, "div", True)

    def __neg__(self):
        return SymFP(self.k, z3.fpNeg(self.t))

    def __abs__(self):
        return SymFP(self.k, z3.fpAbs(self.t))

    def _cmp(self, o, op):
        if isinstance(o, SymFP) or const_num(o):
            k = fp_kind(self, o, cmp=True)
            ta, tb = fp_term(self, k), fp_term(o, k)
            t = {
                "lt": z3.fpLT,
                "le": z3.fpLEQ,
                "gt": z3.fpGT,
                "ge": z3.fpGEQ,
                "eq": z3.fpEQ,
                "ne": lambda a, b: z3.Not(z3.fpEQ(a, b)),
            }[op](ta, tb)
            return mk_bool(z3.simplify(t))
        if _is_array(o):
            return _arr(o, op, self)
        return NotImplemented

    __lt__ = lambda self, o: self._cmp(o, "lt")
    __le__ = lambda self, o: self._cmp(o, "le")
    __gt__ = lambda self, o: self._cmp(o, "gt")
    __ge__ = lambda self, o: self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    __hash__ = None

    def __bool__(self):
        return engine().branch(z3.Not(z3.fpIsZero(self.t)))

    def isnan(self):
        return mk_bool(z3.simplify(z3.fpIsNaN(self.t)))

    def to(self, k):
        return self if k == self.k else SymFP(k, fp_term(self, k))

    def item(self):
        return self.to("f64")

    def astype(self, dt):
        from . import symnp

        return symnp.cast_scalar(self, symnp.to_dtype(dt))

    @property
    def dtype(self):
        return np.dtype("float32" if self.k == "f32" else "float64")

    def __float__(self):
        raise Unsupported("concretising a symbolic IEEE float")

    def __repr__(self):
        return engine().token(self) if _engine is not None else "<SymFP>"

    __str__ = __repr__

    def __format__(self, spec):
        return engine().token(self, spec)


def fp_kind(*xs, cmp=False):
    ks = set()
    for x in xs:
        if isinstance(x, SymFP):
            ks.add(x.k)
        elif isinstance(x, np.float32):
            ks.add("f32")
        else:
            # a Python int/float or float64 next to a float32 scalar: numpy 1.26 promotes two scalars to float64
            ks.add("f64")
    return "f64" if "f64" in ks else "f32"


def fp_term(x, k):
    s = _F32 if k == "f32" else _F64
    if isinstance(x, SymFP):
        if x.k == k:
            return x.t
        return z3.fpFPToFP(_RNE, x.t, s)
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    x = float(x)
    if k == "f32":
        x = float(np.float32(x))
    if x != x:
        return z3.fpNaN(s)
    if x in (INF, -INF):
        return z3.fpInfinity(s, x < 0)
    return z3.FPVal(x, s)


# --------------------------------------------------------------------------------------------------------------
# the engine
# --------------------------------------------------------------------------------------------------------------
class Stats:
    FIELDS = (
        "paths completed infeasible aborted branches forks checks_discharged checks_trivial queries unknown "
        "concretised unsupported too_deep undecided validated diverged"
    ).split()

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        return d


def ratform(t, memo=None, budget=None):
    """(numerator, {factor id: (factor, power)}) of a term made of + - * /; denominators are known not to be zero,
    because the engine forks on that before it divides"""
    if memo is None:
        memo = {}
    got = memo.get(t.get_id())
    if got is not None:
        return got[1]
    k = t.decl().kind()
    c = t.children()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        parts = [ratform(x, memo) for x in c]
        if k == z3.Z3_OP_SUB:
            parts = [parts[0]] + [(-n, d) for n, d in parts[1:]]
        den = {}
        for _, d in parts:
            for i, (f, e) in d.items():
                if i not in den or den[i][1] < e:
                    den[i] = (f, e)
        num = None
        for n, d in parts:
            for i, (f, e) in den.items():
                for _ in range(e - (d[i][1] if i in d else 0)):
                    n = n * f
            num = n if num is None else num + n
        r = (num, den)
    elif k == z3.Z3_OP_MUL:
        num, den = None, {}
        for x in c:
            n, d = ratform(x, memo)
            num = n if num is None else num * n
            for i, (f, e) in d.items():
                den[i] = (f, e + (den[i][1] if i in den else 0))
        r = (num, den)
    elif k == z3.Z3_OP_UMINUS:
        n, d = ratform(c[0], memo)
        r = (-n, d)
    elif k == z3.Z3_OP_DIV and not z3.is_rational_value(c[1]):
        n, d = ratform(c[0], memo)
        n2, d2 = ratform(c[1], memo)
        den = dict(d)
        for i, (f, e) in d2.items():
            if i in den and den[i][1] >= e:
                den[i] = (f, den[i][1] - e)
            else:
                h = e - (den[i][1] if i in den else 0)
                den.pop(i, None)
                for _ in range(h):
                    n = n * f
        den = {i: v for i, v in den.items() if v[1] > 0}
        f = z3.simplify(n2, som=True)
        if z3.is_rational_value(f):
            n = n * (1 / f)
        else:
            i = f.get_id()
            den[i] = (f, 1 + (den[i][1] if i in den else 0))
        r = (n, den)
    else:
        r = (t, {})
    memo[t.get_id()] = (t, r)
    return r


def _has_div(t, depth=0):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 4000:
            return False
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
            stack.extend(x.children())
    return False


def rational_zero(t):
    """is the term identically zero as a rational function"""
    if not _has_div(t):
        return z3.is_rational_value(z3.simplify(t, som=True)) and z3.simplify(t, som=True).as_fraction() == 0
    n, _ = ratform(t)
    n = z3.simplify(n, som=True)
    return z3.is_rational_value(n) and n.as_fraction() == 0


def _sos(t, depth=0):
    """is the term evidently not negative (a sum of squares)"""
    if depth > 12:
        return False
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return t.as_fraction() >= 0 if z3.is_rational_value(t) else t.as_long() >= 0
    k = t.decl().kind()
    c = t.children()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_ITE:
        return all(_sos(x, depth + 1) for x in (c[1:] if k == z3.Z3_OP_ITE else c))
    if k == z3.Z3_OP_MUL:
        return len(c) == 2 and c[0].eq(c[1]) or all(_sos(x, depth + 1) for x in c)
    if k == z3.Z3_OP_POWER:
        return z3.is_int_value(c[1]) and c[1].as_long() % 2 == 0 or z3.is_rational_value(c[1]) and c[1].as_fraction() == 2
    if k == z3.Z3_OP_TO_REAL:
        return _sos(c[0], depth + 1)
    return False


class Engine:
    def __init__(self, timeout_ms=20000, max_depth=4000, branch_timeout_ms=3000):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.max_depth = max_depth
        self.nonlinear = False
        self.reached = set()
        self.notes = {}

    # -- one path -----------------------------------------------------------------------------------------------
    split_minmax = split_ite = False

    def begin(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_timeout_ms)
        self.pc = []
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.decided = {}
        self.keep = []
        self.model = None
        self.vars = {}
        self.sqrts = {}
        self.rints = {}
        self.defs = []
        self.tokens = {}
        self.nfresh = 0
        self.observations = []
        self.path_incomplete = None
        self.last_neg = None
        self.final_model = None
        self.split_minmax = self.split_ite = False

    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(t, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, *extra, timeout=None):
        t0 = time.time()
        self.stats.queries += 1
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        m = self.solver.model() if r == z3.sat else None
        if timeout:
            self.solver.set("timeout", self.branch_timeout_ms)
        self.stats.solver_s += time.time() - t0
        return r, m

    def _model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.sat:
                self.model = m
        return self.model

    def branch(self, t):
        if t is True or t is False:
            return t
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        got = self.decided.get(t.get_id())
        if got is not None:
            return got
        s = None
        if z3.is_eq(t) and t.arg(0).sort() == z3.RealSort() and _has_div(t):
            n, _ = ratform(t.arg(0) - t.arg(1))
            n = z3.simplify(n, som=True)
            s = z3.simplify(n == 0)
        if s is None:
            s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        h = t.hash()
        if len(self.trace) >= self.max_depth:
            raise PathTooDeep()
        self.stats.branches += 1
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != "b":
                raise RuntimeError("non-deterministic harness: expected a branch decision")
            take, forced = d[1], d[2]
            if d[3] != h:
                raise RuntimeError(f"non-deterministic harness: branch {i} differs")
        else:
            m = self._model()
            side = None
            if m is not None:
                v = m.eval(s, model_completion=True)
                side = True if z3.is_true(v) else False if z3.is_false(v) else None
            if side is None:
                r1, m1 = self._check(s)
                r2, m2 = self._check(z3.Not(s))
            elif side:
                r1, m1 = z3.sat, m
                r2, m2 = self._check(z3.Not(s))
            else:
                r2, m2 = z3.sat, m
                r1, m1 = self._check(s)
            for r in (r1, r2):
                if r == z3.unknown:
                    self.stats.unknown += 1  # treated as feasible (sound over-approximation)
            if r1 == z3.unsat and r2 == z3.unsat:
                raise PathInfeasible()
            forced = r1 == z3.unsat or r2 == z3.unsat
            if r1 == z3.unsat:
                take = False
            elif r2 == z3.unsat:
                take = True
            else:
                take = True
                self.pending.append(self.trace + [("b", False, False, h)])
                self.stats.forks += 1
            if not forced:
                self.model = m1 if r1 == z3.sat else None
        self.trace.append(("b", take, forced, h))
        c = s if take else z3.Not(s)
        if not forced:
            self.add(c)
        else:
            self.pc.append(c)
        self.decided[t.get_id()] = take
        self.keep.append((t, s))
        return take

    def concretize_int(self, t):
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        got = self.decided.get(("v", t.get_id()))
        if got is not None:
            return got
        while True:
            if len(self.trace) >= self.max_depth:
                raise PathTooDeep()
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                if d[0] != "v":
                    raise RuntimeError("non-deterministic harness: expected a value decision")
                _, val, take = d
                self.trace.append(d)
                self.add(s == val if take else s != val)
                if take:
                    break
                continue
            m = self._model()
            if m is None:
                raise Unsupported("value of an undecided term")
            val = m.eval(s, model_completion=True).as_long()
            r, _ = self._check(s != val)
            if r != z3.unsat:
                if r == z3.unknown:
                    self.stats.unknown += 1
                self.pending.append(self.trace + [("v", val, False)])
                self.stats.forks += 1
            self.trace.append(("v", val, True))
            self.add(s == val)
            break
        self.decided[("v", t.get_id())] = val
        self.keep.append((t, s))
        return val

    def pick_int(self, t):
        """Pick one value of an integer term: an under-approximation, recorded."""
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        got = self.decided.get(("p", s.get_id()))
        if got is not None:
            return got
        self.stats.concretised += 1
        self.path_incomplete = "concretised a symbolic integer"
        m = self._model()
        if m is None:
            raise Unsupported("value of an undecided term")
        v = m.eval(s, model_completion=True).as_long()
        self.add(s == v)
        self.decided[("p", s.get_id())] = v
        self.keep.append(s)
        return v

    def concretize_real(self, t):
        """Pick one value: an under-approximation, recorded (the path is no longer exhaustive)."""
        s = z3.simplify(t)
        if z3.is_rational_value(s):
            return float(s.as_fraction())
        got = self.decided.get(("v", s.get_id()))
        if got is not None:
            return got
        self.stats.concretised += 1
        self.path_incomplete = "concretised a symbolic real"
        m = self._model()
        if m is None:
            raise Unsupported("value of an undecided term")
        v = float(to_fraction(m.eval(s, model_completion=True)))
        self.add(s == rval(v))
        self.model = None
        if self._model() is None:
            raise Unsupported("concretisation")
        self.decided[("v", s.get_id())] = v
        self.keep.append(s)
        return v

    def assume(self, c):
        if isinstance(c, SymNum):
            c = mk_bool(c.t != 0)
        if not isinstance(c, SymBool):
            if not c:
                raise PathInfeasible()
            return
        s = z3.simplify(c.t)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise PathInfeasible()
        self.add(s)
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            self.model = m

    def fresh(self, kind, name=None):
        self.nfresh += 1
        n = name or f"k!{self.nfresh}"
        return {"i": z3.Int, "r": z3.Real, "b": z3.Bool}[kind](n)

    def sqrt(self, x):
        nonneg = _sos(x.t)
        t = z3.simplify(x.t, som=True)
        if z3.is_rational_value(t):
            f = t.as_fraction()
            if f >= 0:
                import math

                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if n * n == f.numerator and d * d == f.denominator:
                    return SymNum("r", z3.Q(n, d))
        key = t.get_id()
        got = self.sqrts.get(key)
        if got is None:
            if not nonneg and self.branch(t < 0):
                return np.float64("nan")
            s = self.fresh("r", f"sqrt!{len(self.sqrts)}")
            self.nonlinear = True
            d = [s >= 0, s * s == t]
            self.model = None
            for c in d:
                self.pc.append(c)
                self.solver.add(c)
            self.sqrts[key] = got = (s, t)
            self.model = None
        return SymNum("r", got[0])

    def rint(self, t):
        """the nearest integer, the even one of two"""
        t = z3.simplify(t, som=True)
        if z3.is_rational_value(t):
            return z3.IntVal(round(t.as_fraction()))
        got = self.rints.get(t.get_id())
        if got is None:
            n = len(self.rints)
            r, h = self.fresh("i", f"rint!{n}"), self.fresh("i", f"rinth!{n}")
            d = z3.ToReal(r) - t
            half = z3.Q(1, 2)
            for c in (d <= half, d >= -half, z3.Implies(z3.Or(d == half, d == -half), r == 2 * h)):
                self.pc.append(c)
                self.solver.add(c)
            self.rints[t.get_id()] = got = (r, t)
            self.model = None
        return got[0]

    def number(self, text):
        """the number a piece of text stands for, if it is one"""
        t = text.strip()
        neg = t.startswith("-")
        got = self.tokens.get(t.lstrip("+-"))
        if got is None or not isinstance(got[0], SymNum):
            return None
        if got[1] not in ("", "d"):
            raise Unsupported("reading back a rounded number")
        return -got[0] if neg else got[0]

    def token(self, x, spec=""):
        key = f"⟦{len(self.tokens)}⟧"
        if isinstance(x, str):
            self.tokens[key] = (x, spec)
            return key
        for k, (v, sp) in self.tokens.items():
            if sp == spec and type(v) is type(x) and not isinstance(v, str) and v.t.eq(x.t):
                return k
        self.tokens[key] = (x, spec)
        return key

    # -- deciding assertions ---------------------------------------------------------------------------------------
    def decide(self, neg):
        """sat / unsat / unknown for  path condition and neg.  Portfolio: the incremental solver, then fresh ones."""
        r, m = self._check(neg, timeout=self.timeout_ms)
        if r != z3.unknown:
            return r, m
        goal = self.pc + [neg]
        t0 = time.time()
        try:
            for mk in (
                lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver(),
                lambda: z3.Then("simplify", "solve-eqs", "smt").solver(),
                lambda: z3.SolverFor("QF_NRA"),
            ):
                try:
                    s = mk()
                    s.set("timeout", self.timeout_ms)
                    s.add(*goal)
                    self.stats.queries += 1
                    r = s.check()
                    if r != z3.unknown:
                        return r, (s.model() if r == z3.sat else None)
                except z3.Z3Exception:
                    continue
            r = cvc5_check(goal, self.timeout_ms)
            self.stats.queries += 1
            if r == "unsat":
                return z3.unsat, None
        finally:
            self.stats.solver_s += time.time() - t0
        return z3.unknown, None

    def check(self, c, label):
        """Assert c on this path: discharged, or a Violation carrying a model."""
        if isinstance(c, SymNum):
            c = mk_bool(c.t != 0)
        if _is_array(c):
            c = c.all()
        if not isinstance(c, SymBool):
            if c:
                self.stats.checks_trivial += 1
                return
            m = self._model()
            if m is None:
                self.stats.undecided += 1
                return
            self.last_neg = None
            raise Violation(label, m)
        s = z3.simplify(c.t)
        if z3.is_true(s):
            self.stats.checks_trivial += 1
            return
        r, m = self.decide(z3.Not(s))
        if r == z3.unsat:
            self.stats.checks_discharged += 1
            self.pc.append(s)
            self.solver.add(s)
            return
        if r == z3.sat:
            self.last_neg = z3.Not(s)
            raise Violation(label, m)
        self.stats.undecided += 1
        self.notes.setdefault("undecided", set()).add(label)
        self.solver.add(s)
        self.pc.append(s)
        self.model = None


def cvc5_check(goal, timeout_ms):
    import subprocess
    import tempfile

    s = z3.Solver()
    s.add(*goal)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
        f.write(txt)
        f.flush()
        try:
            p = subprocess.run(
                ["cvc5", "--nl-cov", f"--tlimit={timeout_ms}", f.name], capture_output=True, text=True,
                timeout=timeout_ms / 1000 + 10,
            )
        except (subprocess.TimeoutExpired, OSError):
            return "unknown"
    out = p.stdout.strip().splitlines()
    if "(error" in p.stdout or not out:
        return "unknown"
    return out[0]


def to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(40).as_fraction()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_fp(v):
        return fp_to_float(v)
    raise ValueError(f"no value: {v}")


def fp_to_float(v):
    v = z3.simplify(v)
    if z3.is_fp_value(v):
        if v.isNaN():
            return float("nan")
        if v.isInf():
            return float("-inf") if v.isNegative() else float("inf")
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
    bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    import struct

    if v.sort() == _F32:
        return struct.unpack("<f", struct.pack("<I", bv))[0]
    return struct.unpack("<d", struct.pack("<Q", bv))[0]
