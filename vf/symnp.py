"""A numpy look-alike over symbolic elements.

SymArray keeps its elements in an object ndarray (`.a`) together with the logical dtype (`.dt`) the real program would
have.  Structure (shape, indexing, views) is delegated to numpy; element arithmetic builds SMT terms.  An array whose
elements are all concrete is handed to the real numpy, so concrete parts of the program behave exactly as they do.
"""
import builtins
import itertools
import math
import os
import sys
import types

import numpy as np

from . import core
from .core import (
    Sym, SymBool, SymNum, SymFP, Unsupported, is_sym, mk_and, mk_bool, mk_ite, mk_not, mk_or, num_binop, sym_sqrt, _n,
)

_OBJ = np.dtype(object)


# --------------------------------------------------------------------------------------------------------------
# dtypes and casts
# --------------------------------------------------------------------------------------------------------------
def to_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, np.dtype):
        return dt
    m = getattr(dt, "_np_dtype", None)
    if m is not None:
        return np.dtype(m)
    return np.dtype(dt)


def scalar_dt(x):
    if isinstance(x, Sym):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, bool):
        return np.dtype(bool)
    if isinstance(x, int):
        return np.dtype("int64")
    if isinstance(x, float):
        return np.dtype("float64")
    if isinstance(x, str):
        return np.array(x).dtype
    return _OBJ


def cast_scalar(x, dt):
    k = dt.kind
    if not isinstance(x, Sym):
        if k == "O":
            return x
        with np.errstate(all="ignore"):
            return np.asarray(x).astype(dt)[()]
    if k == "O":
        return x
    if k == "b":
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymFP):
            return mk_not(mk_bool(core.z3.fpIsZero(x.t)))
        return mk_bool(x.t != 0)
    if isinstance(x, SymFP):
        if k == "f":
            return x.to("f32" if dt.itemsize == 4 else "f64")
        raise Unsupported("IEEE float to " + dt.name)
    if isinstance(x, SymBool):
        x = x.as_int()
    if k in "iu":
        x = x.trunc()
        if dt.itemsize < 8:
            n = 1 << (8 * dt.itemsize)
            x = x % n
            if k == "i":
                x = mk_ite(x >= n // 2, x - n, x)
        return x
    if k == "f":
        return x.to_real()
    if k == "U":
        return str(x)
    raise Unsupported("cast to " + dt.name)


def has_sym(a):
    for x in a.flat:
        if isinstance(x, Sym):
            return True
    return False


def _objarray(x):
    """object ndarray (fresh unless x is already one) and logical dtype of anything array-like"""
    if isinstance(x, SymArray):
        return x.a, x.dt
    if isinstance(x, np.ndarray):
        if x.dtype == _OBJ:
            return x, _infer(x)
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            o[i] = x[i]
        return o, x.dtype
    if isinstance(x, (Sym, np.generic, int, float, bool, str)) or x is None:
        o = np.empty((), dtype=object)
        o[()] = x
        return o, scalar_dt(x)
    if isinstance(x, (list, tuple)) or hasattr(x, "__len__") and hasattr(x, "__getitem__") or isinstance(x, range):
        if isinstance(x, (dict, set)):
            o = np.empty((), dtype=object)
            o[()] = x
            return o, _OBJ
        items = [_objarray(i) for i in x]
        if not items:
            return np.empty((0,), dtype=object), np.dtype("float64")
        shapes = {i[0].shape for i in items}
        if len(shapes) > 1:
            raise ValueError(
                "setting an array element with a sequence. The requested array has an inhomogeneous shape"
            )
        o = np.empty((len(items),) + items[0][0].shape, dtype=object)
        for n, i in enumerate(items):
            o[n] = i[0] if i[0].ndim else i[0][()]
        dts = {i[1] for i in items}
        if len(dts) == 1:
            dt = dts.pop()
        elif _OBJ in dts:
            dt = _OBJ
        elif builtins.any(d.kind == "U" for d in dts):
            dt = np.array([c.item() if isinstance(c, np.generic) else c for c in o.flat]).dtype
        else:
            dt = np.result_type(*dts)
        if dt.kind not in "O":
            for i in np.ndindex(o.shape):
                o[i] = cast_scalar(o[i], dt)
        return o, dt
    o = np.empty((), dtype=object)
    o[()] = x
    return o, _OBJ


def _infer(a):
    dts = {scalar_dt(x) for x in a.flat}
    if not dts:
        return np.dtype("float64")
    if _OBJ in dts:
        return _OBJ
    if len(dts) == 1:
        return dts.pop()
    return np.result_type(*dts)


def _cast_obj(o, dt):
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        r[i] = cast_scalar(o[i], dt)
    return r


def wrap(x, dt=None):
    """real numpy result -> SymArray / scalar"""
    if isinstance(x, np.ndarray):
        if x.dtype == _OBJ and dt is not None and dt != _OBJ:
            return SymArray(_cast_obj(x, dt), dt)
        o, d = _objarray(x)
        return SymArray(o, d)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(i) for i in x)
    if isinstance(x, list):
        return [wrap(i) for i in x]
    return x


def unwrap(x):
    """SymArray -> real ndarray (typed when concrete, else object)"""
    if isinstance(x, SymArray):
        return x.real()
    if isinstance(x, (list, tuple)) and builtins.any(isinstance(i, (SymArray, list, tuple)) for i in x):
        r = [unwrap(i) for i in x]
        return type(x)(r) if type(x) in (list, tuple) else r
    return x


def _contains_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return has_sym(x.a)
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains_sym(i) for i in x)
    if isinstance(x, slice):
        return _contains_sym((x.start, x.stop, x.step))
    if isinstance(x, dict):
        return builtins.any(_contains_sym(i) for i in x.values())
    return False


def asym(x, dtype=None):
    if isinstance(x, SymArray):
        return x
    o, d = _objarray(x)
    return SymArray(o, d)


def _result(o, dt):
    """object ndarray or scalar of an elementwise operation -> SymArray or scalar"""
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return o[()]
        return SymArray(o, dt)
    return o


# --------------------------------------------------------------------------------------------------------------
# elementwise operations
# --------------------------------------------------------------------------------------------------------------
def _py(f):
    """elementwise function; concrete pairs go through the real ufunc"""
    return f


def _el(real, symf):
    def g(*xs):
        for x in xs:
            if isinstance(x, Sym):
                return symf(*xs)
        with np.errstate(all="ignore"):
            return real(*xs)

    return g


def _isnan(x):
    if isinstance(x, SymFP):
        return x.isnan()
    return False


def _isinf(x):
    if isinstance(x, SymFP):
        return mk_bool(core.z3.fpIsInf(x.t))
    return False


def _isfinite(x):
    return mk_not(mk_or(_isnan(x), _isinf(x)))


def _nanc(x):
    return not isinstance(x, Sym) and isinstance(x, (float, np.floating)) and x != x


def _maximum(a, b):
    if _nanc(a) or _nanc(b):
        return np.float64("nan")
    a, b = _n(a), _n(b)
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        na, nb = _isnan(a), _isnan(b)
        return mk_ite(na, a, mk_ite(nb, b, mk_ite(a >= b, a, b)))
    return _pick(a >= b, a, b)


def _pick(c, a, b):
    """one of two values: by a fork when the harness asked for it, by an if-then-else term otherwise"""
    if isinstance(c, SymBool) and core.engine().split_minmax:
        return a if bool(c) else b
    return mk_ite(c, a, b)


def _minimum(a, b):
    if _nanc(a) or _nanc(b):
        return np.float64("nan")
    a, b = _n(a), _n(b)
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        na, nb = _isnan(a), _isnan(b)
        return mk_ite(na, a, mk_ite(nb, b, mk_ite(a <= b, a, b)))
    return _pick(a <= b, a, b)


def _sign(x):
    return mk_ite(x > 0, 1, mk_ite(x < 0, -1, 0)) if x.k == "i" else mk_ite(x > 0, 1.0, mk_ite(x < 0, -1.0, 0.0))


def _rint(x):
    return x.round(0)


def _floor(x):
    return x.floor().to_real() if x.k == "r" else x


def _ceil(x):
    return x.ceil().to_real() if x.k == "r" else x


def _trunc(x):
    return x.trunc().to_real() if x.k == "r" else x


def _unsup(name):
    def f(*a):
        raise Unsupported(name + " of a symbolic value")

    return f


def _hypot(a, b):
    return sym_sqrt(a * a + b * b)


def _xor(a, b):
    return mk_bool(core.z3.Xor(core.bterm(a), core.bterm(b)))


_B = lambda x: x if isinstance(x, (bool, np.bool_, SymBool)) else (x != 0)  # noqa: E731


def _bitwise(op):
    def f(a, b):
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
            return {"and": mk_and, "or": mk_or, "xor": _xor}[op](a, b)
        a, b = (x.as_int() if isinstance(x, SymBool) else x for x in (a, b))
        return {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]()

    return f


def _eq(a, b):
    return a == b


def _add(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mk_or(a, b)
    return a + b


def _mul(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mk_and(a, b)
    return a * b


def _div(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, int) and not isinstance(a, np.generic):
        a = np.int64(a)  # numpy division semantics: no ZeroDivisionError
    if isinstance(a, SymNum) and a.k == "i":
        a = a.to_real()
    if isinstance(b, SymNum) and b.k == "i":
        b = b.to_real()
    return a / b


def _pow(a, b):
    return a ** b


ELEMENT = {
    "add": _add,
    "subtract": lambda a, b: a - b,
    "multiply": _mul,
    "divide": _div,
    "true_divide": _div,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "mod": lambda a, b: a % b,
    "power": _pow,
    "float_power": _pow,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(_n(a)),
    "abs": lambda a: abs(_n(a)),
    "fabs": lambda a: abs(_n(a)),
    "square": lambda a: a * a,
    "sqrt": sym_sqrt,
    "reciprocal": lambda a: 1.0 / a,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": _eq,
    "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: mk_and(_B(a), _B(b)),
    "logical_or": lambda a, b: mk_or(_B(a), _B(b)),
    "logical_xor": lambda a, b: _xor(_B(a), _B(b)),
    "logical_not": lambda a: mk_not(_B(a)),
    "bitwise_and": _bitwise("and"),
    "bitwise_or": _bitwise("or"),
    "bitwise_xor": _bitwise("xor"),
    "invert": lambda a: mk_not(a) if isinstance(a, SymBool) else -a - 1,
    "bitwise_not": lambda a: mk_not(a) if isinstance(a, SymBool) else -a - 1,
    "left_shift": lambda a, b: a << b,
    "right_shift": lambda a, b: a >> b,
    "maximum": _maximum,
    "minimum": _minimum,
    "fmax": _maximum,
    "fmin": _minimum,
    "sign": _sign,
    "rint": _rint,
    "floor": _floor,
    "ceil": _ceil,
    "trunc": _trunc,
    "isnan": _isnan,
    "isinf": _isinf,
    "isfinite": _isfinite,
    "hypot": _hypot,
    "exp": _unsup("exp"),
    "log": _unsup("log"),
    "sin": _unsup("sin"),
    "cos": _unsup("cos"),
    "tan": _unsup("tan"),
    "arctan2": _unsup("arctan2"),
}
_OPNAME = {
    "div": "divide", "sub": "subtract", "mul": "multiply", "floordiv": "floor_divide", "pow": "power",
    "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal", "ne": "not_equal",
    "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor", "lshift": "left_shift", "rshift": "right_shift",
}


def _dummy(x):
    """stand-in operand that numpy's promotion rules treat like x"""
    if isinstance(x, SymArray):
        d = x.dt
        if d == _OBJ:
            d = np.dtype("float64")
        if d.kind == "U":
            return np.array(["a"], dtype=d) if x.a.ndim else np.array("a", dtype=d)
        return np.ones((1,) * x.a.ndim, dtype=d)
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymNum):
        return 1 if x.k == "i" else 1.5
    if isinstance(x, SymFP):
        return np.float32(1.5) if x.k == "f32" else np.float64(1.5)
    if isinstance(x, (np.generic, np.ndarray)):
        return np.ones_like(x) if x.dtype.kind in "biuf" else x
    if isinstance(x, bool):
        return True
    if isinstance(x, float):
        return 1.5
    if isinstance(x, int):
        return x if x else 1
    return x


class Ufunc:
    def __init__(self, name):
        self.__name__ = self.name = name
        self.real = getattr(np, name)
        self.el = _el(self.real, ELEMENT[name])
        self.nin = self.real.nin
        self.nout = 1
        self.identity = self.real.identity

    def result_dtype(self, args):
        try:
            with np.errstate(all="ignore"):
                r = self.real(*[_dummy(a) for a in args])
        except TypeError:
            if builtins.any(isinstance(a, SymArray) and a.dt == _OBJ for a in args):
                return _OBJ
            raise
        return r.dtype if isinstance(r, (np.ndarray, np.generic)) else np.dtype(type(r))

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, **kw):
        if isinstance(out, tuple):
            out = out[0]
        args = [
            a if isinstance(a, (SymArray, Sym, np.generic, int, float, bool, str)) else asym(a) for a in args
        ]
        if not builtins.any(_contains_sym(a) for a in args) and not _contains_sym(where) and out is None:
            with np.errstate(all="ignore"):
                if where is not True:
                    kw = dict(kw, where=unwrap(where))
                if dtype is not None:
                    kw = dict(kw, dtype=to_dtype(dtype))
                return wrap(self.real(*[unwrap(a) for a in args], **kw))
        dt = self.result_dtype(args)
        objs = [a.a if isinstance(a, SymArray) else a for a in args]
        shape = np.broadcast_shapes(*[np.shape(o) if isinstance(o, np.ndarray) else () for o in objs])
        r = np.empty(shape, dtype=object)
        bs = []
        for o in objs:
            if isinstance(o, np.ndarray):
                bs.append(np.broadcast_to(o, shape))
            else:
                b = np.empty((), dtype=object)
                b[()] = o
                bs.append(np.broadcast_to(b, shape))
        if where is not True:
            w = np.broadcast_to(asym(where).a, shape)
            base = np.broadcast_to(asym(out).a, shape) if out is not None else None
        keep = dt.kind in "O"
        f = self.el
        for i in np.ndindex(shape):
            v = f(*[b[i] for b in bs])
            if not keep:
                v = cast_scalar(v, dt)
            if where is not True:
                if base is None:
                    v = v if bool(w[i]) else np.float64(0)
                else:
                    v = mk_ite(w[i], v, base[i])
            r[i] = v
        if dtype is not None:
            dt = to_dtype(dtype)
            r = _cast_obj(r, dt)
        if out is not None:
            if not np.can_cast(dt, out.dt, "same_kind"):
                raise TypeError(
                    f"Cannot cast ufunc '{self.name}' output from {dt!r} to {out.dt!r} with casting rule 'same_kind'"
                )
            out[...] = SymArray(r, dt)
            return out
        return _result(r, dt)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _reduce(self, asym(a), axis, keepdims, initial)

    def outer(self, a, b, **kw):
        a, b = asym(a), asym(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def accumulate(self, a, axis=0, **kw):
        a = asym(a)
        m = np.moveaxis(a.a, axis, 0)
        r = np.empty(m.shape, dtype=object)
        for i in range(m.shape[0]):
            if i == 0:
                r[0] = m[0]
            else:
                for j in np.ndindex(m.shape[1:]):
                    r[(i,) + j] = self.el(r[(i - 1,) + j], m[(i,) + j])
        return SymArray(np.moveaxis(r, 0, axis), a.dt)

    def at(self, a, idx, b=None):
        raise Unsupported("ufunc.at")

    def __repr__(self):
        return f"<ufunc '{self.name}'>"


def array_binop(op, a, b):
    name = _OPNAME.get(op, op)
    return UFUNCS[name](a, b)


def logical_not(x):
    return UFUNCS["logical_not"](x)


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(i) % ndim for i in axis)
    axis = int(axis)
    if not -ndim <= axis < ndim:
        raise np.AxisError(axis, ndim) if hasattr(np, "AxisError") else ValueError("axis out of bounds")
    return (axis % ndim,)


def _fold(a, axis, keepdims, f, out_dt):
    """f(list of elements) over the given axes"""
    nd = a.a.ndim
    ax = _axes(axis, nd)
    rest = [i for i in range(nd) if i not in ax]
    m = np.transpose(a.a, rest + list(ax)).reshape([a.a.shape[i] for i in rest] + [int(np.prod([a.a.shape[i] for i in ax]))])
    r = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = f(list(m[i]))
    if keepdims:
        r = r.reshape([1 if i in ax else a.a.shape[i] for i in range(nd)])
    return _result(r, out_dt)


def _reduce(uf, a, axis, keepdims=False, initial=None):
    n = uf.name
    el = uf.el
    dt = a.dt
    if n in ("add", "multiply") and dt.kind == "b":
        dt = np.dtype("int64")
    if n in ("logical_and", "logical_or"):
        dt = np.dtype(bool)

    def f(xs):
        if initial is not None and not type(initial).__name__ == "_NoValueType":
            xs = [initial] + xs
        if not xs:
            if uf.identity is None:
                raise ValueError(
                    f"zero-size array to reduction operation {n} which has no identity"
                )
            return cast_scalar(uf.identity, dt) if dt != _OBJ else uf.identity
        if n in ("logical_and", "logical_or"):
            return (mk_and if n == "logical_and" else mk_or)(*[_B(x) for x in xs])
        if n in ("add", "multiply"):
            xs = [_n(x) for x in xs]
        r = xs[0]
        for x in xs[1:]:
            r = el(r, x)
        return cast_scalar(r, dt) if dt != _OBJ else r

    return _fold(a, axis, keepdims, f, dt)


# --------------------------------------------------------------------------------------------------------------
# the array class
# --------------------------------------------------------------------------------------------------------------
class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, np.ndarray))


class NDArray(metaclass=_Meta):
    """what the code under test sees as numpy.ndarray"""


def _index(k):
    """normalise an index expression; symbolic masks are forked here"""
    if isinstance(k, tuple):
        return tuple(_index(i) for i in k)
    if isinstance(k, SymArray):
        if k.dt.kind == "b":
            m = np.empty(k.a.shape, dtype=bool)
            for i in np.ndindex(m.shape):
                m[i] = bool(k.a[i])
            return m
        if k.dt.kind == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        m = np.empty(k.a.shape, dtype=np.int64)
        for i in np.ndindex(m.shape):
            m[i] = k.a[i].__index__()
        return m
    if isinstance(k, (list,)):
        return _index(asym(k)) if k else np.array([], dtype=np.int64)
    if isinstance(k, SymBool):
        return np.bool_(bool(k))
    if isinstance(k, SymNum):
        if k.k == "r":
            raise IndexError(
                "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean "
                "arrays are valid indices"
            )
        return k.__index__()
    if isinstance(k, slice):
        c = [i.__index__() if isinstance(i, (Sym, np.generic)) else i for i in (k.start, k.stop, k.step)]
        return slice(*c)
    return k


class SymArray:
    _symarray = True
    __array_ufunc__ = None
    __array_priority__ = 1000
    __hash__ = None
    __slots__ = ("a", "dt", "__weakref__")

    def __init__(self, a, dt):
        self.a, self.dt = a, dt

    # ------------------------------------------------------------------ attributes
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = tuple(s) if isinstance(s, (list, tuple)) else s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return self.dt

    @property
    def T(self):
        return SymArray(self.a.T, self.dt)

    @property
    def flat(self):
        return _Flat(self)

    @property
    def real_part(self):
        return self

    @property
    def nbytes(self):
        return self.a.size * self.dt.itemsize

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def flags(self):
        return self.a.flags

    @property
    def base(self):
        return self.a.base

    def real(self):
        if has_sym(self.a):
            return self.a
        if self.dt == _OBJ:
            return self.a
        return self.a.astype(self.dt)

    def __array__(self, dtype=None, copy=None):
        r = self.real()
        return r if dtype is None else r.astype(dtype)

    # ------------------------------------------------------------------ indexing
    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.a.shape[0]

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.a.shape[0]):
            yield self[i]

    def __getitem__(self, k):
        k = _index(k)
        r = self.a[k]
        if isinstance(r, np.ndarray):
            if r.dtype != _OBJ:
                r = r.astype(object)
            return SymArray(r, self.dt)
        return r

    def __setitem__(self, k, v):
        if isinstance(v, SymArray):
            o, d = v.a, v.dt
        else:
            o, d = _objarray(v)
        if self.dt.kind in "biuf" and d.kind == "U":
            o = np.array(o.tolist()).astype(self.dt).astype(object)
        if self.dt != _OBJ and d != self.dt:
            o = _cast_obj(o, self.dt)
        # symbolic mask: merge instead of forking when the value is a broadcastable scalar
        if isinstance(k, SymArray) and k.dt.kind == "b" and has_sym(k.a) and o.size == 1:
            val = o.reshape(-1)[0]
            m = k.a
            if m.shape == self.a.shape[: m.ndim]:
                for i in np.ndindex(m.shape):
                    if m.ndim == self.a.ndim:
                        self.a[i] = mk_ite(m[i], val, self.a[i])
                    else:
                        sub = self.a[i]
                        for j in np.ndindex(sub.shape):
                            sub[j] = mk_ite(m[i], val, sub[j])
                return
        k = _index(k)
        if o.ndim == 0:
            val = o[()]
            if isinstance(val, (list, tuple, dict)) or isinstance(val, np.ndarray):
                self.a[k] = val
                return
            tgt = self.a[k]
            if isinstance(tgt, np.ndarray):
                # fill element by element: an object array would otherwise try to iterate the value
                b = np.empty((), dtype=object)
                b[()] = val
                self.a[k] = b
            else:
                self.a[k] = val
            return
        tgt = self.a[k]
        if not isinstance(tgt, np.ndarray):
            if self.dt != _OBJ:
                if o.size == 1:
                    self.a[k] = o.reshape(-1)[0]
                    return
                raise ValueError("setting an array element with a sequence.")
            self.a[k] = v
            return
        if np.shares_memory(o, self.a):
            o = o.copy()
        self.a[k] = o

    # ------------------------------------------------------------------ arithmetic
    def _bin(self, name, o, swap=False):
        if o is None or isinstance(o, (str, dict)):
            if name in ("equal", "not_equal"):
                r = np.empty(self.a.shape, dtype=object)
                for i in np.ndindex(r.shape):
                    e = self.a[i] == o
                    r[i] = bool(e) if name == "equal" else not e
                return SymArray(r, np.dtype(bool))
            if o is None or isinstance(o, dict):
                raise TypeError(f"unsupported operand type(s) for {name}: 'ndarray' and {type(o).__name__!r}")
        return UFUNCS[name](o, self) if swap else UFUNCS[name](self, o)

    def _inplace(self, name, o):
        r = UFUNCS[name](self, o)
        rdt = r.dt if isinstance(r, SymArray) else scalar_dt(r)
        if not isinstance(r, SymArray):
            rdt = UFUNCS[name].result_dtype([self, o])
        if not np.can_cast(rdt, self.dt, "same_kind"):
            raise TypeError(
                f"Cannot cast ufunc '{name}' output from {rdt!r} to {self.dt!r} with casting rule 'same_kind'"
            )
        ro = r.a if isinstance(r, SymArray) else _objarray(r)[0]
        if ro.shape != self.a.shape and np.broadcast_shapes(ro.shape, self.a.shape) != self.a.shape:
            raise ValueError(
                f"non-broadcastable output operand with shape {self.a.shape} doesn't match the broadcast shape {ro.shape}"
            )
        self.a[...] = _cast_obj(ro, self.dt) if rdt != self.dt else ro
        return self

    def __neg__(self):
        return UFUNCS["negative"](self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return UFUNCS["absolute"](self)

    def __invert__(self):
        return UFUNCS["invert"](self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __imatmul__(self, o):
        self.a[...] = matmul(self, o).a
        return self

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.a.size == 0:
            return False
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
        )

    def _one(self):
        if self.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.a.ndim or self.dt.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self._one().__index__()

    def __round__(self, n=0):
        return self.round(n)

    def __contains__(self, x):
        return bool((self == x).any())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return "array(" + repr(self.a.tolist()) + ")"

    def __str__(self):
        return str(self.a.tolist())

    def __format__(self, spec):
        return str(self)

    # ------------------------------------------------------------------ methods
    def copy(self, order="C"):
        return SymArray(self.a.copy(), self.dt)

    def view(self, *a):
        return SymArray(self.a.view(), self.dt)

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(i) for i in x]
            return x.item() if isinstance(x, np.generic) else x

        return conv(self.a.tolist())

    def item(self, *i):
        if i:
            x = self.a[i if len(i) > 1 else np.unravel_index(i[0], self.a.shape)]
        else:
            if self.a.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            x = self.a.reshape(-1)[0]
        return x.item() if isinstance(x, np.generic) else x

    def astype(self, dt, copy=True, **kw):
        dt = to_dtype(dt)
        if dt.kind == "U":
            if has_sym(self.a):
                raise Unsupported("string array of symbolic values")
            r = np.array(self.a.tolist(), dtype=None if self.dt == _OBJ else self.dt)
            if self.dt == _OBJ:
                r = np.empty(self.a.shape, dtype=object)
                for i in np.ndindex(r.shape):
                    r[i] = self.a[i]
            return wrap(r.astype(dt))
        if not copy and dt == self.dt:
            return self
        return SymArray(_cast_obj(self.a, dt), dt)

    def fill(self, v):
        self[...] = v

    def reshape(self, *s, order="C"):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = tuple(x.__index__() if isinstance(x, (Sym, np.generic)) else x for x in s)
        return SymArray(self.a.reshape(s), self.dt)

    def flatten(self, order="C"):
        return SymArray(self.a.flatten(order), self.dt)

    def ravel(self, order="C"):
        return SymArray(self.a.ravel(order), self.dt)

    def transpose(self, *ax):
        return SymArray(self.a.transpose(*ax), self.dt)

    def swapaxes(self, a, b):
        return SymArray(self.a.swapaxes(a, b), self.dt)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.dt)

    def repeat(self, n, axis=None):
        return SymArray(self.a.repeat(unwrap(n), axis), self.dt)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return SymArray(self.a.diagonal(offset, axis1, axis2), self.dt)

    def trace(self, *k, **kw):
        return self.diagonal().sum()

    def take(self, idx, axis=None, **kw):
        i = _index(asym(idx)) if not isinstance(idx, (int, np.integer)) else idx
        r = self.a.take(i, axis)
        return SymArray(r, self.dt) if isinstance(r, np.ndarray) else r

    def compress(self, cond, axis=None):
        r = self.a.compress(_index(asym(cond)), axis)
        return SymArray(r, self.dt)

    def put(self, idx, v):
        self.ravel()[idx] = v

    def resize(self, *s):
        raise Unsupported("resize")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        x = self if where is True else _where(where, self, 0)
        return _reduce(UFUNCS["add"], x, axis, keepdims, initial)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None):
        return _reduce(UFUNCS["multiply"], self, axis, keepdims, initial)

    def cumsum(self, axis=None, **kw):
        x = self.ravel() if axis is None else self
        return UFUNCS["add"].accumulate(x, axis or 0)

    def cumprod(self, axis=None, **kw):
        x = self.ravel() if axis is None else self
        return UFUNCS["multiply"].accumulate(x, axis or 0)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        n = 1
        for i in _axes(axis, self.a.ndim):
            n *= self.a.shape[i]
        x = self if self.dt.kind == "f" else self.astype(float)
        s = x.sum(axis, keepdims=keepdims)
        if n == 0:
            return s * np.float64("nan") if isinstance(s, SymArray) else np.float64("nan")
        return s / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = self.mean(axis, keepdims=True)
        n = 1
        for i in _axes(axis, self.a.ndim):
            n *= self.a.shape[i]
        return ((self - m) ** 2).sum(axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return UFUNCS["sqrt"](self.var(axis, ddof=ddof, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return _reduce(UFUNCS["minimum"], self, axis, keepdims, initial)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return _reduce(UFUNCS["maximum"], self, axis, keepdims, initial)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False):
        return _reduce(UFUNCS["logical_or"], self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return _reduce(UFUNCS["logical_and"], self, axis, keepdims)

    def argmin(self, axis=None, out=None, keepdims=False):
        return _arg(self, axis, True)

    def argmax(self, axis=None, out=None, keepdims=False):
        return _arg(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None):
        if axis is None:
            return self.ravel().argsort(0)
        m = np.moveaxis(self.a, axis, -1)
        r = np.empty(m.shape, dtype=object)
        for i in np.ndindex(m.shape[:-1]):
            idx = _sort_idx(list(m[i]))
            for n, j in enumerate(idx):
                r[i + (n,)] = np.int64(j)
        return SymArray(np.moveaxis(r, -1, axis), np.dtype("int64"))

    def sort(self, axis=-1, kind=None, order=None):
        self.a[...] = sort(self, axis).a

    def argpartition(self, kth, axis=-1, **kw):
        return self.argsort(axis)

    def nonzero(self):
        m = _index(self.astype(bool))
        return tuple(wrap(i) for i in np.nonzero(m))

    def round(self, decimals=0, out=None):
        if self.dt.kind in "biu":
            return self.copy()
        r = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(r.shape):
            x = self.a[i]
            r[i] = x.round(decimals) if isinstance(x, SymNum) else np.round(x, decimals)
        return SymArray(r, self.dt)

    def clip(self, min=None, max=None, out=None, **kw):
        if kw.get("a_min") is not None:
            min = kw["a_min"]
        if kw.get("a_max") is not None:
            max = kw["a_max"]
        r = self
        if min is not None:
            r = UFUNCS["maximum"](r, min)
        if max is not None:
            r = UFUNCS["minimum"](r, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def dot(self, o, out=None):
        return dot(self, o)

    def searchsorted(self, *a, **k):
        return _fallback(np.searchsorted)(self, *a, **k)

    def conj(self):
        return self

    conjugate = conj

    def tobytes(self):
        if has_sym(self.a):
            raise Unsupported("bytes of a symbolic array")
        return self.real().tobytes()


def _install():
    for dn, name in (
        ("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("floordiv", "floor_divide"),
        ("mod", "remainder"), ("pow", "power"), ("and", "bitwise_and"), ("or", "bitwise_or"), ("xor", "bitwise_xor"),
        ("lshift", "left_shift"), ("rshift", "right_shift"),
    ):
        setattr(SymArray, f"__{dn}__", (lambda n: lambda s, o: s._bin(n, o))(name))
        setattr(SymArray, f"__r{dn}__", (lambda n: lambda s, o: s._bin(n, o, True))(name))
        setattr(SymArray, f"__i{dn}__", (lambda n: lambda s, o: s._inplace(n, o))(name))
    for dn, name in (
        ("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"),
        ("ne", "not_equal"),
    ):
        setattr(SymArray, f"__{dn}__", (lambda n: lambda s, o: s._bin(n, o))(name))


_install()


class _Flat:
    def __init__(self, arr):
        self.arr = arr

    def __iter__(self):
        return iter(self.arr.a.flat)

    def __getitem__(self, i):
        r = self.arr.a.flat[_index(i)]
        return SymArray(r, self.arr.dt) if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        self.arr.a.flat[i] = v

    def __len__(self):
        return self.arr.a.size


def _arg(a, axis, is_min):
    def f(xs):
        if not xs:
            raise ValueError("attempt to get argmin of an empty sequence")
        best = 0
        for i in range(1, len(xs)):
            x, b = _n(xs[i]), _n(xs[best])
            if _nanc(b):
                break
            if _nanc(x):
                best = i
                break
            if isinstance(x, SymFP) or isinstance(b, SymFP):
                if bool(_isnan(b)):
                    break
                if bool(_isnan(x)):
                    best = i
                    break
            if bool(x < b if is_min else x > b):
                best = i
        return np.int64(best)

    return _fold(a, axis, False, f, np.dtype("int64"))


def _sort_idx(xs):
    """stable insertion sort with forking comparisons"""
    idx = []
    for i, x in enumerate(xs):
        p = len(idx)
        while p > 0 and bool(x < xs[idx[p - 1]]):
            p -= 1
        idx.insert(p, i)
    return idx


UFUNCS = {n: Ufunc(n) for n in ELEMENT if hasattr(np, n)}


# --------------------------------------------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------------------------------------------
def array(x, dtype=None, copy=True, ndmin=0, **kw):
    o, d = _objarray(x)
    if isinstance(x, SymArray) or isinstance(x, np.ndarray):
        o = o.copy()
    r = SymArray(o, d)
    if dtype is not None:
        r = r.astype(dtype)
    if r.a.ndim < ndmin:
        r = SymArray(r.a.reshape((1,) * (ndmin - r.a.ndim) + r.a.shape), r.dt)
    return r


def asarray(x, dtype=None, **kw):
    if isinstance(x, SymArray) and (dtype is None or to_dtype(dtype) == x.dt):
        return x
    return array(x, dtype)


def _shape(s):
    if isinstance(s, (list, tuple)) or isinstance(s, (SymArray, np.ndarray)):
        return tuple(int(i.__index__()) for i in s)
    return (int(s.__index__()),)


def full(shape, fill_value, dtype=None, **kw):
    s = _shape(shape)
    f = asym(fill_value)
    dt = to_dtype(dtype) or f.dt
    o = np.empty(s, dtype=object)
    r = SymArray(o, dt)
    r[...] = f
    return r


def zeros(shape, dtype=float, **kw):
    return full(shape, 0, to_dtype(dtype))


def ones(shape, dtype=float, **kw):
    return full(shape, 1, to_dtype(dtype))


def empty(shape, dtype=float, **kw):
    dt = to_dtype(dtype)
    return full(shape, None if dt == _OBJ else 0, dt)


def _like(v):
    def f(a, dtype=None, **kw):
        a = asym(a)
        return full(a.shape, v, to_dtype(dtype) or a.dt)

    return f


def full_like(a, fill_value, dtype=None, **kw):
    a = asym(a)
    return full(a.shape, fill_value, to_dtype(dtype) or a.dt)


def eye(n, m=None, k=0, dtype=float, **kw):
    return wrap(np.eye(n, m, k, dtype=to_dtype(dtype)))


def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype or float)


def diag(v, k=0):
    v = asym(v)
    if v.ndim == 1:
        n = len(v) + builtins.abs(k)
        r = zeros((n, n), dtype=v.dt)
        for i in range(len(v)):
            r.a[(i, i + k) if k >= 0 else (i - k, i)] = v.a[i]
        return r
    return SymArray(np.diag(v.a, k), v.dt)


def diagflat(v, k=0):
    return diag(asym(v).ravel(), k)


def dot(a, b, out=None):
    a, b = asym(a), asym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return _tensordot1(a, b, b.ndim - 1)
    return _tensordot1(a, b, b.ndim - 2)


def _lin(xs, ys, dt):
    r = None
    for x, y in zip(xs, ys):
        if not is_sym(x) and not is_sym(y):
            t = x * y
        elif (not is_sym(x) and x == 0) or (not is_sym(y) and y == 0):
            continue
        else:
            t = _n(x) * _n(y)
        if not is_sym(t) and t == 0:
            continue
        r = t if r is None else r + t
    if r is None:
        r = 0
    return cast_scalar(r, dt)


def _tensordot1(a, b, bax):
    if a.shape[-1] != b.shape[bax]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned: {a.shape[-1]} != {b.shape[bax]}")
    dt = np.result_type(a.dt, b.dt)
    if dt.kind == "b":
        dt = np.dtype("bool")
    bm = np.moveaxis(b.a, bax, -1)
    r = np.empty(a.shape[:-1] + bm.shape[:-1], dtype=object)
    for i in np.ndindex(a.shape[:-1]):
        for j in np.ndindex(bm.shape[:-1]):
            r[i + j] = _lin(a.a[i], bm[j], dt)
    return _result(r, dt)


def matmul(a, b, out=None, **kw):
    a, b = asym(a), asym(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand 0 does not have enough dimensions")
    if a.dt == _OBJ and not has_sym(a.a) and a.size and a.a.flat[0] is None:
        raise TypeError("unsupported operand type(s) for *: 'NoneType'")
    if b.dt == _OBJ and not has_sym(b.a) and b.size and b.a.flat[0] is None:
        raise TypeError("unsupported operand type(s) for *: 'NoneType'")
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    ash, bsh = a.shape[:-2], b.shape[:-2]
    bc = np.broadcast_shapes(ash, bsh)
    A = np.broadcast_to(a.a, bc + a.shape[-2:])
    B = np.broadcast_to(b.a, bc + b.shape[-2:])
    r = np.empty(bc + (a.shape[-2], b.shape[-1]), dtype=object)
    dt = np.result_type(a.dt, b.dt)
    for i in np.ndindex(bc):
        r[i] = dot(SymArray(A[i], a.dt), SymArray(B[i], b.dt)).a
    return SymArray(r, dt)


def inner(a, b):
    a, b = asym(a), asym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return _tensordot1(a, b, b.ndim - 1)


def outer(a, b, out=None):
    return UFUNCS["multiply"].outer(asym(a).ravel(), asym(b).ravel())


def vdot(a, b):
    return dot(asym(a).ravel(), asym(b).ravel())


def cross(a, b, **kw):
    a, b = asym(a), asym(b)
    return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def trace(a, *k, **kw):
    return asym(a).trace()


def einsum(spec, *ops, **kw):
    ops = [asym(o) for o in ops]
    if not builtins.any(has_sym(o.a) for o in ops):
        return wrap(np.einsum(spec, *[o.real() for o in ops]))
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    letters = sorted(set("".join(ins)))
    if not _:
        out = "".join(c for c in letters if "".join(ins).count(c) == 1)
    dim = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dim[c] = d
    red = [c for c in letters if c not in out]
    dt = np.result_type(*[o.dt for o in ops])
    r = np.empty([dim[c] for c in out], dtype=object)
    for i in np.ndindex(r.shape):
        env = dict(zip(out, i))
        acc = 0
        for j in itertools.product(*[range(dim[c]) for c in red]):
            env.update(zip(red, j))
            t = 1
            for s, o in zip(ins, ops):
                t = t * _n(o.a[tuple(env[c] for c in s)])
            acc = acc + t
        r[i] = cast_scalar(acc, dt)
    return _result(r, dt)


def _where(c, *xy):
    if not xy:
        return asym(c).nonzero()
    c, x, y = asym(c), xy[0], xy[1]
    ax, ay = asym(x), asym(y)
    ds = [d if isinstance(d, SymArray) else _dummy(d) for d in (x, y)]
    dt = np.result_type(*[_dummy(d) if isinstance(d, SymArray) else d for d in ds]) if _OBJ not in (ax.dt, ay.dt) else _OBJ
    shape = np.broadcast_shapes(c.shape, ax.shape, ay.shape)
    C, X, Y = (np.broadcast_to(o.a, shape) for o in (c, ax, ay))
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        r[i] = mk_ite(_B(C[i]), cast_scalar(X[i], dt), cast_scalar(Y[i], dt))
    return SymArray(r, dt)


def select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = _where(c, x, r)
    return r


def copyto(dst, src, where=True, **kw):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, src, dst)


def putmask(a, mask, values):
    a[...] = _where(mask, values, a)


def fill_diagonal(a, val, wrap=False):
    for i in range(builtins.min(a.shape)):
        a[i, i] = val


def sort(a, axis=-1, **kw):
    a = asym(a)
    if axis is None:
        a, axis = a.ravel(), 0
    m = np.moveaxis(a.a, axis, -1)
    r = np.empty(m.shape, dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        xs = list(m[i])
        for n, j in enumerate(_sort_idx(xs)):
            r[i + (n,)] = xs[j]
    return SymArray(np.moveaxis(r, -1, axis), a.dt)


def argsort(a, axis=-1, **kw):
    return asym(a).argsort(axis)


def searchsorted(a, v, side="left", sorter=None):
    """numpy's own binary search, so that unsorted arrays give what numpy gives"""
    a = asym(a)
    if a.ndim != 1:
        raise ValueError("object of too small depth for desired array" if a.ndim == 0 else "object too deep for desired array")
    xs = list(a.a)
    if sorter is not None:
        xs = [xs[int(i)] for i in asym(sorter).a]
    if side not in ("left", "right"):
        raise ValueError(f"search side must be 'left' or 'right' (got {side!r})")
    less = (lambda x, y: bool(x < y)) if side == "left" else (lambda x, y: bool(x <= y))
    keys = asym(v)
    out = np.empty(keys.shape, dtype=np.int64)
    lo, hi, last = 0, len(xs), None
    for i in np.ndindex(keys.shape):
        k = keys.a[i] if keys.ndim else keys.a[()]
        if last is None or less(last, k):
            hi = len(xs)
        else:
            lo, hi = 0, (hi + 1 if hi < len(xs) else len(xs))
        last = k
        while lo < hi:
            mid = lo + ((hi - lo) >> 1)
            if less(xs[mid], k):
                lo = mid + 1
            else:
                hi = mid
        out[i] = lo
    return wrap(out) if keys.ndim else np.int64(out[()])


def lexsort(keys, axis=-1):
    keys = [asym(k) for k in keys]
    n = keys[-1].shape[-1]

    def less(i, j):
        for k in reversed(keys):
            x, y = k.a[i], k.a[j]
            if bool(x < y):
                return True
            if bool(x > y):
                return False
        return False

    idx = []
    for i in range(n):
        p = len(idx)
        while p > 0 and less(i, idx[p - 1]):
            p -= 1
        idx.insert(p, i)
    return array(idx, dtype=np.int64)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = asym(a)
    if not has_sym(a.a) and a.dt != _OBJ:
        r = np.unique(a.real(), return_index, return_inverse, return_counts, axis=axis)
        return wrap(r)
    if axis is None:
        rows = [[x] for x in a.a.ravel()]
    else:
        m = np.moveaxis(a.a, axis, 0)
        rows = [list(x.ravel()) for x in m]

    def cmp(r, s):
        for x, y in zip(r, s):
            if bool(x < y):
                return -1
            if bool(x > y):
                return 1
        return 0

    uniq, members = [], []
    for n, r in enumerate(rows):
        p = 0
        while p < len(uniq):
            c = cmp(rows[uniq[p]], r)
            if c >= 0:
                break
            p += 1
        if p < len(uniq) and c == 0:
            members[p].append(n)
        else:
            uniq.insert(p, n)
            members.insert(p, [n])
    if axis is None:
        u = SymArray(a.a.ravel()[np.array(uniq, dtype=int)], a.dt)
    else:
        u = SymArray(np.moveaxis(np.moveaxis(a.a, axis, 0)[np.array(uniq, dtype=int)], 0, axis), a.dt)
    out = [u]
    if return_index:
        out.append(array([m[0] for m in members], dtype=np.int64))
    if return_inverse:
        inv = [0] * len(rows)
        for g, m in enumerate(members):
            for i in m:
                inv[i] = g
        out.append(array(inv, dtype=np.int64))
    if return_counts:
        out.append(array([len(m) for m in members], dtype=np.int64))
    return tuple(out) if len(out) > 1 else u


def isin(a, test, invert=False, **kw):
    a, t = asym(a), asym(test).ravel()
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = mk_or(*[a.a[i] == x for x in t.a])
        r[i] = mk_not(v) if invert else v
    return SymArray(r, np.dtype(bool))


def _intersect1d(a, b, **kw):
    a, b = unique(a), unique(b)
    keep = [x for x in a.a if builtins.any(bool(x == y) for y in b.a)]
    return array(keep, dtype=a.dt) if keep else SymArray(np.empty((0,), dtype=object), a.dt)


def setdiff1d(a, b, assume_unique=False):
    a, b = (asym(a).ravel() if assume_unique else unique(a)), asym(b).ravel()
    keep = [x for x in a.a if not builtins.any(bool(x == y) for y in b.a)]
    return array(keep, dtype=a.dt) if keep else SymArray(np.empty((0,), dtype=object), a.dt)


def union1d(a, b):
    return unique(concatenate([asym(a).ravel(), asym(b).ravel()]))


def digitize(x, bins, right=False):
    b = asym(bins)
    xs = list(b.a)
    if len(xs) > 1 and bool(xs[0] > xs[-1]):
        r = searchsorted(array(xs[::-1], dtype=b.dt), x, side="right" if right else "left")
        return len(xs) - r
    return searchsorted(b, x, side="left" if right else "right")


def pad(a, pad_width, mode="constant", constant_values=0, **kw):
    a = asym(a)
    if mode != "constant" or not np.isscalar(constant_values) or not has_sym(a.a):
        return _fallback(np.pad)(a, pad_width, mode, **(dict(constant_values=constant_values) if mode == "constant" else {}), **kw)
    r = np.pad(a.a, unwrap(pad_width), mode="constant", constant_values=a.dt.type(constant_values).item())
    return SymArray(r, a.dt)


def nonzero(a):
    return asym(a).nonzero()


def flatnonzero(a):
    return asym(a).ravel().nonzero()[0]


def argwhere(a):
    m = _index(asym(a).astype(bool))
    return wrap(np.argwhere(m))


def count_nonzero(a, axis=None, **kw):
    a = asym(a)
    b = a if a.dt.kind == "b" else a.astype(bool)
    return b.astype(int).sum(axis)


def ix_(*args):
    out = []
    for x in args:
        i = _index(asym(x)) if not isinstance(x, np.ndarray) else x
        if i.dtype == bool:
            i = np.nonzero(i)[0]
        out.append(i)
    return tuple(wrap(j) for j in np.ix_(*out))


def _red(name):
    def f(a, axis=None, *args, **kw):
        a = asym(a)
        return getattr(a, name)(axis, *args, **kw)

    f.__name__ = name
    return f


def around(a, decimals=0, out=None):
    if isinstance(a, Sym):
        return a.round(decimals) if isinstance(a, SymNum) else a
    if isinstance(a, (np.generic, int, float)):
        return np.round(a, decimals)
    return asym(a).round(decimals)


def clip(a, a_min=None, a_max=None, out=None, **kw):
    if isinstance(a, SymArray) or not isinstance(a, (Sym, int, float, np.generic)):
        return asym(a).clip(a_min, a_max, out)
    r = a
    if a_min is not None:
        r = UFUNCS["maximum"](r, a_min)
    if a_max is not None:
        r = UFUNCS["minimum"](r, a_max)
    return r


def median(a, axis=None, **kw):
    a = asym(a)
    if axis is None:
        s = sort(a.ravel())
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    s = sort(a, axis)
    m = np.moveaxis(s.a, axis, 0)
    n = m.shape[0]
    lo, hi = SymArray(m[(n - 1) // 2], a.dt), SymArray(m[n // 2], a.dt)
    return (lo + hi) / 2


def average(a, axis=None, weights=None, **kw):
    a = asym(a)
    if weights is None:
        return a.mean(axis)
    w = asym(weights)
    if axis is not None and w.ndim < a.ndim:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(*sh)
    return (a * w).sum(axis) / (w + zeros(a.shape)).sum(axis)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return isclose(a, b, rtol, atol).all()


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return UFUNCS["less_equal"](UFUNCS["absolute"](asym(a) - asym(b)), asym(UFUNCS["absolute"](asym(b))) * rtol + atol)


def array_equal(a, b, equal_nan=False):
    try:
        a, b = asym(a), asym(b)
    except ValueError:
        return False
    if a.shape != b.shape:
        return False
    return asym(a == b).all()


def array_equiv(a, b):
    a, b = asym(a), asym(b)
    return asym(a == b).all()


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asym(x)
    r = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        v = x.a[i]
        if isinstance(v, SymFP):
            raise Unsupported("nan_to_num")
        r[i] = v if isinstance(v, Sym) else np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    o = SymArray(r, x.dt)
    if not copy:
        x.a[...] = r
        return x
    return _result(r, x.dt) if not r.ndim else o


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not _contains_sym((start, stop, num)):
        return wrap(np.linspace(unwrap(start), unwrap(stop), num, endpoint, retstep, to_dtype(dtype), axis))
    num = num.__index__()
    d = (num - 1) if endpoint else num
    step = (stop - start) / d if d > 0 else 0.0
    r = array([start + step * i for i in range(num)], dtype=dtype or float)
    return (r, step) if retstep else r


def arange(*a, dtype=None, **kw):
    if _contains_sym(a):
        a = [x.__index__() if isinstance(x, SymNum) and x.k == "i" else x for x in a]
        if _contains_sym(a):
            raise Unsupported("arange of reals")
    return wrap(np.arange(*a, dtype=to_dtype(dtype), **kw))


def atleast(n):
    real = getattr(np, f"atleast_{n}d")

    def f(*xs):
        r = [SymArray(real(asym(x).a), asym(x).dt) for x in xs]
        return r[0] if len(r) == 1 else r

    return f


def _joiner(name):
    real = getattr(np, name)

    def f(arrays, *args, **kw):
        kw.pop("dtype", None)
        kw.pop("casting", None)
        if isinstance(arrays, SymArray):
            xs = [asym(x) for x in arrays]
        else:
            xs = [asym(x) for x in arrays]
        if not xs:
            return real([], *args, **kw)
        dts = {x.dt for x in xs}
        if len(dts) == 1:
            dt = dts.pop()
        elif _OBJ in dts:
            dt = _OBJ
        else:
            dt = np.result_type(*[np.empty((0,), d) for d in dts])
        return SymArray(real([_cast_obj(x.a, dt) if x.dt != dt else x.a for x in xs], *args, **kw), dt)

    f.__name__ = name
    return f


def _structural(name, is_list=False):
    real = getattr(np, name)

    def f(a, *args, **kw):
        a = asym(a)
        args = [unwrap(_index(x)) if isinstance(x, SymArray) else (x.__index__() if isinstance(x, SymNum) else x) for x in args]
        r = real(a.a, *args, **kw)
        if isinstance(r, (list, tuple)):
            return [SymArray(x, a.dt) for x in r]
        return SymArray(r, a.dt) if isinstance(r, np.ndarray) else r

    f.__name__ = name
    return f


def tri_(name):
    real = getattr(np, name)

    def f(m, k=0):
        m = asym(m)
        mask = real(np.ones(m.shape, dtype=bool), k)
        r = m.a.copy()
        for i in np.ndindex(r.shape):
            if not mask[i]:
                r[i] = cast_scalar(0, m.dt)
        return SymArray(r, m.dt)

    return f


def append(arr, values, axis=None):
    a, v = asym(arr), asym(values)
    if axis is None:
        return concatenate([a.ravel(), v.ravel()])
    return concatenate([a, v], axis)


def delete(arr, obj, axis=None):
    a = asym(arr)
    return SymArray(np.delete(a.a, unwrap(_index(obj)), axis), a.dt)


def insert(arr, obj, values, axis=None):
    a = asym(arr)
    return SymArray(np.insert(a.a, unwrap(_index(obj)), asym(values).a, axis), a.dt)


def take(a, idx, axis=None, **kw):
    return asym(a).take(idx, axis)


def take_along_axis(a, idx, axis):
    a = asym(a)
    return SymArray(np.take_along_axis(a.a, _index(asym(idx)), axis), a.dt)


def meshgrid(*xs, **kw):
    xs = [asym(x) for x in xs]
    return [SymArray(r, x.dt) for r, x in zip(np.meshgrid(*[x.a for x in xs], **kw), xs)]


def broadcast_arrays(*xs, **kw):
    xs = [asym(x) for x in xs]
    return [SymArray(r, x.dt) for r, x in zip(np.broadcast_arrays(*[x.a for x in xs]), xs)]


def shape(a):
    if isinstance(a, Sym):
        return ()
    return asym(a).shape


def ndim(a):
    return asym(a).ndim


def size(a, axis=None):
    a = asym(a)
    return a.size if axis is None else a.shape[axis]


def isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def diff(a, n=1, axis=-1, **kw):
    a = asym(a)
    m = np.moveaxis(a.a, axis, -1)
    r = SymArray(m[..., 1:], a.dt) - SymArray(m[..., :-1], a.dt)
    return SymArray(np.moveaxis(r.a, -1, axis), r.dt)


def bincount(x, weights=None, minlength=0):
    x = asym(x)
    return wrap(np.bincount(_index(x), minlength=minlength)) if weights is None else _fallback(np.bincount)(x, weights, minlength)


def apply_along_axis(f, axis, a, *args, **kw):
    a = asym(a)
    m = np.moveaxis(a.a, axis, -1)
    out = [f(SymArray(m[i], a.dt), *args, **kw) for i in np.ndindex(m.shape[:-1])]
    r = asym(out)
    return r.reshape(m.shape[:-1] + r.shape[1:])


def vectorize(f, *a, **kw):
    def g(*xs):
        xs = [asym(x) for x in xs]
        sh = np.broadcast_shapes(*[x.shape for x in xs])
        bs = [np.broadcast_to(x.a, sh) for x in xs]
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            out[i] = f(*[b[i] for b in bs])
        return SymArray(out, _infer(out))

    return g


def fromiter(it, dtype=float, count=-1, **kw):
    return array(list(it), dtype=dtype)


def interp(*a, **kw):
    return _fallback(np.interp)(*a, **kw)


class _MGrid:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, k):
        return wrap(self.real[k])


class _RC:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if self.axis == 0:
            return concatenate([atleast(1)(x) for x in k])
        return _joiner("column_stack")(k)


# --------------------------------------------------------------------------------------------------------------
# anything else: the real numpy when concrete; on object arrays when that works; else concretised (recorded)
# --------------------------------------------------------------------------------------------------------------
def concretise(x):
    if isinstance(x, SymArray):
        r = np.empty(x.a.shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = concretise(x.a[i])
        return r.astype(x.dt) if x.dt != _OBJ else r
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymNum):
        core.engine().path_incomplete = "concretised"
        return int(core.engine().pick_int(x.t)) if x.k == "i" else float(x)
    if isinstance(x, SymFP):
        raise Unsupported("IEEE value in an unsupported function")
    if isinstance(x, list):
        return [concretise(i) for i in x]
    if isinstance(x, tuple):
        return tuple(concretise(i) for i in x)
    if isinstance(x, dict):
        return {k: concretise(v) for k, v in x.items()}
    return x


def _fallback(real):
    def f(*args, **kw):
        if "dtype" in kw:
            kw["dtype"] = to_dtype(kw["dtype"])
        if not _contains_sym(args) and not _contains_sym(kw):
            with np.errstate(all="ignore"):
                return wrap(real(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kw.items()}))
        e = core.engine()
        name = getattr(real, "__name__", str(real))
        e.notes.setdefault("concretised_calls", set()).add(name)
        return wrap(real(*[concretise(a) for a in args], **{k: concretise(v) for k, v in kw.items()}))

    f.__name__ = getattr(real, "__name__", "f")
    return f


# --------------------------------------------------------------------------------------------------------------
# linalg
# --------------------------------------------------------------------------------------------------------------
def _norm(x, ord=None, axis=None, keepdims=False):
    x = asym(x)
    if x.dt.kind != "f":
        x = x.astype(float)
    if not has_sym(x.a):
        return wrap(np.linalg.norm(x.real(), ord, axis, keepdims))
    if axis is None and ord is None:
        r = sym_sqrt((x.ravel() * x.ravel()).sum())
        return r if not keepdims else array(r).reshape((1,) * x.ndim)
    if axis is None and x.ndim == 2:
        if ord == "fro":
            return sym_sqrt((x * x).sum())
        if ord == 1:
            return UFUNCS["absolute"](x).sum(axis=0).max()
        if ord in (np.inf,):
            return UFUNCS["absolute"](x).sum(axis=1).max()
        raise Unsupported("matrix norm")
    if axis is None and x.ndim == 1:
        axis = 0
    if isinstance(axis, (tuple, list)) and len(axis) == 2:
        if ord in (None, "fro"):
            s = (x * x).sum(axis=tuple(axis), keepdims=keepdims)
            return UFUNCS["sqrt"](s)
        raise Unsupported("matrix norm")
    if ord in (None, 2):
        return UFUNCS["sqrt"]((x * x).sum(axis=axis, keepdims=keepdims))
    if ord == 1:
        return UFUNCS["absolute"](x).sum(axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return UFUNCS["absolute"](x).max(axis=axis, keepdims=keepdims)
    if ord == -np.inf:
        return UFUNCS["absolute"](x).min(axis=axis, keepdims=keepdims)
    if ord == 0:
        return (x != 0).astype(float).sum(axis=axis, keepdims=keepdims)
    raise Unsupported("norm order")


class LinAlgError(np.linalg.LinAlgError):
    pass


def _blocks(m):
    """connected components of the non-zero pattern of a square matrix"""
    n = m.shape[0]
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i

    for i in range(n):
        for j in range(n):
            v = m[i, j]
            if i != j and (is_sym(v) or v != 0):
                comp[find(i)] = find(j)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def _canon(x):
    """the same value, as a sum of monomials"""
    if isinstance(x, SymNum):
        return SymNum(x.k, core.z3.simplify(x.t, som=True))
    return x


def _minor(m, i, j):
    return np.delete(np.delete(m, i, 0), j, 1)


def _det_o(m):
    n = m.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return m[0, 0]
    r = 0.0
    for j in range(n):
        v = m[0, j]
        if not is_sym(v) and v == 0:
            continue
        t = v * _det_o(_minor(m, 0, j))
        r = r + t if j % 2 == 0 else r - t
    return r


def _det(a):
    a = asym(a)
    if not has_sym(a.a):
        return wrap(np.linalg.det(a.real()))
    r = 1.0
    for b in _blocks(a.a):
        r = r * _det_o(a.a[np.ix_(b, b)])
    return r


def _inv(a):
    a = asym(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if not has_sym(a.a):
        return wrap(np.linalg.inv(a.real()))
    n = a.shape[0]
    r = np.empty((n, n), dtype=object)
    r[...] = np.float64(0)
    for b in _blocks(a.a):
        m = a.a[np.ix_(b, b)]
        d = _canon(_det_o(m))
        if bool(d == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        k = len(b)
        for i in range(k):
            for j in range(k):
                c = _det_o(_minor(m, j, i)) if k > 1 else 1.0
                if (i + j) % 2:
                    c = -c
                r[b[i], b[j]] = c / d
    return SymArray(r, np.dtype("float64"))


def _solve(a, b):
    return matmul(_inv(a), b)


def _make_linalg():
    m = types.ModuleType("numpy.linalg")
    m.norm, m.inv, m.det, m.solve, m.pinv = _norm, _inv, _det, _solve, _inv
    m.LinAlgError = np.linalg.LinAlgError
    m.multi_dot = lambda xs, **k: __import__("functools").reduce(dot, xs)
    m.__getattr__ = lambda name: _fallback(getattr(np.linalg, name))
    return m


# --------------------------------------------------------------------------------------------------------------
# the module object the code under test sees as numpy
# --------------------------------------------------------------------------------------------------------------
concatenate = _joiner("concatenate")


def loadtxt(fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False,
            ndmin=0, encoding=None, max_rows=None, **kw):
    if converters is not None or kw:
        raise Unsupported("loadtxt options")
    if isinstance(fname, (str, os.PathLike)):
        with open(fname, encoding="utf-8") as f:
            lines = f.read().splitlines()
    else:
        lines = list(fname.read().splitlines() if hasattr(fname, "read") else fname)
    rows = []
    for ln in lines[skiprows:]:
        if isinstance(comments, str) and comments in ln:
            ln = ln[:ln.index(comments)]
        if not ln.strip():
            continue
        if max_rows is not None and len(rows) >= max_rows:
            break
        row = []
        for x in ln.strip().split(delimiter):
            v = core.engine().number(x)
            row.append(float(x) if v is None else v.to_real())
        rows.append(row)
    if usecols is not None:
        uc = [usecols] if isinstance(usecols, int) else list(usecols)
        rows = [[r[c] for c in uc] for r in rows]
        n = len(uc)
    else:
        n = len(rows[0]) if rows else 1
    if any(len(r) != n for r in rows):
        raise ValueError("the number of columns changed")
    if rows:
        a = array(rows, dtype=dtype)
    else:
        a = zeros((0, n), dtype=dtype)
    # as numpy: squeeze down to ndmin dimensions
    if ndmin < 2 and (a.shape[0] <= 1 or a.shape[1] == 1):
        shp = tuple(k for k in a.shape if k != 1)
        if len(shp) < ndmin:
            shp = (a.shape[0] * a.shape[1],)
        a = a.reshape(shp)
    return a.T if unpack else a


# --------------------------------------------------------------------------------------------------------------
# less common functions, in terms of the others
# --------------------------------------------------------------------------------------------------------------
def kron(a, b):
    a, b = asym(a), asym(b)
    nd = builtins.max(a.ndim, b.ndim)
    x, y = a.reshape((1,) * (nd - a.ndim) + a.shape), b.reshape((1,) * (nd - b.ndim) + b.shape)
    r = outer(x, y).reshape(x.shape + y.shape)
    r = r.transpose([i for k in range(nd) for i in (k, nd + k)])
    return r.reshape(tuple(m * n for m, n in zip(x.shape, y.shape)))


def tensordot(a, b, axes=2):
    a, b = asym(a), asym(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    p, q = [[x] if isinstance(x, int) else list(x) for x in axes]
    p, q = [x % a.ndim for x in p], [x % b.ndim for x in q]
    fa, fb = [i for i in range(a.ndim) if i not in p], [i for i in range(b.ndim) if i not in q]
    n = 1
    for i in p:
        n *= a.shape[i]
    x = a.transpose(fa + p).reshape((int(np.prod([a.shape[i] for i in fa])), n))
    y = b.transpose(q + fb).reshape((n, int(np.prod([b.shape[i] for i in fb]))))
    return dot(x, y).reshape(tuple(a.shape[i] for i in fa) + tuple(b.shape[i] for i in fb))


def block(arrays):
    def depth(x):
        return 1 + builtins.max([depth(i) for i in x] or [0]) if isinstance(x, list) else 0

    def go(x, axis, nd):
        if not isinstance(x, list):
            x = asym(x)
            return x.reshape((1,) * (nd - x.ndim) + x.shape) if x.ndim < nd else x
        return concatenate([go(i, axis + 1, nd) for i in x], axis=axis)

    def ndims(x):
        return builtins.max([ndims(i) for i in x]) if isinstance(x, list) else asym(x).ndim

    d = depth(arrays)
    nd = builtins.max(d, ndims(arrays))
    return go(arrays, nd - d, nd)


def extract(condition, arr):
    return asym(arr).ravel()[asym(condition).ravel().astype(bool)]


def compress(condition, a, axis=None, out=None):
    a = asym(a)
    if axis is None:
        a, axis = a.ravel(), 0
    keep = [i for i, c in enumerate(asym(condition).ravel()) if c]
    return take(a, np.array(keep, dtype=int), axis=axis)


def choose(a, choices, out=None, mode="raise"):
    r = None
    a = asym(a)
    for i, c in enumerate(choices):
        r = c if r is None else _where(a == i, c, r)
    return r


def place(arr, mask, vals):
    vals = list(asym(vals).ravel())
    m = asym(mask)
    k = 0
    for i in np.ndindex(arr.shape):
        if m[i]:
            arr[i] = vals[k % len(vals)]
            k += 1


def put(a, ind, v, mode="raise"):
    v = list(asym(v).ravel())
    for k, i in enumerate(asym(ind).ravel()):
        a[np.unravel_index(int(i) % a.size, a.shape)] = v[k % len(v)]


def put_along_axis(arr, indices, values, axis):
    ind = asym(indices)
    v = np.broadcast_to(asym(values).a, ind.shape)
    for i in np.ndindex(ind.shape):
        j = list(i)
        j[axis] = int(ind[i])
        arr[tuple(j)] = v[i]


def ediff1d(ary, to_end=None, to_begin=None):
    r = diff(asym(ary).ravel())
    parts = [x for x in (to_begin, r, to_end) if x is not None]
    return concatenate([atleast(1)(x) for x in parts])


def fmod(a, b):
    q = UFUNCS["divide"](a, b)
    return asym(a) - UFUNCS["trunc"](q) * b if isinstance(a, (SymArray, np.ndarray)) else a - UFUNCS["trunc"](q) * b


def fix(x, out=None):
    return UFUNCS["trunc"](x)


def signbit(x):
    return asym(x) < 0 if isinstance(x, (SymArray, np.ndarray, list, tuple)) else x < 0


def copysign(a, b):
    m = UFUNCS["absolute"](a)
    return _where(signbit(b), UFUNCS["negative"](m), m)


def fromfunction(function, shape, *, dtype=float, **kw):
    return function(*wrap(tuple(np.indices(shape, dtype=to_dtype(dtype)))), **kw)


def unravel_index(indices, shape, order="C"):
    shape = tuple(int(n) for n in (shape if isinstance(shape, (tuple, list)) else [shape]))
    r = []
    for n in reversed(shape):
        r.append(indices % n)
        indices = indices // n
    return tuple(reversed(r))


def ravel_multi_index(multi_index, dims, mode="raise", order="C"):
    r = 0
    for i, n in zip(multi_index, dims):
        r = r * n + i
    return r


def ndenumerate(arr):
    arr = asym(arr)
    for i in np.ndindex(arr.shape):
        yield i, arr[i]


def partition(a, kth, axis=-1, **kw):
    return sort(a, axis)


def argpartition(a, kth, axis=-1, **kw):
    return argsort(a, axis)


def np_divmod(a, b):
    return UFUNCS["floor_divide"](a, b), UFUNCS["remainder"](a, b)


def _real_unless_sym(real, f):
    def g(*args, **kw):
        if not _contains_sym(args) and not _contains_sym(kw):
            return _fallback(real)(*args, **kw)
        return f(*args, **kw)

    g.__name__ = f.__name__
    return g


def make_module():
    m = types.ModuleType("numpy")
    m.__file__ = np.__file__
    m.__version__ = np.__version__
    m.__path__ = []
    d = m.__dict__
    d.update(UFUNCS)
    for n in (
        "pi e inf nan newaxis Inf NaN NAN float32 float64 float16 int8 int16 int32 int64 uint8 uint16 uint32 uint64 "
        "bool_ str_ object_ intp int_ float_ generic number integer floating dtype iinfo finfo errstate can_cast "
        "AxisError seterr geterr set_printoptions get_printoptions signedinteger unsignedinteger ndindex s_ index_exp "
        "character void bytes_"
    ).split():
        if hasattr(np, n):
            d[n] = getattr(np, n)
    d["ndarray"] = NDArray
    d["generic"] = _GenericShim
    for n in ("floating", "integer", "number", "bool_", "float64", "int64", "float32"):
        pass
    for f in (
        array, asarray, full, zeros, ones, empty, full_like, eye, identity, diag, diagflat, dot, matmul, inner, outer,
        vdot, cross, trace, einsum, select, copyto, putmask, fill_diagonal, sort, argsort, searchsorted, digitize, setdiff1d, union1d, pad, lexsort, unique, isin,
        nonzero, flatnonzero, argwhere, count_nonzero, ix_, around, clip, median, average, allclose, isclose,
        array_equal, array_equiv, nan_to_num, linspace, arange, append, delete, insert, take, take_along_axis,
        meshgrid, broadcast_arrays, shape, ndim, size, isscalar, diff, bincount, apply_along_axis, vectorize, fromiter, loadtxt,
        concatenate,
    ):
        d[f.__name__] = f
    for f in (
        kron, tensordot, block, extract, compress, choose, ediff1d, fmod, fix, signbit, copysign,
        unravel_index, ravel_multi_index, partition, argpartition,
    ):
        d[f.__name__] = _real_unless_sym(getattr(np, f.__name__), f)
    for f in (place, put, put_along_axis, fromfunction, ndenumerate):
        d[f.__name__] = f
    d["divmod"] = np_divmod
    d["nanargmin"], d["nanargmax"] = _red("argmin"), _red("argmax")
    d["where"] = _where
    d["intersect1d"] = _intersect1d
    d["in1d"] = lambda a, b, **k: isin(asym(a).ravel(), b, **k)
    d["round"] = d["round_"] = around
    d["asanyarray"] = d["ascontiguousarray"] = d["asfarray"] = asarray
    d["zeros_like"], d["ones_like"], d["empty_like"] = _like(0), _like(1), _like(0)
    for n in ("sum", "prod", "mean", "std", "var", "min", "max", "any", "all", "argmin", "argmax", "cumsum", "cumprod", "ptp"):
        d[n] = _red(n)
    d["amin"], d["amax"], d["product"] = d["min"], d["max"], d["prod"]
    d["nanmin"], d["nanmax"], d["nansum"], d["nanmean"] = d["min"], d["max"], d["sum"], d["mean"]
    for n in ("stack", "hstack", "vstack", "dstack", "column_stack", "row_stack"):
        d[n] = _joiner(n)
    for n in (
        "reshape ravel transpose expand_dims squeeze repeat tile roll flip fliplr flipud rot90 broadcast_to swapaxes "
        "moveaxis rollaxis split array_split hsplit vsplit diagonal copy resize"
    ).split():
        d[n] = _structural(n)
    d["triu"], d["tril"] = tri_("triu"), tri_("tril")
    d["atleast_1d"], d["atleast_2d"], d["atleast_3d"] = atleast(1), atleast(2), atleast(3)
    d["mgrid"], d["ogrid"] = _MGrid(np.mgrid), _MGrid(np.ogrid)
    d["r_"], d["c_"] = _RC(0), _RC(1)
    d["result_type"] = lambda *a: np.result_type(*[_dummy(x) if isinstance(x, (SymArray, Sym)) else to_dtype(x) if isinstance(x, type) else x for x in a])
    d["linalg"] = _make_linalg()
    rnd = types.ModuleType("numpy.random")
    rnd.rand = lambda *a: np.float64(0.375) if not a else full(a, 0.375)
    rnd.random = rnd.random_sample = lambda size=None: np.float64(0.375) if size is None else full(size, 0.375)
    rnd.randint = lambda lo, hi=None, size=None, **k: lo if hi is not None else 0
    rnd.seed = lambda *a: None
    d["random"] = rnd

    def ga(name):
        real = getattr(np, name)
        if isinstance(real, type) or not callable(real):
            return real
        return _fallback(real)

    m.__getattr__ = ga
    return m


class _GMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.generic, Sym))


class _GenericShim(metaclass=_GMeta):
    pass
