"""Dictionaries and sets whose keys may be symbolic: symbolic keys are found by comparing (which forks), not by hash.

Displays, comprehensions and calls of dict and set in the code under test are compiled to these (see loader)."""
import ast
import collections
import types

from .core import Sym, SymFP
from .symstr import SymStr


class _K:
    """a symbolic key as it is stored"""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return repr(self.k)


def symbolic(k):
    if isinstance(k, tuple):
        return any(symbolic(x) for x in k)
    return isinstance(k, (Sym, SymFP, SymStr))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(a == b)


def _out(k):
    return k.k if type(k) is _K else k


class _Keyed:
    """what dictionaries and sets have in common: finding the stored form of a key"""

    def _find(self, k):
        """whether there is a key equal to k, and it as it is stored or would be"""
        base = self._base
        if not symbolic(k):
            if base.__contains__(self, k):
                return True, k
            if not self._sym:
                return False, k
            for s in list(base.__iter__(self)):
                if type(s) is _K and same(s.k, k):
                    return True, s
            return False, k
        for s in list(base.__iter__(self)):
            if same(_out(s), k):
                return True, s
        return False, _K(k)

    def __contains__(self, k):
        return self._find(k)[0]

    def __iter__(self):
        return (_out(k) for k in list(self._base.__iter__(self))) if self._sym else self._base.__iter__(self)

    def _note(self, s):
        if type(s) is _K:
            self._sym = True


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dict) if cls is SDict else type.__instancecheck__(cls, x)


class SDict(_Keyed, dict, metaclass=_DictMeta):
    _base = dict
    _sym = False

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self.update(*a, **kw)

    @classmethod
    def display(cls, parts):
        d = cls()
        for p in parts:
            if len(p) == 1:
                d.update(p[0])
            else:
                d[p[0]] = p[1]
        return d

    @classmethod
    def fromkeys(cls, keys, value=None):
        d = cls()
        for k in keys:
            d[k] = value
        return d

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __getitem__(self, k):
        found, s = self._find(k)
        if found:
            return dict.__getitem__(self, s)
        m = getattr(type(self), "__missing__", None)
        if m is not None:
            return m(self, k)
        raise KeyError(k)

    def __setitem__(self, k, v):
        found, s = self._find(k)
        self._note(s)
        dict.__setitem__(self, s, v)

    def __delitem__(self, k):
        found, s = self._find(k)
        if not found:
            raise KeyError(k)
        dict.__delitem__(self, s)

    def get(self, k, default=None):
        found, s = self._find(k)
        return dict.__getitem__(self, s) if found else default

    def setdefault(self, k, default=None):
        found, s = self._find(k)
        if not found:
            self._note(s)
            dict.__setitem__(self, s, default)
        return dict.__getitem__(self, s)

    def pop(self, k, *default):
        found, s = self._find(k)
        if found:
            return dict.pop(self, s)
        if default:
            return default[0]
        raise KeyError(k)

    def popitem(self):
        k, v = dict.popitem(self)
        return _out(k), v

    def keys(self):
        return [_out(k) for k in dict.keys(self)] if self._sym else dict.keys(self)

    def items(self):
        return [(_out(k), v) for k, v in dict.items(self)] if self._sym else dict.items(self)

    def __reversed__(self):
        return iter([_out(k) for k in dict.__reversed__(self)])

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if not self._sym and not getattr(o, "_sym", False):
            return dict.__eq__(self, o)
        return len(self) == len(o) and all(k in o and same(v, o[k]) for k, v in self.items())

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None


class SOrderedDict(SDict):
    def move_to_end(self, k, last=True):
        found, s = self._find(k)
        if not found:
            raise KeyError(k)
        items = [(x, v) for x, v in dict.items(self) if x is not s and not (type(s) is not _K and type(x) is not _K and x == s)]
        mine = (s, dict.__getitem__(self, s))
        dict.clear(self)
        for x, v in (items + [mine] if last else [mine] + items):
            dict.__setitem__(self, x, v)

    def popitem(self, last=True):
        k = list(dict.keys(self))[-1 if last else 0]
        return _out(k), dict.pop(self, k)


class SDefaultDict(SDict):
    def __init__(self, default_factory=None, *a, **kw):
        self.default_factory = default_factory
        SDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        self[k] = v = self.default_factory()
        return v

    def copy(self):
        return SDefaultDict(self.default_factory, self)

    __copy__ = copy

    def __reduce__(self):
        return SDefaultDict, (self.default_factory,), None, None, iter(list(self.items()))


class SCounter(SDict):
    def __init__(self, *a, **kw):
        dict.__init__(self)
        self.update(*a, **kw)

    def __missing__(self, k):
        return 0

    def update(self, *a, **kw):
        for o in list(a) + [kw]:
            if o is None:
                continue
            for k, v in o.items() if hasattr(o, "items") else [(k, 1) for k in o]:
                self[k] = self.get(k, 0) + v

    def subtract(self, *a, **kw):
        for o in list(a) + [kw]:
            for k, v in o.items() if hasattr(o, "items") else [(k, 1) for k in o]:
                self[k] = self.get(k, 0) - v

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, set) if cls is SSet else type.__instancecheck__(cls, x)


class SSet(_Keyed, set, metaclass=_SetMeta):
    _base = set
    _sym = False

    def __init__(self, xs=()):
        set.__init__(self)
        self.update(xs)

    def add(self, k):
        found, s = self._find(k)
        if not found:
            self._note(s)
            set.add(self, s)

    def update(self, *os):
        for o in os:
            for k in list(o):
                self.add(k)

    def discard(self, k):
        found, s = self._find(k)
        if found:
            set.discard(self, s)

    def remove(self, k):
        if k not in self:
            raise KeyError(k)
        self.discard(k)

    def pop(self):
        return _out(set.pop(self))

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def union(self, *os):
        r = SSet(self)
        r.update(*os)
        return r

    def intersection(self, *os):
        return SSet([k for k in self if all(k in _aset(o) for o in os)])

    def difference(self, *os):
        return SSet([k for k in self if not any(k in _aset(o) for o in os)])

    def symmetric_difference(self, o):
        o = _aset(o)
        return SSet([k for k in self if k not in o] + [k for k in o if k not in self])

    def issubset(self, o):
        o = _aset(o)
        return all(k in o for k in self)

    def issuperset(self, o):
        return all(k in self for k in o)

    def isdisjoint(self, o):
        return not any(k in self for k in o)

    def difference_update(self, *os):
        for o in os:
            for k in list(o):
                self.discard(k)

    def intersection_update(self, *os):
        keep = self.intersection(*os)
        for k in list(self):
            if k not in keep:
                self.discard(k)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None


def _aset(o):
    return o if isinstance(o, (set, frozenset, dict)) else SSet(o)


class Displays(ast.NodeTransformer):
    def _call(self, node, name, arg):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[arg], keywords=[]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = [ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return self._call(node, "__vf_dict__", ast.Tuple(elts=parts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return self._call(node, "__vf_dict__", ast.GeneratorExp(elt=pair, generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, "__vf_set__", ast.Tuple(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, "__vf_set__", ast.GeneratorExp(elt=node.elt, generators=node.generators))


def parse(text, path):
    return ast.fix_missing_locations(Displays().visit(ast.parse(text, path)))


def collections_module():
    m = types.ModuleType("collections")
    m.__dict__.update({k: v for k, v in vars(collections).items() if k not in ("__builtins__",)})
    m.__path__ = []
    from collections import abc

    m.abc = abc
    m.OrderedDict, m.defaultdict, m.Counter = SOrderedDict, SDefaultDict, SCounter
    return m
