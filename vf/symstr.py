"""Strings of a fixed length whose characters are symbolic, and the part of `re` that works on them."""
import re
import types

from . import core
from .core import SymNum, Unsupported, mk_and, mk_bool, mk_ite, mk_or

try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_constants as sc
    import sre_parse


def _c(x):
    return x if isinstance(x, int) else SymNum("i", x) if not isinstance(x, SymNum) else x


def _code(x):
    return ord(x) if isinstance(x, str) and not isinstance(x, SymStr) else x


def _eqc(a, b):
    return a == b


_digit_ranges = {}


def _ranges(pattern):
    """code points matched by a one-character pattern"""
    got = _digit_ranges.get(pattern)
    if got is None:
        rx = re.compile(pattern)
        got, start = [], None
        for i in range(0x3000):
            ok = rx.match(chr(i)) is not None
            if ok and start is None:
                start = i
            if not ok and start is not None:
                got.append((start, i - 1))
                start = None
        if start is not None:
            got.append((start, 0x2FFF))
        _digit_ranges[pattern] = got
    return got


def in_ranges(c, rs):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in rs)
    return mk_or(*[mk_and(c >= a, c <= b) if a != b else c == a for a, b in rs])


WS = r"\s"


class SymStr(str):
    def __new__(cls, codes):
        # what C code sees of it is a token, so that joining and formatting keep the text (see codes())
        e = core._engine
        key = f"⟦{len(e.tokens)}⟧" if e is not None else "⟪symbolic text⟫"
        self = str.__new__(cls, key)
        self.codes = [c for c in codes]
        if e is not None:
            e.tokens[key] = (self, "")
        return self

    # -- structure
    def __len__(self):
        return len(self.codes)

    def __bool__(self):
        return bool(self.codes)

    def __getitem__(self, k):
        r = self.codes[k]
        return mk(r if isinstance(r, list) else [r])

    def __iter__(self):
        return (mk([c]) for c in self.codes)

    def __mul__(self, n):
        return mk(self.codes * n)

    __rmul__ = __mul__

    def __add__(self, o):
        return mk(self.codes + codes(o))

    def __radd__(self, o):
        return mk(codes(o) + self.codes)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        o = codes(o)
        if len(o) != len(self.codes):
            return False
        return mk_and(*[a == b for a, b in zip(self.codes, o)])

    def __ne__(self, o):
        return core.mk_not(self == o)

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __contains__(self, o):
        o = codes(o)
        n = len(o)
        return bool(mk_or(*[mk_and(*[a == b for a, b in zip(self.codes[i:i + n], o)]) for i in range(len(self.codes) - n + 1)]))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        ps = [mk(codes(q)) for q in (p if isinstance(p, tuple) else (p,))]
        return mk_or(*[(self[:len(q)] == q) if len(q) <= len(self) else False for q in ps])

    def endswith(self, p, *a):
        ps = [mk(codes(q)) for q in (p if isinstance(p, tuple) else (p,))]
        return mk_or(*[(self[len(self) - len(q):] == q) if len(q) <= len(self) else False for q in ps])

    def _map(self, lo, hi, d):
        return mk([mk_ite(mk_and(c >= lo, c <= hi), c + d, c) if not isinstance(c, int) else c + d if lo <= c <= hi else c for c in self.codes])

    def lower(self):
        return self._map(65, 90, 32)

    casefold = lower

    def upper(self):
        return self._map(97, 122, -32)

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.codes) and self._strippable(self.codes[i], chars):
            i += 1
        return mk(self.codes[i:])

    def rstrip(self, chars=None):
        i = len(self.codes)
        while i and self._strippable(self.codes[i - 1], chars):
            i -= 1
        return mk(self.codes[:i])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def _strippable(self, c, chars):
        if chars is None:
            return bool(in_ranges(c, _ranges(WS)))
        return bool(mk_or(*[c == ord(x) for x in chars]))

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and bool(self.endswith(p)) else self

    def isdigit(self):
        return bool(self.codes) and bool(mk_and(*[in_ranges(c, _ranges(r"\d")) for c in self.codes]))

    def isascii(self):
        return bool(mk_and(*[c < 128 for c in self.codes]))

    def isalnum(self):
        return bool(self.codes) and bool(mk_and(*[in_ranges(c, _ranges(r"[^\W_]")) for c in self.codes]))

    def islower(self):
        up = mk_or(*[in_ranges(c, [(65, 90)]) for c in self.codes])
        lo = mk_or(*[in_ranges(c, [(97, 122)]) for c in self.codes])
        return bool(mk_and(lo, core.mk_not(up)))

    def __str__(self):
        return self

    def __repr__(self):
        return "'⟪symbolic text⟫'"

    def __format__(self, spec):
        if spec not in ("", "s"):
            raise Unsupported("format of symbolic text")
        return str.__str__(self)

    # -- searching: forks on where the text is found
    def _at(self, o, i):
        return bool(mk_and(*[a == b for a, b in zip(self.codes[i:i + len(o)], o)]))

    def find(self, o, start=0, end=None):
        o, n = codes(o), len(self.codes) if end is None else end
        for i in range(start, n - len(o) + 1):
            if self._at(o, i):
                return i
        return -1

    def rfind(self, o, start=0, end=None):
        o, n = codes(o), len(self.codes) if end is None else end
        for i in range(n - len(o), start - 1, -1):
            if self._at(o, i):
                return i
        return -1

    def index(self, o, *a):
        i = self.find(o, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, o, *a):
        i = self.rfind(o, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def partition(self, o):
        i = self.find(o)
        return (self, "", "") if i < 0 else (self[:i], o, self[i + len(o):])

    def rpartition(self, o):
        i = self.rfind(o)
        return ("", "", self) if i < 0 else (self[:i], o, self[i + len(o):])

    def split(self, sep=None, maxsplit=-1):
        out, rest = [], self
        if sep is None:
            rest = self.lstrip()
            while len(rest) and maxsplit:
                k = 0
                while k < len(rest) and not bool(in_ranges(codes(rest)[k], _ranges(WS))):
                    k += 1
                out.append(rest[:k])
                rest = rest[k:].lstrip()
                maxsplit -= 1
            return out + ([rest] if len(rest) else [])
        while maxsplit and isinstance(rest, SymStr):
            i = rest.find(sep)
            if i < 0:
                return out + [rest]
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        return out + (rest.split(sep, maxsplit) if not isinstance(rest, SymStr) else [rest])

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 or sep is None and maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit")
        out, rest = [], self
        while maxsplit and len(rest):
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        return [rest] + out

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("splitlines(keepends)")
        out, cur, cs, i = [], [], self.codes, 0
        while i < len(cs):
            c = cs[i]
            if bool(mk_or(mk_and(c >= 10, c <= 13), mk_and(c >= 28, c <= 30), c == 133, c == 0x2028, c == 0x2029)):
                if i + 1 < len(cs) and bool(mk_and(c == 13, cs[i + 1] == 10)):
                    i += 1
                out.append(mk(cur))
                cur = []
            else:
                cur.append(c)
            i += 1
        return out + ([mk(cur)] if cur else [])

    def replace(self, a, b, count=-1):
        if count >= 0:
            raise Unsupported("replace with count")
        out = []
        for i, x in enumerate(self.split(a)):
            out += (codes(b) if i else []) + codes(x)
        return mk(out)

    def count(self, o):
        return len(self.split(o)) - 1

    def isdecimal(self):
        return self.isdigit()

    def zfill(self, n):
        if len(self) >= n:
            return self
        if len(self) and bool(mk_or(self.codes[0] == 43, self.codes[0] == 45)):
            return self[:1] + "0" * (n - len(self)) + self[1:]
        return "0" * (n - len(self)) + self

    def __symint__(self, base=10):
        """int(text, base): the shape of the text decides whether it is a number, the digits decide which"""
        cls, val = [], []
        for c in self.codes:
            if isinstance(c, int):
                cls.append(chr(c))
                val.append(None)
            elif bool(in_ranges(c, [(48, 47 + min(base, 10))] + ([(97, 86 + base), (65, 54 + base)] if base > 10 else []))):
                cls.append("0")
                val.append(mk_ite(c <= 57, c - 48, mk_ite(c >= 97, c - 87, c - 55)))
            elif bool(in_ranges(c, _ranges(WS))):
                cls.append(" ")
                val.append(None)
            elif bool(mk_or(c == 43, c == 45, c == 95, c == 120, c == 88)):
                for ch in "+-_xX":
                    if bool(c == ord(ch)):
                        break
                cls.append(ch)
                val.append(None)
            elif bool(in_ranges(c, _ranges(r"\d"))):
                raise Unsupported("int of other digits")
            else:
                cls.append("?")
                val.append(None)
        for i in range(1, len(cls)):
            if cls[i] in "xX" and val[i - 1] is not None and not bool(val[i - 1] == 0):
                cls[i - 1] = "1"
        shape = "".join(cls)
        int(shape, base)  # raises ValueError exactly when the text is no number
        neg = "-" in shape
        t = shape.replace("_", "")
        total = 0
        seen = []
        for ch, v in zip(shape, val):
            if ch in "0123456789" or ch.isalpha() and ch not in "xX":
                seen.append(int(ch, base) if v is None else v)
            elif ch in "xX":
                seen = []
        for v in seen:
            total = total * base + v
        return -total if neg else total

    def __getattribute__(self, n):
        if n.startswith("__") or n in _OK:
            return object.__getattribute__(self, n)
        raise Unsupported("str." + n + " of symbolic text")

    def __mod__(self, o):
        raise Unsupported("%")

    def __lt__(self, o):
        raise Unsupported("order of symbolic text")

    __gt__ = __le__ = __ge__ = __lt__


_OK = set(n for n in SymStr.__dict__) | {"codes"}


_TOKEN = re.compile("⟦\\d+⟧")


def codes(s):
    """the characters of a text; tokens that stand for symbolic text are replaced by it"""
    if isinstance(s, SymStr):
        return list(s.codes)
    if "⟦" not in s or core._engine is None:
        return [ord(c) for c in s]
    out, at = [], 0
    for m in _TOKEN.finditer(s):
        got = core._engine.tokens.get(m.group())
        if got is None or not isinstance(got[0], SymStr):
            continue
        out += [ord(c) for c in s[at:m.start()]] + list(got[0].codes)
        at = m.end()
    return out + [ord(c) for c in s[at:]]


def mk(cs):
    if all(isinstance(c, int) for c in cs):
        return "".join(map(chr, cs))
    return SymStr(cs)


# --------------------------------------------------------------------------------------------------------------
class Match:
    def __init__(self, s, start, end, groups, names):
        self.string, self._s, self._e, self._g, self._n = s, start, end, groups, names

    def _span(self, g=0):
        if isinstance(g, str):
            g = self._n[g]
        return (self._s, self._e) if g == 0 else self._g.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def _one(self, g):
        a, b = self._span(g)
        return None if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        return self._one(gs[0]) if len(gs) == 1 else tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        n = self.nall
        return tuple(self._one(i) if self._one(i) is not None else default for i in range(1, n + 1))

    def __bool__(self):
        return True


def _charset(items, c, flags):
    neg, alts = False, []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            alts.append(_lit(av, c, flags))
        elif op is sc.RANGE:
            a, b = av
            rs = [(a, b)]
            if flags & re.I:
                for x, y, d in ((65, 90, 32), (97, 122, -32)):
                    u, v = max(a, x), min(b, y)
                    if u <= v:
                        rs.append((u + d, v + d))
            alts.append(in_ranges(c, rs))
        elif op is sc.CATEGORY:
            alts.append(_category(av, c, flags))
        else:
            raise Unsupported("re set " + str(op))
    r = mk_or(*alts) if alts else False
    return core.mk_not(r) if neg else r


_CATS = {
    sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S",
    sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W",
}


def _category(av, c, flags):
    p = _CATS.get(av)
    if p is None:
        raise Unsupported("re category")
    return in_ranges(c, _ranges("(?a)" + p if flags & re.A else p))


def _lit(av, c, flags):
    if flags & re.I and chr(av).isalpha():
        return mk_or(c == ord(chr(av).lower()), c == ord(chr(av).upper()))
    return c == av


def _m(seq, i, s, p, g, flags, k):
    """match seq[i:] at p, then k(p, groups); forks on the characters"""
    if i == len(seq):
        return k(p, g)
    op, av = seq[i]
    rest = lambda q, h: _m(seq, i + 1, s, q, h, flags, k)
    n = len(s)
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        if p >= n:
            return None
        c = s[p]
        if op is sc.LITERAL:
            ok = _lit(av, c, flags)
        elif op is sc.NOT_LITERAL:
            ok = core.mk_not(_lit(av, c, flags))
        elif op is sc.ANY:
            ok = True if flags & re.S else c != 10
        else:
            ok = _charset(av, c, flags)
        return rest(p + 1, g) if bool(ok) else None
    if op is sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            ok = p == 0 or (av is sc.AT_BEGINNING and flags & re.M and bool(s[p - 1] == 10))
        elif av is sc.AT_END_STRING:
            ok = p == n
        elif av is sc.AT_END:
            if flags & re.M:
                ok = p == n or bool(s[p] == 10)
            else:
                ok = p == n or (p == n - 1 and bool(s[p] == 10))
        else:
            raise Unsupported("re anchor")
        return rest(p, g) if ok else None
    if op is sc.SUBPATTERN:
        group, add, rem, sub = av
        f2 = (flags | add) & ~rem

        def done(q, h):
            if group is not None:
                h = dict(h)
                h[group] = (p, q)
            return rest(q, h)

        return _m(list(sub), 0, s, p, g, f2, done)
    if op is sc.BRANCH:
        for alt in av[1]:
            r = _m(list(alt), 0, s, p, g, flags, rest)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(cnt, q, h):
            def more():
                if hi is not sc.MAXREPEAT and cnt >= hi:
                    return None
                return _m(sub, 0, s, q, h, flags, lambda q2, h2: None if q2 == q and cnt >= lo else rep(cnt + 1, q2, h2))

            if cnt < lo:
                return more()
            if op is sc.MAX_REPEAT:
                r = more()
                return r if r is not None else rest(q, h)
            r = rest(q, h)
            return r if r is not None else more()

        return rep(0, p, g)
    raise Unsupported("re " + str(op))


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern, self.real = pattern, re.compile(pattern, flags)
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.real.flags
        self.groupindex = self.real.groupindex

    def _at(self, s, p, full):
        cs = codes(s)

        def k(q, g):
            if full and q != len(cs):
                return None
            m = Match(s, p, q, g, dict(self.real.groupindex))
            m.nall = self.real.groups
            return m

        return _m(list(self.tree), 0, cs, p, {}, self.flags, k)

    def match(self, s, *a):
        return self._at(s, 0, False) if isinstance(s, SymStr) else self.real.match(s, *a)

    def fullmatch(self, s, *a):
        return self._at(s, 0, True) if isinstance(s, SymStr) else self.real.fullmatch(s, *a)

    def search(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.search(s, *a)
        for p in range(len(s) + 1):
            m = self._at(s, p, False)
            if m is not None:
                return m
        return None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.real, n)


def re_module():
    m = types.ModuleType("re")
    m.__dict__.update({k: v for k, v in re.__dict__.items() if not k.startswith("__")})
    comp = lambda p, f=0: p if isinstance(p, Pattern) else Pattern(p, int(f))
    m.compile = comp
    m.match = lambda p, s, flags=0: comp(p, flags).match(s)
    m.fullmatch = lambda p, s, flags=0: comp(p, flags).fullmatch(s)
    m.search = lambda p, s, flags=0: comp(p, flags).search(s)
    return m
