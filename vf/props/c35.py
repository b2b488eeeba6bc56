"""Palettes: which colour a hashable gets."""
from ..runner import Case

BOUNDS = "the three predefined palettes and user palettes of 1..4 colours given as names, hexadecimal text and tuples of symbolic integers; any integer or any object with any hash value; sequences of set / set_default_color / choose_color"
OUTSIDE = "how Python hashes values of other types (any hash value is covered)"


class Thing:
    def __init__(self, h, sym):
        self.h = h

    def __symhash__(self):
        return self.h

    def __hash__(self):
        return int(self.h)


PREDEFINED = {
    "tab10": "1f77b4 ff7f0e 2ca02c d62728 9467bd 8c564b e377c2 7f7f7f bcbd22 17becf",
    "tab20": "1f77b4 aec7e8 ff7f0e ffbb78 2ca02c 98df8a d62728 ff9896 9467bd c5b0d5 8c564b c49c94 e377c2 f7b6d2 7f7f7f c7c7c7 bcbd22 dbdb8d 17becf 9edae5",
    "colorblind": "0173b2 de8f05 029e73 d55e00 cc78bc ca9161 fbafe4 949494 ece133 56b4e9",
}


def bgr(h):
    return (int(h[4:6], 16), int(h[2:4], 16), int(h[0:2], 16))


def eq(env, a, b):
    return env.And(len(a) == len(b), *[x == y for x, y in zip(a, b)])


def palette(env, which):
    P = env.nf.Palette
    if which in PREDEFINED:
        if which != "tab10" or env.split(env.bool("set it")):
            P.set(which)
        colors = [bgr(h) for h in PREDEFINED[which].split()]
    else:
        n = int(which[-1])
        t = [tuple(env.int(f"c{i}_{k}", 0, 255) for k in range(3)) for i in range(n)]
        given = [t[i] if i % 3 == 0 else "#102030" if i % 3 == 1 else "red" for i in range(n)]
        colors = [t[i] if i % 3 == 0 else (48, 32, 16) if i % 3 == 1 else (0, 0, 255) for i in range(n)]
        how = env.choice("how", ["list", "tuple", "generator"])
        g = list(given) if how == "list" else tuple(given) if how == "tuple" else (x for x in given)
        P.set(g)
        if how == "list":
            g.append("blue")
            g[0] = "green"
    h = env.int("hash", -10 ** 15, 10 ** 15)
    kind = env.choice("kind", ["int", "object"])
    key = h if kind == "int" else Thing(h, env.sym)
    c = P.choose_color(key)
    env.check(env.Or(*[eq(env, c, x) for x in colors]), "a colour of the palette")
    env.check(eq(env, P.choose_color(h if kind == "int" else Thing(h, env.sym)), c), "always the same for the same hash")
    d = env.int("apart", 1, 40)
    if kind == "int" and env.split(env.And(h >= 0, d < len(colors))) and which in PREDEFINED:
        c2 = P.choose_color(h + d)
        env.check(env.Not(eq(env, c, c2)), "objects with close ids get different colours")
        env.reach("close ids")
    for v in (0, False, "", (), b"", frozenset(), 0.0):
        env.check(env.Or(*[eq(env, P.choose_color(v), x) for x in colors]), "also for what is empty")
    env.check(P.choose_color(None) == (0, 0, 0), "the default colour for None")
    env.reach(kind)
    env.observe("c", list(c))


def settings(env, n):
    """sequences of settings: the last valid one counts"""
    P = env.nf.Palette
    cur, default = "tab10", (0, 0, 0)
    for k in range(n):
        op = env.choice(f"op{k}", ["tab20", "colorblind", "tab10", "invalid", "custom", "bad color", "default", "default text"])
        if op in PREDEFINED:
            P.set(op)
            cur = op
        elif op == "custom":
            P.set(["#010203", (7, 8, 9)])
            cur = op
        elif op == "invalid":
            _, e = env.trial(P.set, "no such palette")
            env.check(type(e) is ValueError, "an unknown palette name is a ValueError")
        elif op == "bad color":
            _, e = env.trial(P.set, ["red", "#xyzxyz"])
            env.check(type(e) is ValueError, "so is a palette with something that is no colour")
        elif op == "default":
            default = tuple(env.int(f"d{k}_{i}", 0, 255) for i in range(3))
            P.set_default_color(default)
        else:
            P.set_default_color("red")
            default = (0, 0, 255)
        colors = [(3, 2, 1), (7, 8, 9)] if cur == "custom" else [bgr(h) for h in PREDEFINED[cur].split()]
        env.check(eq(env, P.choose_color(None), default), "the default colour is the one set last")
        got = [P.choose_color(i) for i in range(len(colors))]
        env.check(sorted(got) == sorted(colors), "the colours are those of the palette set last")
        env.reach(op)


def cases(tier):
    q = tier == "quick"
    cs = [Case(w, palette, dict(which=w), expect=("int", "object") + (("close ids",) if w in PREDEFINED else ())) for w in list(PREDEFINED) + ["user-1", "user-3"]]
    cs.append(Case("settings", settings, dict(n=2 if q else 3), expect=("invalid", "custom", "default")))
    if not q:
        cs.append(Case("user-4", palette, dict(which="user-4"), expect=("int", "object")))
        cs.append(Case("user-2", palette, dict(which="user-2"), expect=("int", "object")))
    return cs
