"""Colours: hexadecimal text, names and tuples."""
from ..runner import Case
from ._draw import integer

BOUNDS = "any ASCII text of 0..9 characters (all characters symbolic), every CSS colour name, tuples of any integers and reals"
OUTSIDE = "text longer than 9 characters (rejected by the same patterns) and non-ASCII characters other than digits"

CSS = """aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4 black 000000
blanchedalmond ffebcd blue 0000ff blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0 chartreuse 7fff00
chocolate d2691e coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff darkblue 00008b darkcyan
008b8b darkgoldenrod b8860b darkgray a9a9a9 darkgreen 006400 darkgrey a9a9a9 darkkhaki bdb76b darkmagenta 8b008b
darkolivegreen 556b2f darkorange ff8c00 darkorchid 9932cc darkred 8b0000 darksalmon e9967a darkseagreen 8fbc8f
darkslateblue 483d8b darkslategray 2f4f4f darkslategrey 2f4f4f darkturquoise 00ced1 darkviolet 9400d3 deeppink ff1493
deepskyblue 00bfff dimgray 696969 dimgrey 696969 dodgerblue 1e90ff firebrick b22222 floralwhite fffaf0 forestgreen 228b22
fuchsia ff00ff gainsboro dcdcdc ghostwhite f8f8ff gold ffd700 goldenrod daa520 gray 808080 green 008000 greenyellow adff2f
grey 808080 honeydew f0fff0 hotpink ff69b4 indianred cd5c5c indigo 4b0082 ivory fffff0 khaki f0e68c lavender e6e6fa
lavenderblush fff0f5 lawngreen 7cfc00 lemonchiffon fffacd lightblue add8e6 lightcoral f08080 lightcyan e0ffff
lightgoldenrodyellow fafad2 lightgray d3d3d3 lightgreen 90ee90 lightgrey d3d3d3 lightpink ffb6c1 lightsalmon ffa07a
lightseagreen 20b2aa lightskyblue 87cefa lightslategray 778899 lightslategrey 778899 lightsteelblue b0c4de lightyellow
ffffe0 lime 00ff00 limegreen 32cd32 linen faf0e6 magenta ff00ff maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd
mediumorchid ba55d3 mediumpurple 9370db mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a
mediumturquoise 48d1cc mediumvioletred c71585 midnightblue 191970 mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5
navajowhite ffdead navy 000080 oldlace fdf5e6 olive 808000 olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6
palegoldenrod eee8aa palegreen 98fb98 paleturquoise afeeee palevioletred db7093 papayawhip ffefd5 peachpuff ffdab9 peru
cd853f pink ffc0cb plum dda0dd powderblue b0e0e6 purple 800080 red ff0000 rosybrown bc8f8f royalblue 4169e1 saddlebrown
8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57 seashell fff5ee sienna a0522d silver c0c0c0 skyblue 87ceeb
slateblue 6a5acd slategray 708090 slategrey 708090 snow fffafa springgreen 00ff7f steelblue 4682b4 tan d2b48c teal 008080
thistle d8bfd8 tomato ff6347 turquoise 40e0d0 violet ee82ee wheat f5deb3 white ffffff whitesmoke f5f5f5 yellow ffff00
yellowgreen 9acd32""".split()


def ch(s, i):
    c = s[i]
    return c.codes[0] if hasattr(c, "codes") else ord(c)


def digit(env, c):
    """value of a hexadecimal digit, -1 for anything else"""
    r = env.Ite(env.And(c >= 48, c <= 57), c - 48, -1)
    r = env.Ite(env.And(c >= 97, c <= 102), c - 87, r)
    return env.Ite(env.And(c >= 65, c <= 70), c - 55, r)


def hexa(env, n, wide=False):
    K = env.mod("norfair.drawing.color")
    s = env.text("s", n, *((1, 0x6FF) if wide else ()))
    r, e = env.trial(K.hex_to_bgr, s)
    c = [ch(s, i) for i in range(n)]
    d = [digit(env, x) for x in c[1:]]
    good = env.And(n in (4, 7), n > 0 and c[0] == 35, *[x >= 0 for x in d])
    if env.split(good):
        env.check(e is None, "a # and six (or three) digits of either case are a colour")
        p = [(d[i], d[i + 1]) for i in (4, 2, 0)] if n == 7 else [(x, x) for x in (d[2], d[1], d[0])]
        env.check(len(r) == 3, "blue, green and red")
        for x, (a, b) in zip(r, p):
            env.check(x == 16 * a + b, "blue, green, red as the digits say")
        env.reach("colour")
        env.check(type(r) is tuple, "a tuple")
        env.observe("r", r)
    else:
        env.check(type(e) is ValueError, "anything else is a ValueError")
        env.reach("refused")
    if n and env.split(c[0] == 35):
        r2, e2 = env.trial(K.parse_color, s)
        env.check(type(e2) is type(e), "parse_color accepts the same hexadecimal text")
        if e is None and e2 is None:
            env.check(env.And(*[x == y for x, y in zip(r, r2)]), "and gives the same colour")
        env.reach("parsed")


def names(env):
    K = env.mod("norfair.drawing.color")
    i = env.choice("name", list(range(len(CSS) // 2)))
    n, h = CSS[2 * i], CSS[2 * i + 1]
    want = (int(h[4:6], 16), int(h[2:4], 16), int(h[0:2], 16))
    env.check(K.parse_color(n) == want, "the CSS colour of that name, as BGR")
    env.check(getattr(env.nf.Color, n) == want, "also as an attribute of Color")
    env.reach("named")


def tuples(env):
    K = env.mod("norfair.drawing.color")
    kind = env.choice("kind", ["int", "real", "array", "list"])
    v = [env.real(f"v{i}", -300, 300) if kind == "real" else env.int(f"v{i}", -300, 300) for i in range(3)]
    g = tuple(v) if kind in ("int", "real") else env.np.array(v) if kind == "array" else v
    r = K.parse_color(g)
    env.check(isinstance(r, tuple) and len(r) == 3, "a tuple of three")
    for x, y in zip(r, v):
        env.check(env.And(x - y < 1, y - x < 1, env.Implies(y >= 0, x <= y)), "the same numbers, cut to integers")
        env.check(integer(x), "integers")
        if kind != "real":
            env.check(x == y, "integers unchanged")
    env.reach(kind)
    env.observe("r", r)


def cases(tier):
    q = tier == "quick"
    cs = [Case(f"text-{n}", hexa, dict(n=n), expect=("refused",) + (("parsed",) if n else ()) + (("colour",) if n in (4, 7) else ())) for n in range(0, 10)]
    cs += [Case(f"wide-{n}", hexa, dict(n=n, wide=True), expect=("refused", "parsed")) for n in (4, 7)]
    cs.append(Case("names", names, {}, expect=("named",)))
    cs.append(Case("tuples", tuples, {}, expect=("int", "real", "array", "list")))
    return cs
