"""The drawing primitives draw what they are given; sizes that are not given suit the frame."""
from ..runner import Case
from ._draw import Canvas, same_color, world

BOUNDS = "every primitive with symbolic integer places, sizes, colours and frame sizes 1..8000, given or not; pairs of frames of which one is at least as large; cv2 is a stand-in that records the calls and refuses what OpenCV refuses"
OUTSIDE = "rasterisation by OpenCV; which sizes exactly are picked"


def frame_(env, n):
    return Canvas(env.int(f"height{n}", 1, 8000), env.int(f"width{n}", 1, 8000), name=n)


def color_(env, n="c"):
    return tuple(env.int(f"{n}{k}", 0, 255) for k in range(3))


def point(env, n):
    return (env.int(f"{n}x", -100, 8000), env.int(f"{n}y", -100, 8000))


def at(env, a, b):
    return env.And(*[x == y for x, y in zip(a, b)])


def shapes(env):
    cv = world(env)
    D = env.mod("norfair.drawing.drawer").Drawer
    f, c = frame_(env, "f"), color_(env)
    th = env.int("thickness", 1, 20)
    kind = env.choice("kind", ["circle", "rectangle", "line", "line-default", "cross"])
    p, q = point(env, "p"), point(env, "q")
    if kind == "circle":
        r = env.int("radius", 0, 99)
        fill = env.split(env.bool("fill"))
        out = D.circle(f, p, radius=r, thickness=-1 if fill else th, color=c)
        env.check(len(cv.calls) == 1 and cv.calls[0][1] == "circle", "one circle")
        _, _, m, rr, cc, tt = cv.calls[0]
        env.check(env.And(at(env, m, p), rr == r, same_color(env, cc, c), tt == (-1 if fill else th)), "the circle asked for")
    elif kind == "rectangle":
        out = D.rectangle(f, [p, q], color=c, thickness=th)
        env.check(len(cv.calls) == 1 and cv.calls[0][1] == "rectangle", "one rectangle")
        _, _, a, b, cc, tt = cv.calls[0]
        env.check(env.And(at(env, a, p), at(env, b, q), same_color(env, cc, c), tt == th), "the rectangle asked for")
    elif kind in ("line", "line-default"):
        out = D.line(f, p, q, color=c, thickness=th) if kind == "line" else D.line(f, p, q)
        env.check(len(cv.calls) == 1 and cv.calls[0][1] == "line", "one line")
        _, _, a, b, cc, tt = cv.calls[0]
        if kind == "line":
            env.check(env.And(same_color(env, cc, c), tt == th), "the line asked for")
        else:
            env.check(env.And(same_color(env, cc, (0, 0, 0)), tt == 1), "thin and black unless told otherwise")
        env.check(env.And(at(env, a, p), at(env, b, q)), "from start to end")
    else:
        r = env.int("radius", 0, 99)
        out = D.cross(f, env.arr(list(p), int), radius=r, color=c, thickness=th)
        env.check(len(cv.calls) == 2 and all(x[1] == "line" for x in cv.calls), "two lines")
        seen = []
        for _, _, a, b, cc, tt in cv.calls:
            env.check(env.And(same_color(env, cc, c), tt == th), "in colour and thickness")
            for k in range(2):
                if env.split(at(env, (a[k], b[k], a[1 - k], b[1 - k]), (p[k], p[k], p[1 - k] - r, p[1 - k] + r))):
                    seen.append(k)
                    break
        env.check(set(seen) == {0, 1} or env.split(r == 0) and seen, "of the radius, crossing at the centre")
    env.check(out is f and all(x[0] is f for x in cv.calls), "on the frame, which is returned")
    env.reach(kind)


def text(env):
    cv = world(env)
    D = env.mod("norfair.drawing.drawer").Drawer
    f, c, p = frame_(env, "f"), color_(env), point(env, "p")
    kw = {}
    size = th = None
    if env.split(env.bool("size given")):
        size = kw["size"] = env.dyadic("size", 0.125, 9)
    if env.split(env.bool("thickness given")):
        th = kw["thickness"] = env.int("thickness", 1, 20)
    shadow = True
    off, sc = 1, (0, 0, 0)
    how = env.choice("shadow", ["default", "none", "given"])
    if how == "none":
        shadow = kw["shadow"] = False
    elif how == "given":
        off = kw["shadow_offset"] = env.int("offset", -9, 9)
        sc = kw["shadow_color"] = color_(env, "s")
        kw["shadow"] = True
    out = D.text(f, "some text", p, color=c, **kw)
    env.check(out is f and all(x[0] is f and x[1] == "text" and x[3] == "some text" for x in cv.calls), "the text on the frame, which is returned")
    env.check(len(cv.calls) == 1 + shadow, "once, and once for the shadow")
    _, _, org, _, s, cc, t = cv.calls[-1]
    env.check(same_color(env, cc, c), "in its colour, over the shadow")
    if size is not None:
        env.check(s == size, "in the size given")
    if th is not None:
        env.check(t == th, "with the thickness given")
    else:
        env.check(t >= 1, "with lines that can be seen")
    d = (org[0] - p[0], p[1] - org[1])
    for x in d:
        env.check(env.And(x >= 0, 2 * x <= t), "where asked, but for half of the thickness")
    env.check(d[0] == d[1], "to the right and up")
    if shadow:
        _, _, so, _, ss, scol, st = cv.calls[0]
        env.check(env.And(so[0] - org[0] == off, so[1] - org[1] == off), "the shadow beside it")
        env.check(env.And(same_color(env, scol, sc), ss == s, st == t), "like it, in its own colour")
    env.reach(how)


def blend(env):
    cv = world(env)
    D = env.mod("norfair.drawing.drawer").Drawer
    seen = []
    cv.module.addWeighted = lambda src1, alpha, src2, beta, gamma, dst=None, dtype=-1: seen.append((src1, alpha, src2, beta, gamma)) or "blended"
    a, b = frame_(env, "a"), frame_(env, "b")
    al = env.dyadic("alpha", 0, 1)
    how = env.choice("how", ["all", "alpha", "default", "zero"])
    if how == "all":
        be, ga = env.dyadic("beta", 0, 2), env.dyadic("gamma", -9, 9)
        out = D.alpha_blend(a, b, alpha=al, beta=be, gamma=ga)
    elif how == "zero":
        be, ga = 0, 0
        out = D.alpha_blend(a, b, alpha=al, beta=0)
    elif how == "alpha":
        be, ga = 1 - al, 0
        out = D.alpha_blend(a, b, alpha=al)
    else:
        al, be, ga = 0.5, 0.5, 0
        out = D.alpha_blend(a, b)
    env.check(out == "blended" and len(seen) == 1, "blended once")
    s = seen[0]
    env.check(s[0] is a and s[2] is b, "the first over the second")
    env.check_close(s[1], al, "by alpha")
    env.check_close(s[3], be, "and beta, which completes alpha to one")
    env.check_close(s[4], ga, "and gamma")
    env.reach(how)


def sizes(env, what):
    """sizes picked for two frames, the second at least as large"""
    cv = world(env)
    nf = env.nf
    D = env.mod("norfair.drawing.drawer").Drawer
    h, w = [env.int("h0", 1, 8000), env.int("h1", 1, 8000)], [env.int("w0", 1, 8000), env.int("w1", 1, 8000)]
    env.assume(h[0] <= h[1], w[0] <= w[1])
    obj = env.mod("norfair.drawing.drawer").Drawable(points=env.np.array([[10.0, 20.0], [30.0, 40.0]]), id=1, label="x", scores=None, live_points=env.np.array([True, True]))
    got = []
    for k in range(2):
        f = Canvas(h[k], w[k])
        cv.calls.clear()
        if what == "points":
            nf.draw_points(f, [obj], draw_labels=True)
        elif what == "boxes":
            nf.draw_boxes(f, [obj], draw_labels=True)
        elif what == "circle":
            D.circle(f, (1, 2), color=(1, 2, 3))
        elif what == "text":
            D.text(f, "x", (1, 2), color=(1, 2, 3))
        elif what == "paths":
            cv.module.addWeighted = lambda src1, alpha, src2, beta, gamma, dst=None, dtype=-1: src2
            t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, initialization_delay=0, filter_factory=nf.NoFilterFactory())
            P = nf.AbsolutePaths()
            for _ in range(2):
                tr = env.mod("norfair.camera_motion").TranslationTransformation(env.np.array([0.0, 0.0]))
                P.draw(f, t.update([nf.Detection(env.np.array([[10.0, 20.0]]))], coord_transformations=tr), coord_transform=tr)
        s = []
        for c in cv.calls:
            if c[1] == "circle":
                env.check(c[3] >= 1, "points that can be seen")
                s.append(c[3])
                if what in ("circle", "paths"):
                    env.check(c[5] >= 0, "with lines")
                    s.append(c[5])
            elif c[1] == "rectangle":
                env.check(c[5] >= 0, "boxes that are not filled")
                s.append(c[5])
            elif c[1] == "line":
                env.check(c[5] >= 1, "lines that can be seen")
                s.append(c[5])
            elif c[1] == "text":
                env.check(env.And(c[4] >= 0.5, c[4] <= 1.5), "text that can be read and fits")
                env.check(c[6] >= 1, "with lines that can be seen")
                s += [c[4], c[6]]
        got.append(s)
    env.check(len(got[0]) == len(got[1]) and len(got[0]) > 0, "the same things")
    env.check(env.And(*[a <= b for a, b in zip(*got)]), "nothing is smaller on the larger frame")
    big = env.And(h[0] >= 4000, w[0] >= 4000)
    if env.split(big):
        env.check(env.Or(*[x > (1 if k or what != "text" else 0.75) for k, x in enumerate(got[0])]), "and some of it is larger on a large one")
        env.reach("large")
    env.reach("sizes")


def paths(env):
    """Paths picks its sizes from the first frame"""
    cv = world(env)
    nf = env.nf
    cv.module.addWeighted = lambda src1, alpha, src2, beta, gamma, dst=None, dtype=-1: src2
    prev = None
    seen = []

    def circle(img, center, radius, color, thickness=1, lineType=8, shift=0):
        seen.append((cv.int_(radius), cv.int_(thickness), cv.point(center)))
        return img

    cv.module.circle = circle
    x = [env.int("x", -5, 20), env.int("y", -5, 20)]
    for h in (1, 90, 300, 1200):
        t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, initialization_delay=0, filter_factory=nf.NoFilterFactory())
        P = nf.Paths()
        del seen[:]
        P.draw(env.np.zeros((h, 3, 3), dtype=env.np.uint8), t.update([nf.Detection(env.arr([x]))]))
        env.check(len(seen) == 1, "a circle")
        r, th, c = seen[0]
        env.check(at(env, c, x), "at the point")
        env.check(r >= 1 and th >= 1, "that can be seen")
        env.check(prev is None or r >= prev[0] and th >= prev[1], "not smaller on a larger frame")
        prev = (r, th)
    env.check(prev[0] > 1, "larger on a large one")
    env.reach("paths")


def cases(tier):
    return [
        Case("shapes", shapes, {}, expect=("circle", "rectangle", "line", "line-default", "cross")),
        Case("text", text, {}, expect=("default", "none", "given")),
        Case("blend", blend, {}, expect=("all", "alpha", "default", "zero")),
        Case("paths", paths, {}, expect=("paths",)),
    ] + [Case(f"sizes-{w}", sizes, dict(what=w), expect=("sizes", "large")) for w in ("points", "boxes", "circle", "text", "paths")]
