"""draw_boxes draws every box from its first to its second point, with its title."""
from ..runner import Case
from ._many import fixed
from ._draw import Canvas, is_cut, options, same_call, same_color, world
from .c36 import text_ok

BOUNDS = "up to 2 boxes: detections, tracked objects and drawables, symbolic coordinates (reals, or integers), scores, frame sizes 1..5000, thickness; every combination of the drawing options; cv2 is a stand-in that records the calls and refuses what OpenCV refuses; and larger: many objects, a few of them symbolic"
OUTSIDE = "rasterisation by OpenCV; where exactly a title goes (within the thickness of box and text + 3 pixels of the first corner)"

BIG = 10 ** 5  # wider than any integer type of 16 bits


def boxes_of(env, kind, n, integer=False, falsy=False, pts=2):
    nf = env.nf
    out, dets = [], []
    for i in range(n):
        mk = (lambda s: env.int(s, -100, BIG)) if integer else (lambda s: env.real(s, -100, BIG))
        free = n < 4 or i == n - 1  # of many only the last one is symbolic
        mk = mk if free else lambda s: fixed(s, -100, 5000)
        p = [[mk(f"p{i}_{j}_{k}") for k in range(2)] for j in range(pts)]
        a = env.np.array(p, dtype=int if integer else float)
        label = 0 if falsy else f"label{i}" if i % 2 == 0 else None
        s = [env.dyadic(f"s{i}_{j}", 0, 1, 64) if free else int(fixed(f"s{i}_{j}", 0, 64)) / 64 for j in range(pts)] if i % 2 == 0 else None
        sa = None if s is None else env.arr(s)
        if kind == "drawable":
            D = env.mod("norfair.drawing.drawer").Drawable
            id_ = 0 if falsy else 7 + i if i % 2 == 0 else None
            out.append((D(points=a, id=id_, label=label, scores=sa), p, id_, label, s))
        elif kind == "detection":
            out.append((nf.Detection(a, scores=sa, label=label), p, None, label, s))
        else:
            dets.append((nf.Detection(a, label=label), p))
    if kind == "tracked":
        t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=4, initialization_delay=0, filter_factory=nf.NoFilterFactory())
        out = [(o, d[1], o.id, o.label, None) for o, d in zip(t.update([d[0] for d in dets]), dets)]
    return out


def boxes(env, kind, n, color="by_id", flags=None, sizes=False, integer=False, falsy=False, pts=2):
    cv = world(env)
    nf = env.nf
    opts = {k: (flags[k] if flags and k in flags else env.split(env.bool(k))) for k in ("draw_labels", "draw_ids", "draw_box", "draw_scores")}
    objs = boxes_of(env, kind, n, integer, falsy, pts)
    frame = Canvas(env.int("height", 1, 5000), env.int("width", 1, 5000))
    kw = dict(opts)
    carg, cfun = options(env, color)
    kw["color"] = carg
    if sizes:
        kw.update(thickness=env.int("thickness", 1, 20), text_size=env.real("text_size", 0.1, 5), text_thickness=env.int("text_thickness", 1, 9), text_color=env.choice("text color", [None, "blue"]))
    r = nf.draw_boxes(frame, [o[0] for o in objs], **kw)
    env.check(r is frame, "the frame is returned")
    calls = list(cv.calls)
    env.check(all(c[0] is frame for c in calls), "only this frame is drawn on")
    palette = [nf.Palette.choose_color(i) for i in range(10)]
    for obj, p, id_, label, scores in objs:
        if opts["draw_box"]:
            env.check(bool(calls) and calls[0][1] == "rectangle", "a rectangle for every box")
            c = calls.pop(0)
            for k in range(2):
                env.check(env.And(is_cut(env, c[2][k], p[0][k]), is_cut(env, c[3][k], p[1][k])), "from the first point to the second")
            if cfun is not None:
                env.check(same_color(env, c[4], cfun(id_, label)), "in the colour of the object")
            else:
                env.check(env.Or(*[same_color(env, c[4], x) for x in palette]), "in a colour of the palette")
            if sizes:
                env.check(c[5] == kw["thickness"], "with the thickness given")
            env.reach("box")
        parts = [opts["draw_labels"] and label is not None, opts["draw_ids"] and id_ is not None, opts["draw_scores"] and scores is not None]
        t = []
        while calls and calls[0][1] == "text" and len(t) < 2 and (any(parts) or calls[0][3] == ""):
            t.append(calls.pop(0))
        if any(parts):
            env.check(len(t) == 2 and t[0][3] == t[1][3], "the title and its shadow")
            text_ok(env, t[1][3], label, id_, scores, opts)
            if sizes and kw["text_color"]:
                env.check(same_color(env, t[-1][5], (255, 0, 0)), "in the text colour")
            elif cfun is not None:
                env.check(same_color(env, t[-1][5], cfun(id_, label)), "in the colour of the object")
            if sizes:
                env.check(env.And(t[-1][4] == kw["text_size"], t[-1][6] == kw["text_thickness"]), "with the size and thickness given")
            slack = (kw["thickness"] if sizes else 10) + t[-1][6] + 3
            for k in range(2):
                env.check(env.And(t[-1][2][k] - p[0][k] <= slack, p[0][k] - t[-1][2][k] <= slack), "at the first corner")
            env.reach("title")
        else:
            env.reach("no title")
    env.check(not calls, "nothing else is drawn")
    for o in objs:
        env.check_all_close(o[0].estimate if kind == "tracked" else o[0].points, o[1], "the objects are left alone")
    env.observe("drawn", [list(c[2]) + list(c[3]) for c in cv.calls if c[1] == "rectangle"])


def random_color(env):
    """the deprecated flag"""
    cv = world(env)
    P = env.nf.Palette
    objs = [o[0] for o in boxes_of(env, "tracked", 2)]
    env.nf.draw_boxes(Canvas(480, 640), objs, random_color=True, color=(1, 2, 3), draw_ids=False)
    env.check(len(cv.calls) == 2, "two boxes")
    palette = [P.choose_color(i) for i in range(10)]
    for c in cv.calls:
        env.check(env.Or(*[same_color(env, c[4], x) for x in palette]), "in a colour of the palette")
    env.reach("random")


def nothing(env):
    cv = world(env)
    frame = Canvas(100, 100)
    for a in ((), (None,), ([],)):
        env.check(env.nf.draw_boxes(frame, *a) is frame, "without anything to draw the frame is returned")
    env.check(not cv.calls, "and nothing is drawn")
    env.reach("nothing")


def deprecated(env, which):
    cv = world(env)
    nf = env.nf
    objs = [o[0] for o in boxes_of(env, "tracked" if which in ("tracked_boxes", "defaults") else "detection", 2)]
    size = env.int("size", 1, 9)
    c = tuple(env.int(f"c{k}", 0, 255) for k in range(3))
    f = lambda: Canvas(480, 640)
    kw = dict(draw_labels=True)
    by = which != "color_by_label" or env.split(env.bool("by label"))
    if which == "defaults":
        kw = {}
    old, new = {
        "detections": (dict(detections=objs), dict(drawables=objs)),
        "color_by_label": (dict(drawables=objs, color_by_label=by, color=c), dict(drawables=objs, color="by_label" if by else c)),
        "random_color": (dict(drawables=objs, random_color=False, color=c), dict(drawables=objs, color=c)),
        "defaults": (dict(drawables=objs), dict(drawables=objs, draw_labels=False, color="by_id", draw_ids=True, draw_box=True, draw_scores=False, text_size=None, text_thickness=None, thickness=None, text_color=None)),
        "line_color": (dict(drawables=objs, line_color=c), dict(drawables=objs, color=c)),
        "line_width": (dict(drawables=objs, line_width=size), dict(drawables=objs, thickness=size)),
        "label_size": (dict(drawables=objs, label_size=size), dict(drawables=objs, text_size=size)),
        "tracked_boxes": (None, None),
    }[which]
    if which == "tracked_boxes":
        lab = env.split(env.bool("labels"))
        idsize = env.choice("id_size", [None, 0, 2])
        lsize = env.choice("label_size", [None, 3])
        by = env.split(env.bool("by label"))
        box = env.split(env.bool("box"))
        if env.split(env.bool("as it is")):
            nf.draw_tracked_boxes(f(), objs)
            n = len(cv.calls)
            nf.draw_boxes(f(), objs, draw_ids=False, draw_labels=False, color="by_id")
            env.check(n == 2 == len(cv.calls) - n, "boxes only by default")
            for x, y in zip(cv.calls[:n], cv.calls[n:]):
                env.check(same_call(env, x, y), "in the colours of the objects")
            env.reach("same")
            return
        nf.draw_tracked_boxes(f(), objs, border_colors=c, border_width=size, id_size=idsize, id_thickness=2, draw_box=box, color_by_label=by, draw_labels=lab, label_size=lsize)
        n = len(cv.calls)
        nf.draw_boxes(f(), objs, color="by_label" if by else c, thickness=size, draw_labels=lab, draw_ids=bool(idsize), draw_box=box, text_size=lsize or idsize, text_thickness=2)
    else:
        nf.draw_boxes(f(), **old, **kw)
        n = len(cv.calls)
        nf.draw_boxes(f(), **new, **kw)
        env.check(n > 0, "something is drawn")
    a, b = cv.calls[:n], cv.calls[n:]
    env.check(len(a) == len(b), "the deprecated spelling draws as much")
    for x, y in zip(a, b):
        env.check(same_call(env, x, y), "and the same")
    env.reach("same")


def cases(tier):
    q = tier == "quick"
    e = ("box", "title", "no title")
    cs = []
    for kind in ("detection", "tracked", "drawable"):
        cs.append(Case(f"{kind}-options", boxes, dict(kind=kind, n=2), expect=e))
        cs.append(Case(f"{kind}-sizes", boxes, dict(kind=kind, n=1, sizes=True, flags=dict(draw_scores=True)), expect=e[:1]))
    for c in ("tuple", "hex", "name", "by_label", "none", "random"):
        cs.append(Case(f"color-{c}", boxes, dict(kind="drawable", n=2, color=c, flags=dict(draw_scores=True, draw_labels=True)), expect=("box", "title")))
    cs.append(Case("tracked-by-label", boxes, dict(kind="tracked", n=2, color="by_label", flags=dict(draw_scores=True, draw_labels=True)), expect=("box", "title")))
    for kind in ("detection", "tracked", "drawable"):
        cs.append(Case(f"{kind}-three-points", boxes, dict(kind=kind, n=1, pts=3, flags=dict(draw_labels=True, draw_box=True)), expect=("box", "title")))
    cs.append(Case("zero-label", boxes, dict(kind="drawable", n=1, falsy=True, color="by_label"), expect=e))
    for kind in ("detection", "tracked", "drawable"):
        cs.append(Case(f"{kind}-many", boxes, dict(kind=kind, n=13 if q else 40, flags=dict(draw_labels=True, draw_box=True)), expect=("box", "title")))
    cs.append(Case("integers", boxes, dict(kind="detection", n=1, integer=True), expect=e))
    cs.append(Case("random-flag", random_color, {}, expect=("random",)))
    cs.append(Case("nothing", nothing, {}, expect=("nothing",)))
    for w in ("detections", "color_by_label", "line_color", "line_width", "label_size", "tracked_boxes", "random_color", "defaults"):
        cs.append(Case(f"deprecated-{w}", deprecated, dict(which=w), expect=("same",)))
    if not q:
        cs.append(Case("three", boxes, dict(kind="drawable", n=3, sizes=True), expect=e))
        cs.append(Case("three-tracked", boxes, dict(kind="tracked", n=3), expect=e))
    return cs
