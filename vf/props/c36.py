"""draw_points draws exactly the live points, where they are."""
from ..runner import Case
from ._many import fixed, some
from ._draw import Canvas, is_cut, options, same_call, same_color, world

BOUNDS = "up to 2 objects of up to 3 points: detections, tracked objects (made by a tracker from symbolic scores) and drawables, symbolic coordinates, live flags, scores, frame sizes 1..5000, radius, thickness; every combination of the drawing options; cv2 is a stand-in that records the calls and refuses what OpenCV refuses; and larger: many objects, a few of them symbolic"
OUTSIDE = "rasterisation by OpenCV; where exactly a title goes (within radius + thickness + 2 pixels of the centre of the points)"


def text_ok(env, text, label, id_, scores, opts):
    want = []
    if opts["draw_labels"] and label is not None:
        want.append(str(label))
    if opts["draw_ids"] and id_ is not None:
        want.append(str(id_))
    head = "-".join(want)
    if opts["draw_scores"] and scores is not None:
        pre = head + "-" if head else ""
        env.check(text.startswith(pre), "the title: label, id and score")
        v, e = env.trial(env.token_value, text[len(pre):])
        env.check(e is None, "the title: label, id and score only")
        m = sum(scores) / len(scores)
        env.check(env.And(v - m < 0.51e-4, m - v < 0.51e-4), "the mean score, to four digits")
        r = env.np.around(v, 4)
        env.check(env.And(v - r < 1e-9, r - v < 1e-9), "and no more than four digits")
        return True
    env.check(text == head, "the title: label and id")
    return bool(head)


def objects(env, kind, n, pts, falsy=False):
    """(thing to draw, points, live flags, id, label, scores)"""
    nf = env.nf
    out = []
    dets = []
    for i in range(n):
        free = lambda j: (n < 4 or i == n - 1) and (pts < 4 or j == pts - 1)  # of many only the last one is symbolic
        score = lambda j: env.dyadic(f"s{i}_{j}", 0, 1, 64) if free(j) else int(fixed(f"s{i}_{j}", 0, 64)) / 64
        p = [[some(env, free(j), f"p{i}_{j}_{k}", -100, 10 ** 5) for k in range(2)] for j in range(pts)]
        label = 0 if falsy else f"label{i}" if i % 2 == 0 else None
        if kind == "detection":
            s = [score(j) for j in range(pts)] if i % 2 == 0 else None
            out.append((nf.Detection(env.arr(p), scores=None if s is None else env.arr(s), label=label), p, [True] * pts, None, label, s))
        elif kind == "drawable":
            live = [env.split(env.bool(f"live{i}_{j}")) if free(j) else (i + j) % 3 > 0 for j in range(pts)]
            s = [score(j) for j in range(pts)] if i % 2 else None
            name = 0 if falsy else 10 + i if i % 2 == 0 else None
            D = env.mod("norfair.drawing.drawer").Drawable
            out.append((D(points=env.arr(p), id=name, label=label, scores=None if s is None else env.arr(s), live_points=env.np.array(live, dtype=bool)), p, live, name, label, s))
        else:
            sc = [score(j) for j in range(pts)]
            dets.append((nf.Detection(env.arr(p), scores=env.arr(sc), label=label), p, sc))
    if kind == "tracked":
        t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=4, initialization_delay=0, detection_threshold=0.5, filter_factory=nf.NoFilterFactory())
        for i, o in enumerate(t.update([d[0] for d in dets])):
            live = [env.split(x > 0.5) for x in dets[i][2]]
            out.append((o, dets[i][1], live, o.id, o.label, None))
    return out


def points(env, kind, n, pts, color="by_id", flags=None, sizes=False, falsy=False):
    cv = world(env)
    nf = env.nf
    opts = {k: (flags[k] if flags and k in flags else env.split(env.bool(k))) for k in ("draw_labels", "draw_ids", "draw_points", "hide_dead_points", "draw_scores")}
    objs = objects(env, kind, n, pts, falsy)
    frame = Canvas(env.int("height", 1, 5000), env.int("width", 1, 5000))
    kw = dict(opts)
    carg, cfun = options(env, color)
    if color != "default":
        kw["color"] = carg
    if sizes:
        kw.update(radius=env.int("radius", 0, 50), thickness=env.int("thickness", -1, 20), text_size=env.real("text_size", 0.1, 5), text_thickness=env.int("text_thickness", 1, 9))
        tc = env.choice("text color", [None, "blue"])
        kw["text_color"] = tc
    r = nf.draw_points(frame, [o[0] for o in objs], **kw)
    env.check(r is frame, "the frame is returned")
    calls = list(cv.calls)
    env.check(all(c[0] is frame for c in calls), "only this frame is drawn on")
    palette = [nf.Palette.choose_color(i) for i in range(10)]
    for obj, p, live, id_, label, scores in objs:
        shown = not opts["hide_dead_points"] or any(live)
        if shown and opts["draw_points"]:
            for q, l in zip(p, live):
                if l or not opts["hide_dead_points"]:
                    env.check(bool(calls) and calls[0][1] == "circle", "a circle for every point to draw")
                    c = calls.pop(0)
                    env.check(env.And(is_cut(env, c[2][0], q[0]), is_cut(env, c[2][1], q[1])), "at the point")
                    if cfun is not None:
                        env.check(same_color(env, c[4], cfun(id_, label)), "in the colour of the object")
                    else:
                        env.check(env.Or(*[same_color(env, c[4], x) for x in palette]), "in a colour of the palette")
                    if sizes:
                        env.check(env.And(c[3] == kw["radius"], c[5] == kw["thickness"]), "with the radius and thickness given")
                    else:
                        env.check(env.And(c[3] >= 1, c[3] <= 10), "with a radius that suits the frame")
                    env.reach("circle")
        any_title = opts["draw_labels"] or opts["draw_ids"] or opts["draw_scores"]
        if not shown or not any_title:
            env.reach("no title")
            continue
        parts = [opts["draw_labels"] and label is not None, opts["draw_ids"] and id_ is not None, opts["draw_scores"] and scores is not None]
        t = []
        while calls and calls[0][1] == "text" and len(t) < 2 and (any(parts) or calls[0][3] == ""):
            t.append(calls.pop(0))
        if any(parts):
            env.check(len(t) == 2 and t[0][3] == t[1][3], "the title and its shadow")
            text_ok(env, t[1][3], label, id_, scores, opts)
            if sizes and kw["text_color"]:
                env.check(same_color(env, t[-1][5], (255, 0, 0)), "in the text colour")
            elif cfun is not None:
                env.check(same_color(env, t[-1][5], cfun(id_, label)), "in the colour of the object")
            if sizes:
                env.check(env.And(t[-1][4] == kw["text_size"], t[-1][6] == kw["text_thickness"]), "with the size and thickness given")
        if t:
            used = [q for q, l in zip(p, live) if l] if any(live) else p
            slack = (kw["radius"] if sizes else 10) + t[-1][6] + 2
            for k in range(2):
                m = sum(q[k] for q in used) / len(used)
                env.check(env.And(t[-1][2][k] - m <= slack, m - t[-1][2][k] <= slack), "near the centre of the live points")
            env.reach("title")
    env.check(not calls, "nothing else is drawn: no dead points, nothing about objects that are not drawn, no titles not asked for")
    for o in objs:
        if kind == "tracked":
            env.check_all_close(o[0].estimate, o[1], "the objects are left alone")
        else:
            env.check_all_close(o[0].points, o[1], "the objects are left alone")
    if not all(any(o[2]) for o in objs):
        env.reach("dead")
    env.observe("drawn", [list(c[2]) for c in cv.calls if c[1] == "circle"])


def nothing(env):
    cv = world(env)
    frame = Canvas(100, 100)
    for a in ((), (None,), ([],)):
        r = env.nf.draw_points(frame, *a)
        env.check(r is frame, "without anything to draw the frame is returned")
    env.check(not cv.calls, "and nothing is drawn")
    D = env.mod("norfair.drawing.drawer").Drawable
    for bad in (3, "x", env.arr([[1.0, 2.0]])):
        _, e = env.trial(D, bad)
        env.check(type(e) is ValueError, "other objects cannot be drawn")
    env.reach("nothing")


def same(env, pairs, kind, cv, n0):
    a, b = cv.calls[:n0], cv.calls[n0:]
    env.check(len(a) == len(b), "the deprecated spelling draws as much")
    for x, y in zip(a, b):
        env.check(same_call(env, x, y), "and the same")


def deprecated(env, which):
    cv = world(env)
    nf = env.nf
    objs = [o[0] for o in objects(env, "tracked" if which == "tracked_objects" else "drawable" if which == "defaults" else "detection", 2, 1)]
    size = env.int("size", 1, 9)
    f = lambda: Canvas(480, 640)
    if which == "detections":
        nf.draw_points(f(), detections=objs)
        n = len(cv.calls)
        nf.draw_points(f(), drawables=objs)
    elif which == "color_by_label":
        by = env.split(env.bool("by label"))
        nf.draw_points(f(), objs, color="red", color_by_label=by)
        n = len(cv.calls)
        nf.draw_points(f(), objs, color="by_label" if by else "red")
    elif which == "label_size":
        nf.draw_points(f(), objs, label_size=size)
        n = len(cv.calls)
        nf.draw_points(f(), objs, text_size=size)
    elif which == "defaults":
        nf.draw_points(f(), objs)
        n = len(cv.calls)
        nf.draw_points(f(), objs, color="by_id", draw_labels=True, draw_ids=True, draw_points=True, hide_dead_points=True, draw_scores=False, text_size=None, text_thickness=None, radius=None, thickness=None, text_color=None)
    else:
        lab = env.split(env.bool("labels"))
        idsize = env.choice("id_size", [None, 0, 2])
        lsize = env.choice("label_size", [None, 3])
        by = env.split(env.bool("by label"))
        pts = env.split(env.bool("points"))
        rad = size if env.split(env.bool("radius given")) else None
        nf.draw_tracked_objects(f(), objs, radius=rad, draw_points=pts, id_size=idsize, id_thickness=2, color_by_label=by, draw_labels=lab, label_size=lsize)
        n = len(cv.calls)
        if rad is None:  # any that suits the frame
            rs = {c[3] for c in cv.calls if c[1] == "circle"}
            env.check(all(r >= 1 for r in rs) and len(rs) <= 1, "a radius")
            rad = rs.pop() if rs else 2
        nf.draw_points(f(), objs, radius=rad, draw_points=pts, color="by_label" if by else "by_id", draw_labels=lab, draw_ids=idsize != 0, text_size=lsize or 1, text_thickness=2, hide_dead_points=True)
        if not lab and idsize == 0:  # no title at all
            env.check(all(c[1] == "circle" or c[3] == "" for c in cv.calls), "no titles")
    same(env, objs, None, cv, n)
    env.check(n > 0 or which in ("tracked_objects", "defaults"), "something is drawn")
    env.reach("same")


def cases(tier):
    q = tier == "quick"
    e = ("circle", "title", "no title")
    cs = []
    for kind in ("detection", "tracked", "drawable"):
        cs.append(Case(f"{kind}-options", points, dict(kind=kind, n=1, pts=2), expect=e + (("dead",) if kind != "detection" else ())))
        cs.append(Case(f"{kind}-sizes", points, dict(kind=kind, n=2 if kind != "drawable" or not q else 1, pts=1, sizes=True, flags=dict(draw_scores=False)), expect=e))
    for c in ("tuple", "hex", "name", "by_label", "none", "random"):
        cs.append(Case(f"color-{c}", points, dict(kind="drawable", n=2, pts=1, color=c, flags=dict(draw_scores=True, draw_points=True)), expect=("circle", "title")))
    for kind in ("detection", "tracked", "drawable"):
        cs.append(Case(f"{kind}-many", points, dict(kind=kind, n=13 if q else 40, pts=2, flags=dict(draw_labels=True, draw_points=True, hide_dead_points=True)), expect=("circle", "title")))
        cs.append(Case(f"{kind}-many-points", points, dict(kind=kind, n=1, pts=19 if q else 133, flags=dict(draw_labels=True, draw_points=True)), expect=("circle", "title")))
    cs.append(Case("three-points", points, dict(kind="drawable", n=1, pts=3, flags=dict(draw_labels=True)), expect=("circle", "title")))
    cs.append(Case("tracked-by-label", points, dict(kind="tracked", n=2, pts=1, color="by_label", flags=dict(draw_scores=False, draw_labels=True)), expect=("circle", "title")))
    cs.append(Case("zero-label", points, dict(kind="drawable", n=1, pts=1, falsy=True, color="by_label", flags=dict(hide_dead_points=False)), expect=("circle", "title")))
    cs.append(Case("nothing", nothing, {}, expect=("nothing",)))
    for w in ("detections", "color_by_label", "label_size", "tracked_objects", "defaults"):
        cs.append(Case(f"deprecated-{w}", deprecated, dict(which=w), expect=("same",)))
    if not q:
        cs.append(Case("two-drawables", points, dict(kind="drawable", n=2, pts=2), expect=e))
        cs.append(Case("two-tracked", points, dict(kind="tracked", n=2, pts=2, flags=dict(draw_scores=False)), expect=e))
    return cs
