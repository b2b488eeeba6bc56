"""Tracking under a moving camera is tracking in the absolute frame: the camera changes only where things are shown."""
from ..runner import Case
from .c11 import factory

BOUNDS = "up to 2 objects, 2 points and 3 frames, symbolic positions, threshold and one symbolic camera translation per frame, frames with and without detections, all three filters, with and without ReID"
OUTSIDE = "float rounding (exact reals); homographies inside the tracker (C29 decides the transformation itself)"
BUSY = "all"


def _movements(env, frames):
    return [[env.real(f"m{f}_{k}", -1000, 1000) for k in range(2)] for f in range(frames)]


def _compare(env, a, b, m, what=""):
    for x, y in zip(a, b):
        env.check(x.last_detection.data == y.last_detection.data, "the same matches" + what)
        env.check(x.hit_counter == y.hit_counter, "the same counters" + what)
        env.check(x.age == y.age, "the same age" + what)
        env.check_all_close(y.get_estimate(absolute=True), x.estimate, "absolute estimate = what a still camera would give" + what)
        env.check_all_close(y.estimate, [[v + s for v, s in zip(row, m)] for row in x.estimate], "relative estimate = absolute moved by the latest movement" + what)
        env.check_all_close(y.get_estimate(), y.estimate, "get_estimate() is relative" + what)
        env.check_all_close(y.estimate_velocity, x.estimate_velocity, "velocity is absolute" + what)
        for u, v in zip(env.flat(y.live_points), env.flat(x.live_points)):
            env.check(env.Iff(u, v), "the same live points" + what)


def camera(env, dist, kind, plan, pts=1, reid=False, delay=0, points_given="rel", hmax=4):
    """plan: number of detections per frame (None: update() without detections)"""
    nf = env.nf
    C = env.mod("norfair.camera_motion")
    T = env.dyadic("threshold", 0, 32)
    fn = dist
    if dist == "user":
        fn = lambda d, o: abs(d.points[0][0] - o.estimate[0][0])
    elif dist == "user-absolute":
        fn = lambda d, o: abs(d.absolute_points[0][0] - (o.get_estimate(absolute=True) if moving[0] else o.estimate)[0][0])
    moving = [False]
    kw = dict(distance_threshold=T, hit_counter_max=hmax, initialization_delay=delay, filter_factory=factory(env, kind))
    if reid:
        kw.update(reid_distance_function=lambda a, b: abs(a.last_detection.data - b.last_detection.data) * 0, reid_distance_threshold=1, reid_hit_counter_max=5 if hmax == 4 else 9)
    ts = [nf.Tracker(fn, **kw) for _ in range(2)]
    ms = _movements(env, len(plan))
    for f, nd in enumerate(plan):
        co = [[[env.real(f"c{f}_{i}_{p}_{k}", -16, 16) for k in range(2)] for p in range(pts)] for i in range(nd or 0)]
        tr = C.TranslationTransformation(env.arr(ms[f]))
        moving[0] = False
        still = ts[0].update([nf.Detection(env.arr(c), data=f * 10 + i) for i, c in enumerate(co)] if nd is not None else None)
        moving[0] = True
        ds = [nf.Detection(env.arr([[x + s for x, s in zip(row, ms[f])] for row in c]), data=f * 10 + i) for i, c in enumerate(co)]
        moved = ts[1].update(ds if nd is not None else None, coord_transformations=tr)
        env.check([o.id for o in still] == [o.id for o in moved], "the same ids")
        _compare(env, still, moved, ms[f])
        a, b = ts[0].tracked_objects, ts[1].tracked_objects
        env.check([o.id for o in a] == [o.id for o in b], "the same objects held")
        _compare(env, a, b, ms[f], " (all objects)")
        for d, c in zip(ds, co):
            env.check_all_close(d.absolute_points, c, "absolute points of a detection")
            env.check_all_close(d.points, [[x + s for x, s in zip(row, ms[f])] for row in c], "its own points are left alone")
        if f and nd and any(o.last_detection.data >= 10 and o.age for o in a):
            env.reach("matched")
        if f and any(o.last_detection.data < 10 for o in a):
            env.reach("unmatched")
    env.check(ts[0].total_object_count == ts[1].total_object_count, "the same number of objects counted")
    env.observe("abs", [o.get_estimate(absolute=True) for o in b])


def homography(env):
    """a homography per frame: absolute points of the detections, estimates shown in the current frame"""
    nf = env.nf
    C = env.mod("norfair.camera_motion")
    env.split_ite()
    s = [1.0, 2.0]
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=4, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    for f in range(2):
        h = [[s[f], 0.0, env.real(f"tx{f}", -10, 10)], [0.0, s[f], env.real(f"ty{f}", -10, 10)], [0.0, 0.0, 1.0]]
        p = [[env.real(f"p{f}_{k}", -100, 100) for k in range(2)]]
        out = t.update([nf.Detection(env.arr(p))], coord_transformations=C.HomographyTransformation(env.arr(h)))
        want = [[(x - h[k][2]) / s[f] for k, x in enumerate(p[0])]]
        env.check(len(out) == 1, "one object")
        env.check_all_close(out[0].get_estimate(absolute=True), want, "absolute position")
        env.check_all_close(out[0].estimate, p, "shown where it was detected")
    keep = out[0].get_estimate(absolute=True)
    h = [[4.0, 0.0, env.real("tx9", -10, 10)], [0.0, 4.0, 3.0], [0.0, 0.0, 1.0]]
    out = t.update(None, coord_transformations=C.HomographyTransformation(env.arr(h)))
    env.check_all_close(out[0].estimate, [[4 * keep[0, 0] + h[0][2], 4 * keep[0, 1] + 3]], "an unseen object follows the camera")
    env.reach("homography")


def shared(env, order):
    """the same Detection objects handed to two trackers, or to one tracker after the other"""
    nf = env.nf
    C = env.mod("norfair.camera_motion")
    m = _movements(env, 2)
    p = [[env.real(f"p{k}", -100, 100) for k in range(2)]]
    d = nf.Detection(env.arr(p))
    ts = [nf.Tracker("euclidean", distance_threshold=1, hit_counter_max=4, initialization_delay=0) for _ in range(2)]
    ms = [m[0], m[0] if order == "same" else m[1]]
    for t, v in zip(ts, ms):
        o = t.update([d], coord_transformations=C.TranslationTransformation(env.arr(v)))[0]
        env.check_all_close(o.get_estimate(absolute=True), [[x - y for x, y in zip(p[0], v)]], "absolute position follows from the points and the transformation given now")
        env.check_all_close(o.estimate, p, "shown where it was detected")
    env.reach("shared")


def without(env):
    """absolute coordinates need a transformation"""
    nf = env.nf
    p = [[env.real(f"p{k}", -100, 100) for k in range(2)]]
    t = nf.Tracker("euclidean", distance_threshold=1, hit_counter_max=4, initialization_delay=0)
    o = t.update([nf.Detection(env.arr(p))])[0]
    env.check_all_close(o.get_estimate(absolute=False), p, "relative estimate")
    _, e = env.trial(o.get_estimate, absolute=True)
    env.check(type(e) is ValueError, "ValueError without a transformation")
    env.reach("refused")


def cases(tier):
    q = tier == "quick"
    e = ("matched", "unmatched")
    cs = []
    for d in ("mean_manhattan", "user", "user-absolute"):
        cs.append(Case(f"{d}-optimized", camera, dict(dist=d, kind="optimized", plan=[1, 1]), expect=e))
    for k in ("filterpy", "none"):
        cs.append(Case(f"user-{k}", camera, dict(dist="user", kind=k, plan=[1, 1]), expect=e))
    cs.append(Case("two-points", camera, dict(dist="user", kind="optimized", plan=[1, 1], pts=2), expect=e))
    cs.append(Case("gap", camera, dict(dist="user", kind="optimized", plan=[1, None, 1]), expect=e))
    cs.append(Case("first-empty", camera, dict(dist="user", kind="none", plan=[None, 1, 0, 1])))
    cs.append(Case("tentative", camera, dict(dist="user", kind="none", plan=[1, 1, 1], delay=3), expect=e))
    cs.append(Case("two-objects", camera, dict(dist="user", kind="none", plan=[2, 2]), expect=e))
    cs.append(Case("reid", camera, dict(dist="user", kind="none", plan=[1, 0, 1, 1, 1], delay=1, reid=True)))
    cs.append(Case("reid-late", camera, dict(dist="user", kind="none", plan=[1, 1, None, None, None, None, 1, 1, 1], delay=1, reid=True, hmax=2)))
    cs.append(Case("homography", homography, {}, expect=("homography",)))
    for o in ("same", "different"):
        cs.append(Case(f"shared-{o}", shared, dict(order=o), expect=("shared",)))
    cs.append(Case("without", without, {}, expect=("refused",)))
    if not q:
        cs.append(Case("three-frames", camera, dict(dist="mean_manhattan", kind="optimized", plan=[1, 1, 1]), expect=e))
        cs.append(Case("two-objects-three", camera, dict(dist="user", kind="optimized", plan=[2, 1, 2]), expect=e))
    return cs
