"""Parameters that are left out have the values their signatures and the documentation say."""
import types

from ..runner import Case
from ._draw import Canvas, same_call, world
from ._many import some
from .c32 import CV as HomographyCV
from .c40 import Blend, Pixels

BOUNDS = ("trackers: histories of up to 24 frames of one object of two points (symbolic coordinates in three frames, symbolic scores in two, symbolic number of hits) and of ReID candidates with symbolic ReID "
          "distances; filters: 3 cycles of symbolic measurements; every subset of the parameters of a filter factory or getter left out; drawing options: every subset left out")
OUTSIDE = "float rounding (exact reals); sizes that are picked from the frame (C50); the parameters of MotionEstimator (C33), FixedCamera (C38) and of the video and metrics classes (C42-C48)"

TRACKER = dict(hit_counter_max=15, initialization_delay=7, pointwise_hit_counter_max=4, detection_threshold=0, past_detections_length=4,
               reid_distance_function=None, reid_distance_threshold=0, reid_hit_counter_max=None)
FILTERS = {
    "OptimizedKalmanFilterFactory": dict(R=4.0, Q=0.1, pos_variance=10, pos_vel_covariance=0, vel_variance=1),
    "FilterPyKalmanFilterFactory": dict(R=4.0, Q=0.1, P=10.0),
}


def without(env, full):
    """some of the parameters, given with their published values; or none"""
    left = env.choice("given", ["nothing", "all but one", "one"])
    if left == "nothing":
        return {}
    one = env.choice("which", sorted(full))
    return {one: full[one]} if left == "one" else {k: v for k, v in full.items() if k != one}


def same(env, ts, what=""):
    a, b = ts
    env.check(len(a.tracked_objects) == len(b.tracked_objects), "as many objects" + what)
    for x, y in zip(a.tracked_objects, b.tracked_objects):
        env.check((x.id, x.hit_counter, x.age) == (y.id, y.hit_counter, y.age), "the same counters" + what)
        env.check([bool(v) for v in x.live_points] == [bool(v) for v in y.live_points], "the same live points" + what)
        env.check([(p.data, p.age) for p in x.past_detections] == [(p.data, p.age) for p in y.past_detections], "the same memories" + what)
        env.check_all_close(x.estimate, y.estimate, "the same estimates" + what)
        env.check_all_close(x.estimate_velocity, y.estimate_velocity, "the same velocities" + what)


def tracker(env, hits, misses):
    nf = env.nf
    full = dict(TRACKER, filter_factory=nf.OptimizedKalmanFilterFactory(**FILTERS["OptimizedKalmanFilterFactory"]))
    ts = [nf.Tracker(lambda d, o: 0.0, distance_threshold=1, **kw) for kw in (without(env, full), full)]
    for f in range(hits):
        c = [[some(env, f in (0, 1, hits - 1), f"c{f}_{p}_{k}", -50, 50) for k in range(2)] for p in range(2)]
        s = [some(env, f in (0, hits - 1) and not p, f"s{f}_{p}", -1, 1) for p in range(2)]
        outs = [t.update([nf.Detection(env.arr(c), data=f, scores=env.arr(s))]) for t in ts]
        env.check([o.id for o in outs[0]] == [o.id for o in outs[1]], "the same objects visible")
        same(env, ts)
        env.reach("visible" if outs[0] else "hidden")
    for f in range(misses):
        outs = [t.update() for t in ts]
        env.check([o.id for o in outs[0]] == [o.id for o in outs[1]], "the same objects visible (without detections)")
        same(env, ts, " (without detections)")
    if not ts[1].tracked_objects:
        env.reach("gone")
    env.observe("n", len(ts[1].tracked_objects))


def reid(env, given):
    """a ReID distance, but neither threshold nor window; or one of them"""
    nf = env.nf
    r = env.dyadic("reid", -2, 2)
    kw = dict(hit_counter_max=2, initialization_delay=1, reid_distance_function=lambda n, o: r)
    if given == "window":
        kw["reid_hit_counter_max"] = 4
    if given == "threshold":
        kw["reid_distance_threshold"] = 1
    ts = [nf.Tracker(lambda d, o: 0.0 if d.data[0] == o.last_detection.data[0] else 9.0, distance_threshold=1, **k) for k in
          (kw, dict(dict(reid_distance_threshold=0, reid_hit_counter_max=None), **kw))]
    for f, d in enumerate(["A0", "A1", "A2", None, None, None, "B6", "B7", "B8", None, None, None, None, None]):
        outs = [t.update([nf.Detection(env.arr([[1.0, 2.0 * f]]), data=d)] if d else None) for t in ts]
        env.check([o.id for o in outs[0]] == [o.id for o in outs[1]], "the same objects visible")
        same(env, ts)
        if f == 7:
            env.reach("the same one" if [o.id for o in outs[1]] == [1] else "another one")


def detection(env):
    nf = env.nf
    c = [[env.real(f"c{p}_{k}", -50, 50) for k in range(2)] for p in range(2)]
    a, b = nf.Detection(env.arr(c)), nf.Detection(env.arr(c), scores=None, data=None, label=None, embedding=None)
    for n in ("scores", "data", "label", "embedding"):
        env.check(getattr(a, n) is None and getattr(b, n) is None, "nothing unless given")
    ts = [nf.Tracker(lambda d, o: 0.0, distance_threshold=1, initialization_delay=0, detection_threshold=5) for _ in range(2)]
    outs = [t.update([d]) for t, d in zip(ts, (a, b))]
    same(env, ts)
    env.check(all(bool(v) for v in outs[0][0].live_points), "points without scores count")
    p = [nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=6) for _ in range(2)]
    for f in range(3):
        p[0].update([nf.Detection(env.arr(c), data=f)])
        p[1].update(detections=[nf.Detection(env.arr(c), data=f)], period=1, coord_transformations=None)
        same(env, p, " (one frame since the last update)")
    env.check_all_close(outs[0][0].get_estimate(), outs[0][0].get_estimate(absolute=False), "relative estimates unless asked for")
    env.reach("plain")


def filters(env, name, steps):
    nf = env.nf
    full = FILTERS[name]
    init = [[env.real(f"i{p}_{k}", -100, 100) for k in range(2)] for p in range(2)]
    fs = [getattr(nf, name)(**kw).create_filter(env.arr(init)) for kw in (without(env, full), full)]
    for s in range(steps):
        z = [[env.real(f"z{s}_{k}", -100, 100)] for k in range(4)]
        for f in fs:
            f.predict()
            f.update(env.arr(z))
        env.check_all_close(fs[0].x, fs[1].x, "the same estimates")
    env.reach("filter")
    env.observe("x", fs[0].x)


def translation(env):
    C = env.mod("norfair.camera_motion")
    full = dict(bin_size=0.2, proportion_points_used_threshold=0.9)
    gs = [C.TranslationTransformationGetter(**kw) for kw in (without(env, full), full)]
    n = 10
    k = env.int("other", 0, 4)
    for c in range(2):
        prev = [[some(env, i == 0, f"p{c}_{i}_{j}", -100, 100) for j in range(2)] for i in range(n)]
        e = [env.dyadic(f"e{c}{i}", -0.125, 0.125, 32) for i in range(2)]
        m = [[3.0 + e[i == n - 1], 1.0] if not bool(k > i) else [5.0, 2.0] for i in range(n)]
        curr = [[x + y for x, y in zip(p, v)] for p, v in zip(prev, m)]
        (u, t), (v, w) = [g(env.arr(curr), env.arr(prev)) for g in gs]
        env.check(env.Iff(u, v), "the reference is replaced at the same frames")
        env.check_all_close(t.movement_vector, w.movement_vector, "the same movement")
        env.reach("replaced" if env.split(u) else "kept")


def homography(env):
    cv = HomographyCV()
    env.fresh_world(modules={"cv2": cv.module})
    C = env.mod("norfair.camera_motion")
    full = dict(method=8, ransac_reproj_threshold=3, max_iters=2000, confidence=0.995, proportion_points_used_threshold=0.9)
    n = 10
    inl = [True] * 6 + [env.bool(f"inlier{i}") for i in range(4)]
    got = []
    for kw in (without(env, full), full):
        g = C.HomographyTransformationGetter(**kw)
        cv.answers = [(env.arr([[1.0, 0.0, 2.0], [0.0, 1.0, 3.0], [0.0, 0.0, 1.0]]), env.np.array([[env.Ite(b, 1, 0)] for b in inl], dtype=env.np.uint8))]
        pts = env.arr([[1.0 * i, 2.0 + i * i] for i in range(n)])
        got.append(g(pts, pts)[0])
    a, b = [c[2:] for c in cv.calls]
    env.check(a == b, "OpenCV is asked for the same")
    env.check(env.Iff(got[0], got[1]), "the reference is replaced at the same frames")
    env.reach("replaced" if env.split(got[1]) else "kept")


OPTIONS = {
    "draw_points": dict(radius=None, thickness=None, color="by_id", draw_labels=True, text_size=None, draw_ids=True, draw_points=True, text_thickness=None, text_color=None, hide_dead_points=True, draw_scores=False),
    "draw_boxes": dict(color="by_id", thickness=None, draw_labels=False, text_size=None, draw_ids=True, text_color=None, text_thickness=None, draw_box=True, draw_scores=False),
    "draw_absolute_grid": dict(grid_size=20, radius=2, thickness=1, color=(0, 0, 0), polar=False),
}


def drawing(env, which):
    cv = world(env)
    nf = env.nf
    full = OPTIONS[which]
    kw = without(env, full)
    D = env.mod("norfair.drawing.drawer").Drawable
    h, w = (env.int("h", 1, 5000), env.int("w", 1, 5000)) if which != "draw_absolute_grid" else (12, 16)
    pts = [[env.real(f"p{i}_{k}", -100, 100) for k in range(2)] for i in range(2)]
    live = [env.split(env.bool(f"live{i}")) for i in range(2)]
    marks = []
    for k in (kw, full):
        if which == "draw_absolute_grid":
            nf.draw_absolute_grid(Canvas(h, w), None, **k)
        else:
            getattr(nf, which)(Canvas(h, w), [D(points=env.arr(pts), id=3, label="a", scores=env.arr([0.5, 0.25]), live_points=env.np.array(live, dtype=bool))], **k)
        marks.append(len(cv.calls))
    a, b = cv.calls[:marks[0]], cv.calls[marks[0]:]
    env.check(len(a) == len(b), "as much is drawn")
    for x, y in zip(a, b):
        env.check(same_call(env, x, y), "the same is drawn")
    env.reach("drawn" if a else "nothing")


def paths(env):
    cv = Pixels(env)
    cv.module.addWeighted = cv.blend
    env.fresh_world(modules={"cv2": cv.module})
    nf = env.nf
    P = [nf.Paths(), nf.Paths(attenuation=0.01, thickness=None, radius=None, color=None, get_points_to_draw=None)]
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=4, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    for f in range(3):
        px = [[env.int(f"px{f}_{y}_{x}", 0, 255) for x in range(2)] for y in range(2)]
        objs = t.update([nf.Detection(env.arr([[env.int(f"p{f}_{k}", 0, 2) for k in range(2)]]))])
        outs = [p.draw(env.np.array([[[v, 0, 255] for v in row] for row in px], dtype=env.np.uint8), objs) for p in P]
        env.check_all_close(*[[o[i] for i in [(y, x, k) for y in range(2) for x in range(2) for k in range(3)]] for o in outs], "the same pictures")
    env.reach("paths")


def absolute(env, frames):
    cv = Blend()
    cv.blends = []
    cv.module.addWeighted = cv.blend
    env.fresh_world(modules={"cv2": cv.module})
    nf = env.nf
    P = [nf.AbsolutePaths(), nf.AbsolutePaths(max_history=20, thickness=None, radius=None, color=None, get_points_to_draw=None)]
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=4, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    ident = env.mod("norfair.camera_motion").TranslationTransformation(env.arr([0.0, 0.0]))
    for f in range(frames):
        objs = t.update([nf.Detection(env.arr([[some(env, f == 1, f"p{f}_{k}", 0, 100) for k in range(2)]]))], coord_transformations=ident)
        marks = [len(cv.calls)]
        for p in P:
            p.draw(Canvas(480, 640), objs, coord_transform=ident)
            marks.append(len(cv.calls))
        a, b = cv.calls[marks[0]:marks[1]], cv.calls[marks[1]:]
        env.check(len(a) == len(b), "as much is drawn")
        for x, y in zip(a, b):
            env.check(same_call(env, x, y), "the same is drawn")
    env.reach("paths")


def cases(tier):
    q = tier == "quick"
    cs = [Case(f"tracker-{h}-{m}", tracker, dict(hits=h, misses=m), expect=e) for h, m, e in
          [(18, 19, ("hidden", "visible", "gone")), (3, 6, ("hidden",)), (9, 14, ("hidden", "visible", "gone"))]]
    cs += [Case(f"reid-{g}", reid, dict(given=g), expect=("another one",) + (("the same one",) if g == "window" else ())) for g in ("nothing", "window", "threshold")]
    cs.append(Case("detection", detection, {}, expect=("plain",)))
    cs += [Case(n, filters, dict(name=n, steps=2 if q else 3), expect=("filter",)) for n in FILTERS]
    cs.append(Case("translation", translation, {}, expect=("replaced", "kept")))
    cs.append(Case("homography", homography, {}, expect=("replaced", "kept")))
    cs += [Case(n, drawing, dict(which=n), expect=("drawn",)) for n in OPTIONS]
    cs.append(Case("paths", paths, {}, expect=("paths",)))
    cs.append(Case("absolute-paths", absolute, dict(frames=24), expect=("paths",)))
    return cs
