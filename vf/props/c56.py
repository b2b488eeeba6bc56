"""Looking at objects changes nothing, and what was read earlier stays as it was."""
from ..runner import Case
from ._draw import Canvas
from ._twin import Named, state
from .c11 import factory
from .c40 import Blend

BOUNDS = ("histories of up to 4 (5 thorough) frames with up to 2 detections of symbolic presence, coordinates, scores and distances, with and without ReID and camera movements, all filters, told to two trackers; in any "
          "frame looks at the objects of one of them, in each of the ways there are, twice (in which frames is symbolic)")
OUTSIDE = "looking from other threads; attributes that are documented as internal"
BUSY = False

LOOKS = ["attributes", "estimates", "absolute", "counts", "printed", "points", "boxes", "paths", "distances", "matching"]


def look(env, which, t, out, camera, keep):
    nf = env.nf
    objs = t.tracked_objects
    if which == "all":
        for w in LOOKS:
            if w not in ("distances", "boxes", "paths"):
                look(env, w, t, out, camera, keep)
    elif which == "attributes":
        for o in objs:
            [getattr(o, a) for a in ("id", "global_id", "initializing_id", "age", "hit_counter", "label", "last_detection", "last_distance", "past_detections", "live_points", "is_initializing", "hit_counter_is_positive",
                                     "reid_hit_counter_is_positive", "estimate", "estimate_velocity")]
            list(o.live_points)
    elif which == "estimates":
        for o in objs:
            o.get_estimate(), o.get_estimate(False), o.estimate_velocity
    elif which == "absolute":
        for o in objs:
            env.trial(o.get_estimate, absolute=True)
            o.get_estimate()
    elif which == "counts":
        t.current_object_count, t.total_object_count
        t.get_active_objects().clear()
    elif which == "printed":
        nf.print_objects_as_table(objs)
        [repr(o) for o in objs]
        [str(o) for o in t.get_active_objects()]
    elif which == "points":
        nf.draw_points(Canvas(48, 64), objs, draw_labels=True, hide_dead_points=False)
        nf.draw_points(Canvas(48, 64), [o.last_detection for o in objs], draw_scores=True)
    elif which == "boxes":
        nf.draw_boxes(Canvas(48, 64), objs, draw_labels=True)
    elif which == "paths":
        tr = env.mod("norfair.camera_motion").TranslationTransformation(env.arr([1.0, 2.0]))
        if camera:
            keep[1].draw(Canvas(48, 64), objs, coord_transform=tr)
    elif which == "distances":
        D = env.mod("norfair.distances")
        if objs:
            d = nf.Detection(env.arr([[1.0, 2.0], [3.0, 4.0]]), label=objs[0].label)
            D.ScalarDistance(D.mean_manhattan).get_distances(objs, [d])
            D.ScipyDistance("cityblock").get_distances(objs, [d, d])
            D.VectorizedDistance(D.iou).get_distances(objs, [d])
    else:
        t.match_dets_and_objs(env.arr([[0.5, 0.25], [0.25, 2.0]]), 1)


def looks(env, kind, frames, n, reid=None, camera=False, scored=False, delay=0, only=None):
    cv = Blend()
    cv.blends = []
    cv.module.addWeighted = cv.blend
    env.fresh_world(modules={"cv2": cv.module})
    nf = env.nf
    N = Named(env)
    cfg = dict(hit_counter_max=2, initialization_delay=delay, past_detections_length=2, pointwise_hit_counter_max=2, reid=reid)
    a, b = [N.tracker(filter_factory=factory(env, kind), **cfg) for _ in range(2)]
    C = env.mod("norfair.camera_motion")
    keep = [nf.Paths(), nf.AbsolutePaths(max_history=3)]
    which = only or "all"
    olds = []
    for f in range(frames):
        outs, ds = [], None
        m = C.TranslationTransformation(env.arr([env.real(f"m{f}", -9, 9), 1.0])) if camera else None
        seen = [i for i in range(n) if env.split(env.bool(f"seen{f}{i}"))]
        for t in (a, b):
            # not symbolic where drawing would branch on it
            c = lambda i, p, k: env.real(f"c{f}{i}{p}{k}", -50, 50) if which not in ("distances", "boxes") else 7.0 * f + 5 * i + 3 * p + k + (10 if p else 0)
            ds = [nf.Detection(env.arr([[c(i, p, k) for k in range(2)] for p in range(2)]), data=f"x{i}f{f}", label=None,
                               scores=env.arr([1.0 if env.split(env.bool(f"over{f}{i}")) else -1.0, 1.0]) if scored else None) for i in seen]
            outs.append(t.update(ds, coord_transformations=m))
        env.check([o.id for o in outs[0]] == [o.id for o in outs[1]], "the same objects visible")
        env.check(state(a) == state(b), "the same objects and counters")
        env.check(a.total_object_count == b.total_object_count, "the same count")
        for x, y in zip(a.tracked_objects, b.tracked_objects):
            env.check_all_close(x.estimate, y.estimate, "the same estimates")
            env.check_all_close(x.estimate_velocity, y.estimate_velocity, "the same velocities")
            env.check((x.last_distance is None) == (y.last_distance is None), "the same last distances")
        if env.split(env.bool(f"look{f}")):
            for o in b.tracked_objects:
                e, v, l = o.estimate, o.estimate_velocity, o.live_points
                olds.append([(e, [list(r) for r in e]), (v, [list(r) for r in v]), (l, [bool(u) for u in l])])
            for _ in range(2):
                look(env, which, b, outs[1], camera, keep)
            if b.tracked_objects:
                env.reach("looked")
    for (e, ee), (v, vv), (l, ll) in olds:
        env.check_all_close(e, ee, "estimates read earlier stay as they were")
        env.check_all_close(v, vv, "velocities read earlier stay as they were")
        env.check([bool(u) for u in l] == ll, "live points read earlier stay as they were")
    env.observe("state", [x[:2] for x in state(b)])


def cases(tier):
    q = tier == "quick"
    e = ("looked",)
    cs = [Case(f"{k}-{w}", looks, dict(kind=k, frames=3 if q else 4, n=1, only=w, camera=w in ("absolute", "paths")), expect=e) for w in LOOKS for k in ("optimized", "none", "filterpy") if k == "optimized" or w in ("estimates", "attributes", "absolute")]
    cs.append(Case("two", looks, dict(kind="none", frames=2 if q else 3, n=2), expect=e))
    cs.append(Case("reid", looks, dict(kind="none", frames=4 if q else 5, n=1, reid=2, delay=1), expect=e))
    cs.append(Case("scored", looks, dict(kind="optimized", frames=3, n=1, scored=True), expect=e))
    cs.append(Case("camera", looks, dict(kind="optimized", frames=3, n=1, camera=True), expect=e))
    return cs
