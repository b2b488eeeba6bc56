"""Configuration and input validation."""
from ..runner import Case

BOUNDS = "things that are not detections (arrays, lists, texts, numbers, None, look-alikes, tracked objects) given to trackers after 0, 1 or 3 frames, with and without a camera; hit_counter_max 0..20, initialization_delay -5..25, past_detections_length -5..6 (any sign combination); distance arguments from a fixed list of kinds; point arrays of rank 1..4 with symbolic coordinates"


def arguments(env):
    nf = env.nf
    H = env.int("hit_counter_max", 0, 20)
    D = env.int("delay", -5, 25)
    L = env.int("length", -5, 6)
    given = env.split(env.bool("delay_given"))
    kw = dict(initialization_delay=D) if given else {}
    t, err = env.trial(nf.Tracker, lambda d, o: 0.0, distance_threshold=1, hit_counter_max=H, past_detections_length=L, **kw)
    ok = L >= 0
    if given:
        ok = env.And(ok, D >= 0, D < H)
    if err is not None:
        env.reach("refused")
        env.check(isinstance(err, ValueError), "bad arguments are refused with a ValueError")
        env.check(env.Not(ok), "good arguments are not refused")
    else:
        env.reach("accepted")
        env.check(ok, "bad arguments are refused")
        env.check(t.initialization_delay == (D if given else H // 2), "the delay used")
        env.check(t.hit_counter_max == H, "hit_counter_max used")
        env.check(t.current_object_count == 0 and t.total_object_count == 0, "a new tracker is empty")
        env.check(t.update() == [], "and stays so without detections")
    env.observe("refused", err is not None)


NAMES = ["frobenius", "mean_euclidean", "mean_manhattan", "iou", "iou_opt", "euclidean", "cosine", "sqeuclidean", "Euclidean", "", "iou ", "nope"]


def distance_argument(env):
    nf = env.nf
    i = env.int("kind", 0, len(NAMES) + 4)
    k = i.__index__()
    known = False
    if k < len(NAMES):
        x = NAMES[k]
        known = k < 8
    else:
        x = [None, 3, ["iou"], 1.5, (lambda d, o: 0.0)][k - len(NAMES)]
        known = k == len(NAMES) + 4
    t, err = env.trial(nf.Tracker, distance_function=x, distance_threshold=1)
    env.check((err is None) == known, "known distances are accepted, others refused")
    env.check(err is None or isinstance(err, ValueError), "with a ValueError")
    env.reach("refused" if err is not None else "accepted")
    if k < len(NAMES):
        _, e2 = env.trial(nf.get_distance_by_name, x)
        env.check((e2 is None) == known and (e2 is None or isinstance(e2, ValueError)), "get_distance_by_name likewise")
    env.observe("known", err is None)


def points(env):
    nf, np = env.nf, env.np
    rank = env.choice("rank", [1, 2, 3, 4])
    vals = [env.real(f"v{i}") for i in range(4)]
    a = {1: lambda: env.arr(vals[:2]), 2: lambda: env.arr([vals[:2], vals[2:]]), 3: lambda: env.arr([[vals[:2], vals[2:]]]),
         4: lambda: env.arr([[[vals[:2], vals[2:]]]])}[rank]()
    d, err = env.trial(nf.Detection, a)
    if rank > 2:
        env.check(isinstance(err, ValueError), "points of rank above 2 are refused with a ValueError")
        env.reach("refused")
    else:
        env.check(err is None, "points of rank 1 and 2 are accepted")
        want = [vals[:2]] if rank == 1 else [vals[:2], vals[2:]]
        env.check(d.points.shape == (len(want), 2), "a single point becomes one row")
        env.check_all_close(d.points, want, "coordinates as given")
        env.check_all_close(d.absolute_points, want, "absolute points start equal")
        d.absolute_points[0, 0] = 12345
        env.check_all_close(d.points, want, "absolute points are a copy")
        env.check(d.scores is None and d.label is None and d.data is None and d.embedding is None, "optional fields default to None")
        env.reach("accepted")
    env.observe("rank", rank)


class Like:
    """has all that a Detection has"""

    def __init__(self, d):
        self.points, self.absolute_points, self.scores, self.label, self.data, self.embedding, self.age = d.points, d.absolute_points, None, None, None, None, None

    def update_coordinate_transformation(self, c):
        pass


def foreign(env, distance=None):
    """things that are not Detections are refused, also next to good ones, by trackers new and old"""
    nf, np = env.nf, env.np
    C = env.mod("norfair.camera_motion")
    near = 0.0 if env.split(env.bool("near")) else 9.0
    t = nf.Tracker(distance or (lambda d, o: near), distance_threshold=1, initialization_delay=1)
    det = lambda: nf.Detection(env.arr([[1.0, 2.0]]))
    before = env.choice("before", [0, 1, 3])
    for _ in range(before):
        t.update([det()])
    bad = [env.arr([[1.0, 2.0]]), [1.0, 2.0], "det", 7, Like(det()), None] + list(t.tracked_objects)
    k = env.choice("bad", list(range(len(bad))))
    good = env.split(env.bool("good"))
    dets = ([det()] if good else []) + [bad[k]]
    kw = dict(coord_transformations=C.TranslationTransformation(env.arr([1.0, 2.0]))) if env.split(env.bool("camera")) else {}
    _, err = env.trial(t.update, dets, **kw)
    env.check(isinstance(err, ValueError), "refused with a ValueError")
    env.observe("k", k)
    env.reach("refused")


def empty_updates(env, frames):
    """update(), update(None) and update([]) mean the same"""
    nf = env.nf
    ts = [nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=4, initialization_delay=1) for _ in range(3)]
    for f in range(frames):
        seen = env.split(env.bool(f"seen{f}"))
        outs = []
        for i, t in enumerate(ts):
            if seen:
                outs.append(t.update([nf.Detection(env.arr([[1.0 + f, 2.0]]))]))
            else:
                outs.append([t.update, lambda t=t: t.update(None), lambda t=t: t.update([])][i]())
        for o in outs[1:]:
            env.check([x.id for x in o] == [x.id for x in outs[0]], "the same objects")
            for x, y in zip(o, outs[0]):
                env.check(x.hit_counter == y.hit_counter and x.age == y.age, "the same counters")
                env.check_all_close(x.estimate, y.estimate, "the same estimates")
                env.reach("visible")
    env.observe("n", len(outs[0]))


def cases(tier):
    q = tier == "quick"
    return [
        Case("arguments", arguments, {}, expect=("refused", "accepted")),
        Case("distance", distance_argument, {}, expect=("refused", "accepted")),
        Case("points", points, {}, expect=("refused", "accepted")),
        Case("foreign", foreign, {}, expect=("refused",)),
        Case("foreign-euclidean", foreign, dict(distance="euclidean"), expect=("refused",)),
        Case("empty-updates", empty_updates, dict(frames=5 if q else 7), expect=("visible",)),
    ]
