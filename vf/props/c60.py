"""It does not matter in which form positions and scores are given."""
from ..runner import Case
from .c11 import factory

BOUNDS = "histories of 2 frames (up to 4 in thorough) of one or two detections of 1 or 2 points with symbolic whole coordinates, told to two trackers: as floats in double precision, and as whole numbers of 16 to 64 bits, single precision, slices or transposes of larger arrays, or vectors; scores as doubles and as whole numbers, truth values or in single precision; with symbolic camera movements"
OUTSIDE = "coordinates that are not whole (single precision rounds them)"
BUSY = "some"
FORMS = ("int64", "int32", "int16", "uint16", "float32", "slice", "transposed", "vector")


def shaped(env, rows, form):
    """the array, and the larger array it is a part of"""
    np = env.np
    dt = getattr(np, form, None) if form not in ("slice", "transposed", "vector") else float
    if form == "slice":
        big = np.array([[9.0] * (2 * len(rows[0]) + 1)] + [[v for x in r for v in (7.0, x)] + [5.0] for r in rows], dtype=dt)
        return big[1:, 1::2], big
    if form == "transposed":
        big = np.array([list(c) for c in zip(*rows)], dtype=dt)
        return big.T, big
    a = np.array(rows[0] if form == "vector" else rows, dtype=dt)
    return a, a


def forms(env, dist, kind, which, frames, nd=1, pts=2, camera=False, scored=(), idle=()):
    nf = env.nf
    env.split_ite()
    form = env.choice("form", list(which))
    T = 0.5 if dist == "iou" else 1.0 if dist == "always" else env.dyadic("threshold", 0, 64)
    fn = (lambda d, o: abs(d.points - o.estimate).sum()) if dist == "user" else (lambda d, o: 0.5) if dist == "always" else dist
    ts = [nf.Tracker(fn, distance_threshold=T, hit_counter_max=3, initialization_delay=0, filter_factory=factory(env, kind), detection_threshold=0.5) for _ in range(2)]
    if scored:
        sform = env.choice("scores", list(scored))
    for f in range(frames):
        tr = {}
        if camera:
            mv = [env.dyadic(f"m{f}_{k}", -8, 8) for k in range(2)]
            C = env.mod("norfair.camera_motion")
            tr = dict(coord_transformations=C.TranslationTransformation(env.arr(mv)))
        kept, dets = [], ([], [])
        for i in range(nd if f not in idle else 0):
            if dist == "iou":
                x = env.int(f"c{f}_{i}", 0, 80) * 5
                c = [[x, 10 + 40 * i], [x + 310, 310]]
            else:
                c = [[env.int(f"c{f}_{i}_{p}_{k}", 0, 400) if k == 0 or nd == 1 else 20 * i for k in range(2)] for p in range(pts)]
            num = [[1.0 * v for v in r] for r in c]
            a, big = shaped(env, c if form not in ("slice", "transposed", "vector") else num, form)
            kept.append((a, num if form != "vector" else num[:1], big, [v for v in env.flat(big)]))
            s = [None, None]
            if scored:
                over = [env.split(env.bool(f"over{f}_{i}_{p}")) for p in range(pts)]
                s = [env.arr([1.0 if v else 0.0 for v in over]), env.np.array([dict(int=int, bool=bool, float32=float)[sform](v) for v in over], dtype=dict(int=int, bool=bool, float32=env.np.float32)[sform])]
            dets[0].append(nf.Detection(env.arr(num), scores=s[0], data=(f, i)))
            dets[1].append(nf.Detection(a, scores=s[1], data=(f, i)))
        outs = [t.update(d, **tr) for t, d in zip(ts, dets)]
        env.check([o.id for o in outs[0]] == [o.id for o in outs[1]], "the same objects visible")
        a, b = [[(o.id, o.hit_counter, o.age, o.last_detection.data, [bool(v) for v in o.live_points]) for o in t.tracked_objects] for t in ts]
        env.check(a == b, "the same matches")
        for x, y in zip(*[t.tracked_objects for t in ts]):
            env.check_all_close(x.estimate, y.estimate, "the same estimates")
            env.check_all_close(x.estimate_velocity, y.estimate_velocity, "the same velocities")
            env.check(y.estimate.dtype == x.estimate.dtype and y.estimate_velocity.dtype == x.estimate_velocity.dtype, "which are numbers of the same precision")
            if camera:
                env.check_all_close(x.get_estimate(absolute=True), y.get_estimate(absolute=True), "the same absolute estimates")
            env.check((x.last_distance is None) == (y.last_distance is None), "the same last distances")
            if x.last_distance is not None:
                env.check_close(x.last_distance, y.last_distance, "the same last distances", tol=1e-4)
            env.reach("matched" if x.age and x.last_detection.data[0] == f else "unmatched" if x.age else "new")
        for d, e, k in zip(*dets, kept):
            env.check_all_close(e.points, k[1], "the points are those given")
            env.check_all_close(d.absolute_points, e.absolute_points, "the same absolute positions")
            env.check_all_close(env.flat(k[2]), k[3], "the arrays given are left alone")
    env.observe("n", len(outs[1]))


def cases(tier):
    q = tier == "quick"
    e = ("matched", "unmatched", "new")
    a = ("matched", "new")
    cs = []
    for d in ("user", "cityblock", "mean_manhattan", "chebyshev"):
        cs.append(Case(f"{d}", forms, dict(dist=d, kind="none", which=FORMS[:-1], frames=2), expect=e))
    cs.append(Case("iou", forms, dict(dist="iou", kind="none", which=FORMS[:-1], frames=2), expect=e))
    for k in ("optimized", "filterpy"):
        cs.append(Case(f"filter-{k}", forms, dict(dist="cityblock", kind=k, which=FORMS[:-1], frames=2 if q else 3), expect=e))
    for k in ("optimized", "filterpy", "none"):
        cs.append(Case(f"vector-{k}", forms, dict(dist="cityblock", kind=k, which=("vector", "uint16"), frames=3, pts=1, idle=(1,)), expect=e))
        cs.append(Case(f"scored-{k}", forms, dict(dist="always", kind=k, which=("int32", "uint16", "slice"), frames=2, scored=("int", "bool", "float32")), expect=a))
        cs.append(Case(f"camera-{k}", forms, dict(dist="user" if k == "none" else "always", kind=k, which=("int64", "int16", "uint16", "transposed"), frames=2, pts=1 if q else 2, camera=True), expect=e if k == "none" else a))
    cs.append(Case("two", forms, dict(dist="cityblock", kind="none", which=("int32", "uint16", "slice"), frames=2, nd=2, pts=1), expect=e))
    if not q:
        cs.append(Case("camera-iou", forms, dict(dist="iou", kind="optimized", which=FORMS[:-1], frames=2, camera=True), expect=e))
        cs.append(Case("longer", forms, dict(dist="cityblock", kind="optimized", which=("int32", "uint16"), frames=4, pts=1), expect=e))
    return cs
