"""Normalised mean euclidean distance and keypoint voting."""
from types import SimpleNamespace

from ..runner import Case
from ._many import fixed, some

BOUNDS = "1..3 points, symbolic coordinates, image sizes 1..4096, symbolic scores and thresholds (exact reals); and larger: 33 points (133 thorough), one of them symbolic"
OUTSIDE = "float rounding (exact reals)"


def normalized(env, pts, integer=False, sym=9):
    D = env.mod("norfair.distances")
    nf = env.nf
    H, W = (env.int("height", 1, 4096), env.int("width", 1, 4096)) if sym > 1 else (480, 640)
    f = D.create_normalized_mean_euclidean_distance(H, W)
    mk = (lambda n: env.int(n, -100, 5000)) if integer else (lambda n: env.real(n, -100, 5000))
    a = [[mk(f"a{i}_{k}") if i >= pts - sym else fixed(f"a{i}_{k}", -100, 5000) for k in range(2)] for i in range(pts)]
    b = [[some(env, i >= pts - sym, f"b{i}_{k}", -100, 5000) for k in range(2)] for i in range(pts)]
    det = nf.Detection(env.arr(a, dtype=int if integer else float))
    d = f(det, SimpleNamespace(estimate=env.arr(b)))
    env.check(d >= 0, "not negative")
    singles = [f(nf.Detection(env.arr([x])), SimpleNamespace(estimate=env.arr([y]))) for x, y in zip(a, b)]
    env.check_close(d * pts, sum(singles), "the mean over the points")
    for s, x, y in zip(singles, a, b):
        u, v = (x[0] - y[0]) / W, (x[1] - y[1]) / H
        env.check_close(s * s, u * u + v * v, "differences divided by the image size")
    env.check_all_close(det.points, a, "the detection is left alone")
    env.reach("formula")
    env.observe("d", d)


def unit(env):
    """within the image the distance stays within [0, 1] (documented)"""
    D = env.mod("norfair.distances")
    nf = env.nf
    H, W = env.int("height", 1, 4096), env.int("width", 1, 4096)
    f = D.create_normalized_mean_euclidean_distance(H, W)
    a = [env.real("ax", 0), env.real("ay", 0)]
    b = [env.real("bx", 0), env.real("by", 0)]
    env.assume(a[0] <= W, b[0] <= W, a[1] <= H, b[1] <= H)
    d = f(nf.Detection(env.arr([a])), SimpleNamespace(estimate=env.arr([b])))
    env.check(d * d <= 2 + 1e-6, "never more than the diagonal of the unit square")
    env.reach("bounded")
    env.check(d <= 1 + 1e-6, "bound to [0, 1]")


def voting(env, pts, sym=9):
    D = env.mod("norfair.distances")
    nf = env.nf
    KT, DT = env.real("keypoint_threshold", 0, 50), env.real("detection_threshold", -1, 1)
    f = D.create_keypoints_voting_distance(KT, DT)
    a = [[some(env, i >= pts - sym, f"a{i}_{k}", -100, 100) for k in range(2)] for i in range(pts)]
    b = [[some(env, i >= pts - sym, f"b{i}_{k}", -100, 100) if i >= pts - sym else a[i][k] for k in range(2)] for i in range(pts)]
    sa = [env.real(f"sa{i}", -2, 2) if i >= pts - sym else 2 - i % 2 * 4 for i in range(pts)]
    sb = [env.real(f"sb{i}", -2, 2) if i >= pts - sym else 2 - i % 3 * 2 for i in range(pts)]
    old = nf.Detection(env.arr(b), scores=env.arr(sb))
    new = nf.Detection(env.arr(a), scores=env.arr(sa))
    t = nf.Tracker(f, distance_threshold=2, hit_counter_max=2, initialization_delay=0, filter_factory=nf.NoFilterFactory(), detection_threshold=-5)
    obj = t.update([old])[0]
    d = f(new, obj)
    n = 0
    for i in range(pts):
        sq = sum((x - y) * (x - y) for x, y in zip(a[i], b[i]))
        n = n + env.Ite(env.And(sq < KT * KT, sa[i] > DT, sb[i] > DT), 1, 0)
    env.check_close(d * (1 + n), 1, "1 / (1 + number of matching points)")
    env.check(env.And(d > 0, d <= 1), "within (0, 1]")
    env.reach("voted")


def cases(tier):
    q = tier == "quick"
    cs = [Case(f"normalized-{p}", normalized, dict(pts=p), expect=("formula",)) for p in (1, 2, 3)]
    cs.append(Case("normalized-int", normalized, dict(pts=2, integer=True), expect=("formula",)))
    cs += [Case(f"voting-{p}", voting, dict(pts=p), expect=("voted",), witness_alarm=False) for p in ((1, 2) if q else (1, 2, 3))]
    cs.append(Case("normalized-many", normalized, dict(pts=13 if q else 34, sym=1), expect=("formula",)))
    cs.append(Case("voting-many", voting, dict(pts=33 if q else 133, sym=1), expect=("voted",), witness_alarm=False))
    cs.append(Case("unit", unit, {}, expect=("bounded",)))
    return cs
