"""Coordinate transformations are inverse to each other."""
from ..runner import Case
from ._many import some

BOUNDS = "1..2 points with symbolic coordinates; translations by any vector; homographies: any similarity-free affine part, any perspective part, and products with symbolic entries, away from points mapped to infinity; and larger: 40 points (300 thorough), two of them symbolic"
OUTSIDE = "float rounding (exact reals); points on the line mapped to infinity"

EPS = 1e-5  # how far from the line mapped to infinity


def translation(env, pts, sym=9):
    C = env.mod("norfair.camera_motion")
    v = [env.real("vx", -1000, 1000), env.real("vy", -1000, 1000)]
    t = C.TranslationTransformation(env.arr(v))
    p = [[some(env, i >= pts - sym, f"p{i}_{k}", -1000, 1000) for k in range(2)] for i in range(pts)]
    a = env.arr(p)
    rel = t.abs_to_rel(a)
    ab = t.rel_to_abs(a)
    env.check_all_close(rel, [[x + y for x, y in zip(r, v)] for r in p], "relative = absolute + movement")
    env.check_all_close(t.rel_to_abs(rel), p, "there and back")
    env.check_all_close(t.abs_to_rel(ab), p, "back and there")
    env.check_all_close(a, p, "the points given are left alone")
    env.check_all_close(t.movement_vector, v, "so is the movement")
    env.reach("round trip")
    env.observe("rel", rel)


def homography(env, pts, form, big=10):
    C = env.mod("norfair.camera_motion")
    R = lambda n: env.real(n, -big if n[0] in "pqt" else -10, big if n[0] in "pqt" else 10)
    if form == "affine":
        m = [[R("a"), R("b"), R("tx")], [R("c"), R("d"), R("ty")], [0, 0, 1]]
        det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    elif form == "perspective":
        m = [[1, 0, R("tx")], [0, 1, R("ty")], [R("g"), R("h"), 1]]
        det = 1 - m[0][2] * m[2][0] - m[1][2] * m[2][1]
    else:
        m = [[R("a"), R("b"), R("tx")], [R("c"), R("d"), R("ty")], [R("g"), R("h"), R("i")]]
        det = sum(m[0][k] * (m[1][(k + 1) % 3] * m[2][(k + 2) % 3] - m[1][(k + 2) % 3] * m[2][(k + 1) % 3]) for k in range(3))
    env.split_ite()
    env.assume(env.Or(det > 0.01, det < -0.01))
    env.split(det > 0)
    p = [[R(f"p{i}_{k}") for k in range(2)] for i in range(pts)]
    q = [[R(f"q{i}_{k}") for k in range(2)] for i in range(pts)]
    w = [m[2][0] * x + m[2][1] * y + m[2][2] for x, y in p]
    # the last row of the adjugate: the points that come from infinity
    c = [m[1][0] * m[2][1] - m[1][1] * m[2][0], m[2][0] * m[0][1] - m[0][0] * m[2][1], m[0][0] * m[1][1] - m[0][1] * m[1][0]]
    for v in w + [c[0] * x + c[1] * y + c[2] for x, y in q]:
        env.assume(env.Or(v > EPS, v < -EPS))
        env.split(v > 0)
    t = C.HomographyTransformation(env.arr(m))
    a, b = env.arr(p), env.arr(q)
    rel = t.abs_to_rel(a)
    env.check(rel.shape == (pts, 2), "as many points")
    for i, (x, y) in enumerate(p):
        env.check_close(rel[i, 0] * w[i], m[0][0] * x + m[0][1] * y + m[0][2], "abs_to_rel is the projection by the matrix", tol=1e-5)
        env.check_close(rel[i, 1] * w[i], m[1][0] * x + m[1][1] * y + m[1][2], "abs_to_rel is the projection by the matrix", tol=1e-5)
    back = t.rel_to_abs(b)
    env.check(back.shape == (pts, 2), "as many points")
    for i, (x, y) in enumerate(q):
        r, s = back[i, 0], back[i, 1]
        d = m[2][0] * r + m[2][1] * s + m[2][2]
        env.check_close(m[0][0] * r + m[0][1] * s + m[0][2], x * d, "rel_to_abs is undone by the projection", tol=1e-4)
        env.check_close(m[1][0] * r + m[1][1] * s + m[1][2], y * d, "rel_to_abs is undone by the projection", tol=1e-4)
    env.check_all_close(a, p, "the points given are left alone")
    env.check_all_close(b, q, "the points given are left alone")
    env.reach("round trip")
    env.observe("rel", rel)


def numeric(env, k, pts=2):
    """concrete matrices, any points: there and back"""
    C = env.mod("norfair.camera_motion")
    env.split_ite()
    m = [[[1.0, 0.5, 3.0], [0.0, 2.0, -1.0], [0.0, 0.0, 1.0]], [[0.0, -1.0, 4.0], [1.0, 0.0, 2.0], [0.0, 0.0, 2.0]],
         [[2.0, 0.0, 0.0], [0.0, -4.0, 0.0], [0.5, 0.25, -1.0]],
         [[1.0, 1.0, 0.0], [1.0, 1.0, 1.0], [0.0, 2.0, 1.0]], [[1.0, 0.0, 2.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]]][k]
    t = C.HomographyTransformation(env.arr(m))
    p = [[some(env, i >= pts - 2, f"p{i}_{j}", -50, 50) for j in range(2)] for i in range(pts)]
    for x, y in p[-2:]:
        v = m[2][0] * x + m[2][1] * y + m[2][2]
        env.assume(env.Or(v > EPS, v < -EPS))
        env.split(v > 0)
    env.check_all_close(t.rel_to_abs(t.abs_to_rel(env.arr(p))), p, "there and back", tol=1e-4)
    c = [m[1][0] * m[2][1] - m[1][1] * m[2][0], m[2][0] * m[0][1] - m[0][0] * m[2][1], m[0][0] * m[1][1] - m[0][1] * m[1][0]]
    for x, y in p[-2:]:
        v = c[0] * x + c[1] * y + c[2]
        env.assume(env.Or(v > EPS, v < -EPS))
        env.split(v > 0)
    env.check_all_close(t.abs_to_rel(t.rel_to_abs(env.arr(p))), p, "back and there", tol=1e-4)
    env.reach("round trip")


def cases(tier):
    q = tier == "quick"
    cs = [Case(f"translation-{n}", translation, dict(pts=n), expect=("round trip",)) for n in (1, 3)]
    for f in ("affine", "perspective"):
        cs += [Case(f"homography-{f}-{n}", homography, dict(pts=n, form=f), expect=("round trip",), path_s=60, branch_ms=1000, timeout_ms=2000, witness_alarm=False, witness=0) for n in (1,)]
    cs += [Case(f"homography-numeric-{k}", numeric, dict(k=k), expect=("round trip",)) for k in range(5)]
    cs.append(Case("translation-many", translation, dict(pts=40 if q else 300, sym=2), expect=("round trip",)))
    cs.append(Case("homography-many", numeric, dict(k=2, pts=40 if q else 300), expect=("round trip",)))
    cs.append(Case("homography-large", homography, dict(pts=1, form="perspective", big=5000), expect=("round trip",), path_s=60, branch_ms=1000, timeout_ms=2000, witness_alarm=False, witness=0))
    if not q:
        cs.append(Case("homography-full", homography, dict(pts=1, form="full"), path_s=600, timeout_ms=200000, witness_alarm=False))
    return cs
