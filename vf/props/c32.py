"""The homography getter: what it hands to OpenCV, how it accumulates, when it asks for a new reference."""
import types

from ..runner import Case

BOUNDS = "up to 3 calls with 0..6 points; homographies with symbolic translations and a choice of linear and perspective parts; symbolic inliers, proportion threshold and OpenCV parameters; cv2.findHomography is a stand-in that may return any of these"
OUTSIDE = "float rounding (exact reals); the estimation done by OpenCV"

SHAPES = [
    [[1.0, 0.0, None], [0.0, 1.0, None], [0.0, 0.0, 1.0]],
    [[2.0, 0.0, None], [0.0, 0.5, None], [0.0, 0.0, 1.0]],
    [[0.0, -1.0, None], [1.0, 0.0, None], [0.0, 0.0, 1.0]],
    [[1.0, 0.0, 3.0], [0.0, 2.0, 5.0], [0.25, 0.0, 1.0]],
]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


class CV:
    """stands in for cv2"""

    def __init__(self):
        m = self.module = types.ModuleType("cv2")
        m.RANSAC, m.LMEDS, m.RHO = 8, 4, 16
        m.COLOR_BGR2GRAY = 6
        m.findHomography = self.find
        m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else (lambda *a, **k: None)
        self.calls, self.answers = [], []

    def find(self, srcPoints, dstPoints, method=None, ransacReprojThreshold=None, mask=None, maxIters=None, confidence=None):
        self.calls.append((srcPoints, dstPoints, method, ransacReprojThreshold, maxIters, confidence))
        return self.answers.pop(0)


def getter(env, plan):
    cv = CV()
    env.fresh_world(modules={"cv2": cv.module})
    C = env.mod("norfair.camera_motion")
    T = env.dyadic("proportion_threshold", 0, 1, 16)
    given = {}
    if env.split(env.bool("parameters given")):
        given = dict(method=env.choice("method", [0, 4, 8, 16]), ransac_reproj_threshold=env.int("reproj", 1, 10), max_iters=env.int("iters", 1, 5000), confidence=env.real("confidence", 0, 1))
    g = C.HomographyTransformationGetter(proportion_points_used_threshold=T, **given)
    ref = None
    kept = []
    for c, n in enumerate(plan):
        np_, nc = n if isinstance(n, tuple) else (n, n)
        mk = lambda nm, m: None if m is None else env.arr([[env.real(f"{nm}{c}_{i}_{k}", -100, 100) for k in range(2)] for i in range(m)]).reshape((m, 2))
        prev, curr = mk("p", np_), mk("c", nc)
        few = np_ is None or nc is None or min(np_, nc) < 4
        before = len(cv.calls)
        if not few:
            sh = env.choice(f"shape{c}", SHAPES)
            H = [[env.real(f"t{c}_{i}", -50, 50) if x is None else x for i, x in zip((r,) * 3, row)] for r, row in enumerate(sh)]
            inl = [env.bool(f"inlier{c}_{i}") for i in range(np_)]
            mask = env.np.array([[env.Ite(b, 1, 0)] for b in inl], dtype=env.np.uint8)
            cv.answers = [(env.arr(H), mask)]
        update, tr = g(curr, prev)
        if few:
            env.check(len(cv.calls) == before, "OpenCV is not asked about fewer than four points")
            env.check(update is True, "a new reference is asked for")
            if ref is None:
                env.check(tr is None, "nothing is known about the movement")
                env.reach("nothing known")
            else:
                env.check_all_close(tr.homography_matrix, ref, "the last accumulated movement")
                env.reach("last known")
        else:
            env.check(len(cv.calls) == before + 1, "one estimation per call")
            a = cv.calls[-1]
            env.check_all_close(a[0], prev, "from the previous points")
            env.check_all_close(a[1], curr, "to the current points")
            want = (given.get("method", 8), given.get("ransac_reproj_threshold", 3), given.get("max_iters", 2000), given.get("confidence", 0.995))
            for x, y in zip(a[2:], want):
                env.check(x == y, "the parameters are handed over")
            now = H if ref is None else mul(H, ref)
            env.check_all_close(tr.homography_matrix, now, "movement since the reference, after the movement of the reference")
            used = sum(env.Ite(b, 1, 0) for b in inl)
            env.check(env.Iff(update, used < T * np_), "a new reference exactly when too few points agree")
            if env.split(update):
                ref = now
                env.reach("replaced")
            else:
                env.reach("kept")
        for t, w in kept:
            env.check_all_close(t.homography_matrix, w, "transformations given before stay what they were")
        if tr is not None:
            kept.append((tr, [row[:] for row in (ref if few else now)]))
            if not few and not any(hasattr(x, "t") for x in now[2]) and list(now[2]) == [0, 0, 1]:
                q = [env.real("qx", -50, 50), env.real("qy", -50, 50)]
                env.check_all_close(tr.abs_to_rel(env.arr([q])), [[now[0][0] * q[0] + now[0][1] * q[1] + now[0][2], now[1][0] * q[0] + now[1][1] * q[1] + now[1][2]]], "the transformation applies it")
    env.observe("calls", len(cv.calls))


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("one-call", getter, dict(plan=[4]), expect=("replaced", "kept")),
        Case("few-points", getter, dict(plan=[(3, 3), (None, None), (0, 0), (4, 3), (3, 4)]), expect=("nothing known",)),
        Case("few-after", getter, dict(plan=[4, (2, 2), (None, None)]), expect=("last known", "nothing known")),
        Case("two-calls", getter, dict(plan=[4, 4]), expect=("replaced", "kept")),
    ]
    if not q:
        cs.append(Case("three-calls", getter, dict(plan=[4, 4, 4]), expect=("replaced", "kept")))
        cs.append(Case("five", getter, dict(plan=[5, 5]), expect=("replaced", "kept")))
        cs.append(Case("six", getter, dict(plan=[6]), expect=("replaced", "kept")))
    return cs
