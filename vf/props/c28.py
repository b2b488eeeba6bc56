"""Distance matrices: rows are candidates, columns objects, each entry its own pair's distance, infinite across labels."""
from ..runner import Case
from ._many import some

BOUNDS = "up to 3 candidates and 3 objects, labels from {none, 'None', 'a', 1, '1', 1.0, True, (1, 2), (1, 'x'), 0, '', -1, -2}, symbolic positions; scalar, vectorised and scipy distances, the latter also with weights, variances or an exponent; candidates that are detections, subclasses of Detection, or tracked objects; and larger: many candidates and objects, a few of them symbolic"
LABELS = [None, "None", "a", 1, "1", (1, 2), (1, "x"), 2.5, True, 0, "", -1, -2]


def objects(env, labels, tag, pts=1, sym=9):
    """tracked objects at symbolic positions"""
    nf = env.nf
    t = nf.Tracker(lambda d, o: 9.0, distance_threshold=1, hit_counter_max=2, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    pos = [[[some(env, i >= len(labels) - sym and p >= pts - 3, f"{tag}{i}_{p}_{k}", -50, 50) for k in range(2)] for p in range(pts)] for i in range(len(labels))]
    out = t.update([nf.Detection(env.arr(p), label=l) for p, l in zip(pos, labels)])
    return out, pos


def candidates(env, labels, tag, kind, pts=1, sym=9):
    nf = env.nf
    if kind == "objects":
        return objects(env, labels, tag, pts, sym)
    pos = [[[some(env, i >= len(labels) - sym and p >= pts - 3, f"{tag}{i}_{p}_{k}", -50, 50) for k in range(2)] for p in range(pts)] for i in range(len(labels))]
    cls = nf.Detection
    if kind == "subclass":
        cls = type("Box", (nf.Detection,), {})
    return [cls(env.arr(p), label=l) for p, l in zip(pos, labels)], pos


def l1(env, a, b):
    return sum(env.max(x - y, y - x) for r, s in zip(a, b) for x, y in zip(r, s))


def is_inf(x):
    return isinstance(x, float) and x == float("inf") or (hasattr(x, "dtype") and x == float("inf"))


def matrix(env, which, nc, no, labels, kind="detections", pts=1, sym=9):
    D = env.mod("norfair.distances")
    lc = [env.choice(f"lc{i}", labels) if i >= nc - sym else labels[i % len(labels)] for i in range(nc)]
    lo = [env.choice(f"lo{i}", labels) if i >= no - sym else labels[i * i % len(labels)] for i in range(no)]
    cand, pc = candidates(env, lc, "c", kind, pts, sym)
    objs, po = objects(env, lo, "o", pts, sym)
    calls = []

    def scalar(c, o):
        calls.append((c, o))
        p = c.points if hasattr(c, "points") else c.estimate
        return abs(p - o.estimate).sum()

    def vector(c, o):
        calls.append((c, o))
        return abs(c[:, None, :] - o[None, :, :]).sum(axis=2)

    dist = {"scalar": lambda: D.ScalarDistance(scalar), "vector": lambda: D.VectorizedDistance(vector),
            "scipy": lambda: D.ScipyDistance("cityblock")}[which]()
    m = dist.get_distances(objs, cand)
    env.check(m.shape == (nc, no), "candidates x objects")
    for i in range(nc):
        for j in range(no):
            if lc[i] == lo[j]:
                env.reach("same label")
                env.check_close(m[i, j], l1(env, pc[i], po[j]), "each entry is its own pair's distance", tol=1e-4)
            else:
                env.reach("other label")
                env.check(is_inf(m[i, j]), "pairs of different labels are infinitely far apart")
    if which == "scalar":
        env.check(all(c[0].label == c[1].label for c in calls), "the distance function only sees pairs of one label")
        env.check(all(any(c[0] is x for x in cand) and any(c[1] is x for x in objs) for c in calls), "candidate first, object second")
    for c, p in zip(cand, pc):
        env.check_all_close(c.points if hasattr(c, "points") else c.estimate, p, "candidates are left alone")


def empty(env):
    D = env.mod("norfair.distances")
    nf = env.nf
    which = env.choice("which", [0, 1, 2])
    dist = [D.ScalarDistance(lambda a, b: 0.0), D.VectorizedDistance(lambda a, b: 0.0), D.ScipyDistance("euclidean")][which]
    objs, _ = objects(env, [None, None], "o")
    dets = [nf.Detection(env.arr([[1.0, 2.0]])) for _ in range(3)]
    env.check(dist.get_distances([], dets).shape == (3, 0), "no objects: no columns")
    env.check(dist.get_distances(objs, []).shape == (0, 2), "no candidates: no rows")
    env.reach("empty")
    env.observe("which", which)


def named(env, name):
    """a metric of scipy by name is that metric"""
    D = env.mod("norfair.distances")
    nf = env.nf
    dist = D.get_distance_by_name(name)
    objs, po = objects(env, [None, None], "o", 2)
    cand, pc = candidates(env, [None], "c", "detections", 2)
    m = dist.get_distances(objs, cand)
    env.check(m.shape == (1, 2), "candidates x objects")
    for j in range(2):
        diffs = [env.max(x - y, y - x) for r, s in zip(pc[0], po[j]) for x, y in zip(r, s)]
        d = m[0, j]
        if name in ("cityblock", "mean_manhattan"):
            env.check_close(d, sum(diffs) / (2 if name == "mean_manhattan" else 1), "sum of absolute differences", tol=1e-4)
        elif name == "chebyshev":
            env.check_close(d, env.max(*diffs), "largest absolute difference", tol=1e-4)
        elif name == "sqeuclidean":
            env.check_close(d, sum(x * x for x in diffs), "sum of squares", tol=1e-2)
        elif name in ("euclidean", "frobenius"):
            env.check(d >= 0, "not negative")
            sq = sum((x - y) * (x - y) for r, s in zip(pc[0], po[j]) for x, y in zip(r, s))
            env.check_close(d * d, sq, "root of the sum of squares", tol=1e-2)
    env.reach("named")


def tuned(env, how):
    """the further arguments of a ScipyDistance are scipy's"""
    D = env.mod("norfair.distances")
    w = [0.5, 2.0, 1.0, 3.0]
    kw = {"minkowski-1": dict(metric="minkowski", p=1), "minkowski-inf": dict(metric="minkowski", p=float("inf")), "weighted": dict(metric="cityblock", w=w),
          "weighted-sq": dict(metric="sqeuclidean", w=w), "seuclidean": dict(metric="seuclidean", V=w), "default": {}}[how]
    lo = [env.choice(f"lo{j}", [None, "a"]) for j in range(2)]
    objs, po = objects(env, lo, "o", 2)
    cand, pc = candidates(env, [None], "c", "detections", 2)
    m = D.ScipyDistance(**{k: env.arr(v) if isinstance(v, list) else v for k, v in kw.items()}).get_distances(objs, cand)
    env.check(m.shape == (1, 2), "candidates x objects")
    for j in range(2):
        if lo[j] is not None:
            env.check(is_inf(m[0, j]), "pairs of different labels are infinitely far apart")
            env.reach("other label")
            continue
        env.reach("same label")
        raw = [x - y for r, s in zip(pc[0], po[j]) for x, y in zip(r, s)]
        diffs = [env.max(x, -x) for x in raw]
        d = m[0, j]
        if how == "minkowski-1":
            env.check_close(d, sum(diffs), "sum of absolute differences", tol=1e-4)
        elif how == "minkowski-inf":
            env.check_close(d, env.max(*diffs), "largest absolute difference", tol=1e-4)
        elif how == "weighted":
            env.check_close(d, sum(f * x for f, x in zip(w, diffs)), "weighted sum of absolute differences", tol=1e-4)
        elif how == "weighted-sq":
            env.check_close(d, sum(f * x * x for f, x in zip(w, raw)), "weighted sum of squares", tol=1e-2)
        else:
            env.check(d >= 0, "not negative")
            s = sum(x * x / f for f, x in zip(w, raw)) if how == "seuclidean" else sum(x * x for x in raw)
            env.check_close(d * d, s, "root of the sum of squares", tol=1e-2)


def cases(tier):
    q = tier == "quick"
    e = ("same label", "other label")
    cs = []
    for w in ("scalar", "vector", "scipy"):
        cs.append(Case(f"{w}-1-1", matrix, dict(which=w, nc=1, no=1, labels=LABELS), expect=e, witness_alarm=False))
        cs.append(Case(f"{w}-2-1", matrix, dict(which=w, nc=2, no=1, labels=[None, "a", 1, "1", (1, 2)]), expect=e, witness_alarm=False))
        cs.append(Case(f"{w}-2-2", matrix, dict(which=w, nc=2, no=2, labels=[None, "a", (1, 2)]), expect=e, witness_alarm=False))
        cs.append(Case(f"{w}-mixed", matrix, dict(which=w, nc=2, no=2, labels=[1, 2.5, True] if q else [1, 2.5, True, "a"]), expect=e, witness_alarm=False))
        for k in ("subclass", "objects"):
            cs.append(Case(f"{w}-{k}", matrix, dict(which=w, nc=2, no=2, labels=[None, "a"], kind=k), expect=e, witness_alarm=False))
        cs.append(Case(f"{w}-points", matrix, dict(which=w, nc=2, no=1, labels=["a", "b"], pts=2), expect=e, witness_alarm=False))
        big = dict(nc=23, no=19) if q else dict(nc=70, no=66)
        cs.append(Case(f"{w}-many", matrix, dict(which=w, labels=[None, "a", 1, "1", (1, 2)], sym=1, **big), expect=e, witness_alarm=False))
        cs.append(Case(f"{w}-many-labels", matrix, dict(which=w, labels=[None] + [chr(97 + i) for i in range(14)], sym=1, nc=19, no=23), expect=e, witness_alarm=False))
        cs.append(Case(f"{w}-many-single", matrix, dict(which=w, labels=["a"], sym=1, nc=33, no=64), expect=e[:1], witness_alarm=False))
        cs.append(Case(f"{w}-many-points", matrix, dict(which=w, nc=2, no=1, labels=["a", "b"], pts=20), expect=e, witness_alarm=False))
    for h in ("minkowski-1", "minkowski-inf", "weighted", "weighted-sq", "seuclidean", "default"):
        cs.append(Case("scipy-" + h, tuned, dict(how=h), expect=e, witness_alarm=False))
    cs.append(Case("empty", empty, {}, expect=("empty",)))
    for n in ("cityblock", "chebyshev", "sqeuclidean", "euclidean", "frobenius", "mean_manhattan"):
        cs.append(Case("named-" + n, named, dict(name=n), expect=("named",), witness_alarm=False))
    return cs
