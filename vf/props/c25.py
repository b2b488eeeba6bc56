"""The iou distance."""
from ..runner import Case
from ._many import some

BOUNDS = "1..3 candidate and object boxes with symbolic corners (exact reals), also whole numbers of 8 to 64 bits; malformed inputs of every rank and width up to 4; and larger: 13 candidates and 11 objects (70 and 66 thorough), a few of them symbolic"
OUTSIDE = "float rounding (exact reals); boxes with x_min >= x_max, for which the function only warns"


def box(env, n, lo=-100, hi=100):
    v = [env.real(f"{n}{k}", lo, hi) for k in range(4)]
    env.assume(v[0] < v[2], v[1] < v[3])
    return v


def ref(env, a, b):
    iw = env.max(env.min(a[2], b[2]) - env.max(a[0], b[0]), 0)
    ih = env.max(env.min(a[3], b[3]) - env.max(a[1], b[1]), 0)
    inter = iw * ih
    return inter, (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - inter


def matrix(env, n, k):
    """every entry is 1 - intersection / union of its own pair"""
    D = env.mod("norfair.distances")
    c = [box(env, f"c{i}") for i in range(n)]
    o = [box(env, f"o{i}") for i in range(k)]
    m = D.iou(env.arr(c), env.arr(o))
    env.check(m.shape == (n, k), "a candidates x objects matrix")
    for i in range(n):
        for j in range(k):
            inter, union = ref(env, c[i], o[j])
            env.check_close((1 - m[i, j]) * union, inter, "1 - intersection over union")
    env.reach("matrix")
    env.observe("m", m)


def many(env, n, k):
    """the same with many boxes, of which the first, a middle one and the last are symbolic"""
    D = env.mod("norfair.distances")

    def boxes(tag, n):
        out = []
        for i in range(n):
            x, y, w, h = [some(env, i in (n // 2, n - 1), f"{tag}{i}_{j}", *r) for j, r in enumerate(((-100, 100), (-100, 100), (1, 90), (1, 90)))]
            out.append([x, y, x + w, y + h])
        return out

    c, o = boxes("c", n), boxes("o", k)
    m = D.iou(env.arr(c), env.arr(o))
    env.check(m.shape == (n, k), "a candidates x objects matrix")
    for i in range(n):
        for j in range(k):
            inter, union = ref(env, c[i], o[j])
            env.check_close((1 - m[i, j]) * union, inter, "1 - intersection over union")
    env.reach("matrix")


def whole(env):
    """boxes given as whole numbers, narrow ones included"""
    D = env.mod("norfair.distances")
    np = env.np
    kind = env.choice("candidates", ["int64", "int16", "uint16", "uint8", "int32", "float32"])
    kinds = [kind, env.choice("objects", [kind, "float64"])]
    out = []
    for tag, k in zip("ab", kinds):
        x = env.int(tag, 0, 40 if k == "uint8" else 800)
        s = 200 if k == "uint8" else 300
        out.append(([x, 10, x + s, s + 20], k))
    m = D.iou(*[np.array([b], dtype=getattr(np, k)) for b, k in out])
    inter, union = ref(env, out[0][0], out[1][0])
    env.check_close((1 - m[0, 0]) * union, inter, "1 - intersection over union")
    env.reach("whole")
    env.observe("m", m)


def axioms(env):
    D = env.mod("norfair.distances")
    env.split_minmax()
    a, b = box(env, "a"), box(env, "b")
    d = D.iou(env.arr([a]), env.arr([b]))[0, 0]
    e = D.iou(env.arr([b]), env.arr([a]))[0, 0]
    env.check_close(d, e, "symmetric")
    apart = env.Or(a[2] <= b[0], b[2] <= a[0], a[3] <= b[1], b[3] <= a[1])
    inside = env.And(a[0] <= b[0], b[2] <= a[2], a[1] <= b[1], b[3] <= a[3])
    if env.split(apart):
        env.check_close(d, 1, "1 when the boxes do not overlap")
        env.reach("apart")
    elif env.split(inside):
        area_a, area_b = (a[2] - a[0]) * (a[3] - a[1]), (b[2] - b[0]) * (b[3] - b[1])
        env.check_close((1 - d) * area_a, area_b, "ratio of the areas when one contains the other")
        env.reach("inside")
    else:
        env.check(d < 1 + 1e-9, "below 1 when they overlap")
        env.check(d > -1e-9, "not negative")
        env.reach("overlap")
    same = D.iou(env.arr([a]), env.arr([a]))[0, 0]
    env.check_close(same, 0, "0 for equal boxes")
    env.observe("d", d)


def invariance(env):
    D = env.mod("norfair.distances")
    env.split_minmax()
    a, b = box(env, "a"), box(env, "b")
    s = [env.real("sx", -50, 50), env.real("sy", -50, 50)] * 2
    d = D.iou(env.arr([a]), env.arr([b]))[0, 0]
    e = D.iou(env.arr([[x + y for x, y in zip(a, s)]]), env.arr([[x + y for x, y in zip(b, s)]]))[0, 0]
    env.check_close(d, e, "unchanged by a common displacement")
    f = D.iou(env.arr([[4 * x for x in a]]), env.arr([[4 * x for x in b]]))[0, 0]
    env.check_close(d, f, "unchanged by a common scale")
    env.reach("invariant")
    env.observe("d", d)


def validation(env):
    D = env.mod("norfair.distances")
    np = env.np
    rows = env.choice("rows", [1, 2])
    width = env.choice("width", [1, 2, 3, 4, 5])
    rank = env.choice("rank", [1, 2, 3])
    data = [[env.real(f"v{i}_{j}", -10, 10) for j in range(width)] for i in range(rows)]
    good = rank == 2 and width == 4
    a = env.arr(data[0]) if rank == 1 else env.arr(data) if rank == 2 else env.arr([data])
    o = env.arr([[0.0, 0.0, 1.0, 1.0]])
    if good:
        for r in data:
            env.assume(r[0] < r[2], r[1] < r[3])
    v, err = env.trial(D.iou, a, o)
    if good:
        env.check(err is None and v.shape == (rows, 1), "boxes of shape (N, 4) are accepted")
        env.reach("accepted")
    else:
        env.check(isinstance(err, AssertionError), "anything else is refused")
        env.reach("refused")
    env.observe("good", good)


def through_tracker(env):
    """the named distance used by a tracker is the distance between box detections"""
    nf = env.nf
    a, b = box(env, "a", 0, 100), box(env, "b", 0, 100)
    env.split_minmax()
    thr = 0.5
    t = nf.Tracker("iou", distance_threshold=thr, hit_counter_max=5, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    t.update([nf.Detection(env.arr([a[:2], a[2:]]))])
    out = t.update([nf.Detection(env.arr([b[:2], b[2:]]))])
    inter, union = ref(env, a, b)
    # the tracker keeps distances in single precision: stay away from the threshold itself
    env.assume(env.Or(inter - (1 - thr) * union > 0.001, inter - (1 - thr) * union < -0.001))
    matched = len(t.tracked_objects) == 1
    env.check(env.Iff(matched, inter > (1 - thr) * union), "matched when the overlap is large enough")
    env.reach("matched" if matched else "apart")
    env.observe("matched", matched)


def cases(tier):
    q = tier == "quick"
    return [
        Case("matrix-1-1", matrix, dict(n=1, k=1), expect=("matrix",)),
        Case("matrix-2-1", matrix, dict(n=2, k=1), expect=("matrix",)),
        Case("matrix-2-3", matrix, dict(n=2, k=3), expect=("matrix",)),
        Case("many", many, dict(n=13, k=11) if q else dict(n=70, k=66), expect=("matrix",)),
        Case("whole", whole, {}, expect=("whole",)),
        Case("axioms", axioms, {}, expect=("apart", "inside", "overlap")),
        Case("invariance", invariance, {}, expect=("invariant",)),
        Case("validation", validation, {}, expect=("accepted", "refused")),
        Case("tracker", through_tracker, {}, expect=("matched", "apart")),
    ] + ([] if q else [Case("matrix-3-3", matrix, dict(n=3, k=3), expect=("matrix",))])
