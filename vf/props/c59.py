"""It does not matter how a distance is given: by name, as a function, or as a function of one's own that computes the same."""
from ..runner import Case
from .c11 import factory

BOUNDS = "histories of 2 frames (3 for one point without filter; 3 and 4 in thorough) of up to 2 detections of 1 or 2 points with symbolic coordinates and threshold, with and without symbolic labels and presence, told to two trackers that differ in how the distance is given"
OUTSIDE = "float rounding (exact reals; distances differ by less than single precision between the ways); ties within it"
BUSY = "some"


def flat(a):
    return [x for row in a for x in row]


def own(env, name):
    """what the distance is, in plain Python"""
    def diffs(d, o):
        return [env.max(x - y, y - x) for x, y in zip(flat(d.points), flat(o.estimate))]

    def iou(d, o):
        (a, b, c, e), (p, q, r, s) = flat(d.points), flat(o.estimate)
        w = env.max(env.min(c, r) - env.max(a, p), 0)
        h = env.max(env.min(e, s) - env.max(b, q), 0)
        return 1 - w * h / ((c - a) * (e - b) + (r - p) * (s - q) - w * h)

    return {
        "cityblock": lambda d, o: sum(diffs(d, o)),
        "chebyshev": lambda d, o: env.max(*diffs(d, o)),
        "sqeuclidean": lambda d, o: sum(x * x for x in diffs(d, o)),
        "mean_manhattan": lambda d, o: sum(diffs(d, o)) / len(d.points),
        "iou": iou,
    }[name]


def ways(env, name, how, frames, n, pts=1, dim=2, labels=(None,), kind="none", gaps=False, delay=0):
    nf = env.nf
    D = env.mod("norfair.distances")
    env.split_ite()
    T = env.dyadic("threshold", 0, 32) if name != "iou" else env.dyadic("threshold", 0, 1)
    env.assume(T > 0)
    fn = {"own": lambda: own(env, name), "function": lambda: getattr(D, name), "scalar": lambda: "frobenius", "objects": lambda: name}[how]()
    ts = [nf.Tracker(x, distance_threshold=T, hit_counter_max=3, initialization_delay=delay, filter_factory=factory(env, kind)) for x in (name, fn)]
    seen = [True] * n
    for f in range(frames):
        if gaps:
            seen = [env.split(env.bool(f"seen{f}{i}")) for i in range(n)]
        lab = [env.choice(f"label{f}{i}", list(labels)) if len(labels) > 1 else labels[0] for i in range(n)]
        co = []
        for i in range(n):
            c = [[env.dyadic(f"c{f}_{i}_{p}_{k}", -8, 8) for k in range(dim)] for p in range(pts)]
            if name == "iou":
                # one side and one corner symbolic
                c = [[c[0][0], 0.0], [c[0][0] + 2.0, 1.0 + i + f]]
            co.append(c)
        outs = [t.update([nf.Detection(env.arr(co[i]), data=(f, i), label=lab[i]) for i in range(n) if seen[i]]) for t in ts]
        env.check([(o.id, o.last_detection.data) for o in outs[0]] == [(o.id, o.last_detection.data) for o in outs[1]], "the same objects visible")
        a, b = [[(o.id, o.label, o.hit_counter, o.age, o.last_detection.data) for o in t.tracked_objects] for t in ts]
        env.check(a == b, "the same matches")
        for x, y in zip(*[t.tracked_objects for t in ts]):
            env.check_all_close(x.estimate, y.estimate, "the same estimates")
            env.check((x.last_distance is None) == (y.last_distance is None), "the same last distances")
            if x.last_distance is not None:
                env.check_close(x.last_distance, y.last_distance, "the same last distances", tol=1e-3)
                env.reach("matched")
            elif f and x.age:
                env.reach("unmatched")
    env.observe("objects", [x[:4] for x in a])


def cases(tier):
    q = tier == "quick"
    e = ("matched", "unmatched")
    m = 2 if q else 3
    cs = [Case(f"{w}-own", ways, dict(name=w, how="own", frames=m, n=1, pts=2 if w in ("iou", "mean_manhattan") else 1), expect=e) for w in ("cityblock", "chebyshev", "sqeuclidean", "mean_manhattan", "iou")]
    cs += [Case(f"{w}-function", ways, dict(name=w, how="function", frames=m, n=1, pts=2), expect=e) for w in ("frobenius", "mean_euclidean", "mean_manhattan")]
    cs.append(Case("euclidean-scalar", ways, dict(name="euclidean", how="scalar", frames=2, n=1, pts=2), expect=e))
    cs.append(Case("labels", ways, dict(name="cityblock", how="own", frames=2, n=2, labels=(None, 0, "a"), dim=1), expect=e))
    cs.append(Case("gaps", ways, dict(name="chebyshev", how="own", frames=m + 1, n=1, gaps=True, kind="optimized", delay=1), expect=e))
    cs.append(Case("two", ways, dict(name="cityblock", how="own", frames=2, n=2, dim=1), expect=e))
    cs.append(Case("two-iou", ways, dict(name="iou", how="own", frames=2, n=2, pts=2), expect=e))
    return cs
