"""Shifting every detection by the same amount shifts every estimate by that amount and changes nothing else."""
from ..runner import Case
from .c11 import factory

BOUNDS = "up to 2 objects and 3 frames, symbolic positions, displacement (up to 1000, up to 2^27 in the far cases) and threshold; distances mean_manhattan, cityblock, sqeuclidean, chebyshev and a user-supplied one; all three filters; scored or unscored detections"
OUTSIDE = "float rounding (exact reals)"
BUSY = "all"


def shifted(env, dist, kind, frames, nd, pts, dim=2, scored=False, big=1000):
    nf = env.nf
    T = env.dyadic("threshold", 0, 32)
    shift = [env.real(f"shift{k}", -big, big) for k in range(dim)]
    fn = dist
    if dist == "user":
        fn = lambda d, o: abs(d.points[0][0] - o.estimate[0][0])
    ts = [nf.Tracker(fn, distance_threshold=T, hit_counter_max=4, initialization_delay=0, filter_factory=factory(env, kind)) for _ in range(2)]
    outs = None
    for f in range(frames):
        co = [[[env.real(f"c{f}_{i}_{p}_{k}", -16, 16) for k in range(dim)] for p in range(pts)] for i in range(nd)]
        outs = []
        sc = [[1.0 if env.split(env.bool(f"over{f}_{i}_{p}")) else 0.0 for p in range(pts)] if scored else None for i in range(nd)]
        for t, on in zip(ts, (False, True)):
            outs.append(t.update([
                nf.Detection(env.arr([[x + (s if on else 0) for x, s in zip(row, shift)] for row in c]), data=i, scores=None if sc[i] is None else env.arr(sc[i]))
                for i, c in enumerate(co)
            ]))
        a, b = outs
        env.check([o.id for o in a] == [o.id for o in b], "the same ids")
        for x, y in zip(a, b):
            env.check(x.last_detection.data == y.last_detection.data, "the same matches")
            env.check(x.hit_counter == y.hit_counter, "the same counters")
            env.check_all_close(y.estimate, [[v + s for v, s in zip(row, shift)] for row in x.estimate], "estimates shifted")
            env.check_all_close(y.estimate_velocity, x.estimate_velocity, "velocities unchanged")
            if f and x.age:
                env.reach("matched")
        if f and len(a) > nd:
            env.reach("unmatched")
    env.observe("ids", [o.id for o in outs[0]])


def cases(tier):
    q = tier == "quick"
    e = ("matched", "unmatched")
    cs = []
    for d in ("mean_manhattan", "cityblock", "user", "chebyshev"):
        cs.append(Case(f"{d}-optimized", shifted, dict(dist=d, kind="optimized", frames=2, nd=1, pts=2), expect=e))
    cs.append(Case("sqeuclidean-optimized", shifted, dict(dist="sqeuclidean", kind="optimized", frames=2, nd=1, pts=1), expect=e))
    cs.append(Case("two-objects", shifted, dict(dist="user", kind="optimized", frames=2, nd=2, pts=1), expect=e))
    for k in ("optimized", "filterpy", "none"):
        cs.append(Case(f"far-{k}", shifted, dict(dist="cityblock", kind=k, frames=2, nd=1, pts=1, big=2**27), expect=e))
    for k in ("filterpy", "none"):
        cs.append(Case(f"user-{k}", shifted, dict(dist="user", kind=k, frames=2 if k == "filterpy" else 3, nd=1, pts=1), expect=e))
    cs.append(Case("three-frames", shifted, dict(dist="user", kind="optimized", frames=3, nd=1, pts=2), expect=e))
    cs.append(Case("three-dim", shifted, dict(dist="mean_manhattan", kind="optimized", frames=2, nd=1, pts=1, dim=3), expect=e))
    for k in ("optimized", "none"):
        cs.append(Case(f"scored-{k}", shifted, dict(dist="user", kind=k, frames=2, nd=1, pts=2, scored=True), expect=e))
    if not q:
        cs.append(Case("cityblock-two", shifted, dict(dist="cityblock", kind="optimized", frames=2, nd=2, pts=1), expect=e))
        cs.append(Case("user-two-three", shifted, dict(dist="user", kind="none", frames=3, nd=2, pts=1), expect=e))
    return cs
