"""Points scored at or below the detection threshold never influence the estimate of a detected point."""
from ..runner import Case

BOUNDS = "one object with up to 3 points in 2 or 3 dimensions, up to 4 frames, symbolic scores and detection threshold, symbolic coordinates in two runs that differ arbitrarily in the low-score coordinates; all three built-in filters with default parameters"
OUTSIDE = "rounding in float arithmetic (coordinates are exact reals)"
BUSY = "all"


def factory(env, kind):
    nf = env.nf
    if kind == "optimized":
        return nf.OptimizedKalmanFilterFactory(R=4, Q=0.125, pos_variance=10, pos_vel_covariance=0, vel_variance=1)
    if kind == "filterpy":
        return nf.FilterPyKalmanFilterFactory(R=4, Q=0.125, P=10)
    return nf.NoFilterFactory()


def influence(env, kind, pts, dim, frames, idle=()):
    nf = env.nf
    thr = env.real("threshold", -1, 1)
    trackers = [
        nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=20, initialization_delay=0, detection_threshold=thr,
                   filter_factory=factory(env, kind), pointwise_hit_counter_max=3)
        for _ in range(2)
    ]
    seen = [False] * pts
    for f in range(frames):
        if f in idle:
            for t in trackers:
                t.update()
            continue
        over = [env.split(env.bool(f"over{f}_{p}")) for p in range(pts)]
        sc = []
        for p in range(pts):
            s = env.real(f"s{f}_{p}", -2, 2)
            env.assume(s > thr if over[p] else s <= thr)
            sc.append(s)
        co = [[env.real(f"c{f}_{p}_{k}", -50, 50) for k in range(dim)] for p in range(pts)]
        alt = [[co[p][k] if over[p] else env.real(f"z{f}_{p}_{k}", -50, 50) for k in range(dim)] for p in range(pts)]
        outs = [t.update([nf.Detection(env.arr(c), scores=env.arr(sc))]) for t, c in zip(trackers, (co, alt))]
        a, b = outs[0][0], outs[1][0]
        for p in range(pts):
            seen[p] = seen[p] or over[p]
            env.check(bool(a.live_points[p]) == bool(b.live_points[p]), "liveness depends on the scores only")
            if not over[p]:
                env.reach("ignored")
            if seen[p]:
                env.reach("detected")
                env.check_all_close(a.estimate[p], b.estimate[p], "estimate of a detected point ignores low-score coordinates")
                env.check_all_close(a.estimate_velocity[p], b.estimate_velocity[p], "so does its velocity")
    env.observe("estimate", a.estimate)


def cases(tier):
    q = tier == "quick"
    cs = []
    for kind in ("optimized", "none", "filterpy"):
        cs.append(Case(f"{kind}-2x2", influence, dict(kind=kind, pts=2, dim=2, frames=3 if q or kind == "filterpy" else 4), expect=("ignored", "detected")))
        cs.append(Case(f"{kind}-2x2-idle", influence, dict(kind=kind, pts=2, dim=2, frames=4, idle=(1,)), expect=("ignored", "detected")))
        if not (q and kind == "filterpy"):
            cs.append(Case(f"{kind}-3x2", influence, dict(kind=kind, pts=3, dim=2, frames=2 if q else 3), expect=("ignored", "detected")))
            cs.append(Case(f"{kind}-2x3", influence, dict(kind=kind, pts=2, dim=3, frames=2 if q else 3), expect=("ignored", "detected")))
    return cs
