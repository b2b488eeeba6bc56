"""Live points."""
from ..runner import Case

BOUNDS = "one object of up to 2 points, histories of up to 6 (quick) / 8 (thorough) frames in which each point is confidently detected, not confident, or the whole object is unmatched; pointwise_hit_counter_max 1..4; symbolic score values and threshold; periods 1..3; NoFilter also of objects lost to the ReID window (the counters do not depend on the filter, C11 and C12 decide the estimates); and larger: 13 points (68 thorough), one of them symbolic"
BUSY = ("two-points",)


def live(env, frames, pts, periods=False, sym=9, lost=False):
    nf = env.nf
    env.split_ite()
    thr = env.real("threshold", -1, 1)
    M = env.int("pointwise", 1, 4)
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=1 if lost else 30, initialization_delay=0, detection_threshold=thr, filter_factory=nf.NoFilterFactory(),
                   pointwise_hit_counter_max=M, **(dict(reid_distance_function=lambda a, b: 9.0, reid_distance_threshold=1, reid_hit_counter_max=20) if lost else {}))
    last = [None] * pts  # frame of the last confident detection
    run = [0] * pts  # consecutive frames of confident detections
    top = M
    low = env.real("low", -2, 2)
    env.assume(low <= thr)
    for k in range(frames):  # the object is known, its points are not
        t.update([nf.Detection(env.arr([[float(i), 2.0] for i in range(pts)]), scores=env.arr([low] * pts))])
    env.check(not bool(t.tracked_objects[0].live_points.any()), "no point has been detected")
    for f in range(frames):
        p = 1
        if periods:
            p = env.int(f"p{f}", 1, 3)
        det = lost != "now" and (bool(lost and f < 3) or env.split(env.bool(f"det{f}")))
        if det:
            over = [(bool(lost and f < 3) or env.split(env.bool(f"over{f}_{i}"))) if i >= pts - sym else (i + f) % 3 > 0 for i in range(pts)]
            sc = []
            for i in range(pts):
                s = env.real(f"s{f}_{i}", -2, 2) if i >= pts - sym else thr + 0.5 if over[i] else thr - i % 2
                env.assume(s > thr if over[i] else s <= thr)
                sc.append(s)
            out = t.update([nf.Detection(env.arr([[float(i), 2.0] for i in range(pts)]), scores=env.arr(sc))], period=p)
        else:
            over = [False] * pts
            out = t.update()
        o = t.tracked_objects[0]
        if not out:
            env.reach("lost")
            lost = "now"
        lp = o.live_points
        env.check(lp.shape == (pts,), "one flag per point")
        for i in range(pts):
            if over[i]:
                run[i] = run[i] + 1 if last[i] == f - 1 else 1
                last[i] = f
                env.check(bool(lp[i]), "a point confidently detected in this frame is live")
                env.reach("live")
            else:
                if last[i] is None:
                    env.check(not bool(lp[i]), "a point never confidently detected is not live")
                else:
                    gone = f - last[i]
                    env.check(env.Implies(gone >= top, env.Not(lp[i])), "a point not detected for as many frames as the maximum is stale")
                    if not periods:
                        env.check(env.Implies(env.And(run[i] >= M, gone < M), lp[i]), "a point with full inertia stays live for it")
                    env.reach("stale" if not bool(lp[i]) else "still live")
    env.observe("live", lp)


def cases(tier):
    q = tier == "quick"
    e = ("live", "stale", "still live")
    return [
        Case("one-point", live, dict(frames=5 if q else 7, pts=1), expect=e),
        Case("two-points", live, dict(frames=3 if q else 4, pts=2), expect=e),
        Case("many-points", live, dict(frames=3 if q else 4, pts=13 if q else 68, sym=1), expect=e),
        Case("lost", live, dict(frames=7 if q else 8, pts=1, lost=True), expect=e + ("lost",)),
        Case("periods", live, dict(frames=4 if q else 5, pts=1, periods=True), expect=e[:1]),
    ]
