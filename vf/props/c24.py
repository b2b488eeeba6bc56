"""Between detections an object moves by its velocity, one step per frame."""
from ..runner import Case
from .c11 import factory

BOUNDS = "one object of up to 3 points in 2 or 3 dimensions, 2 or 3 detections with symbolic positions up to 10^6, then up to 4 frames without; points may be undetected; all three filters; frames skipped with period or simply missed; also while lost within the ReID window, with or without other detections"
BUSY = "all"

BIG = 10**6  # coordinates and velocities


def extrapolate(env, kind, pts, dim, hits, idle, scored=False, reid=False, others=False):
    nf = env.nf
    t = nf.Tracker(lambda d, o: 0.0 if d.data == "one" else 5.0, distance_threshold=1, hit_counter_max=2 if reid else 12, initialization_delay=0, filter_factory=factory(env, kind),
                   **(dict(reid_distance_function=lambda a, b: 9.0, reid_distance_threshold=1, reid_hit_counter_max=idle) if reid else {}))
    for f in range(hits):
        co = [[env.real(f"c{f}_{p}_{k}", -BIG, BIG) for k in range(dim)] for p in range(pts)]
        sc = None
        if scored:
            sc = env.arr([1.0 if env.split(env.bool(f"over{f}_{p}")) else 0.0 for p in range(pts)])
        t.update([nf.Detection(env.arr(co), scores=sc, data="one")], period=1 if reid else 4)
    o = t.tracked_objects[0]
    n = pts * dim
    for f in range(idle):
        pos, vel = env.flat(o.estimate), env.flat(o.estimate_velocity)
        age = o.age
        env.check(len(pos) == n and len(vel) == n, "sizes")
        if others and env.split(env.bool(f"other{f}")):
            # something else is there, of its class or of another
            out = t.update([nf.Detection(env.arr([[1.0] * dim] * pts), data="other", label=env.choice(f"label{f}", [None, "a"]))])
            out = [x for x in out if x is o]
            env.reach("others")
        else:
            out = [x for x in t.update() if x is o]
        if reid:
            env.check(any(x is o for x in t.tracked_objects), "still there to be re-identified")
            if not out:
                env.reach("lost")
        else:
            env.check(len(out) == 1 and out[0] is o, "still there")
        env.check_all_close(o.estimate, [p + v for p, v in zip(pos, vel)], "moves by its velocity")
        env.check_all_close(o.estimate_velocity, vel, "which stays")
        env.check(o.age == age + 1, "and ages by one frame")
        env.reach("moved")
    env.observe("estimate", o.estimate)


def coast(env, kind, pts, dim, frames):
    """a matched object's points that have been detected before, but not confidently in this frame, move by their velocity"""
    nf = env.nf
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=12, initialization_delay=0, filter_factory=factory(env, kind))
    seen = [False] * pts
    for f in range(frames):
        co = [[env.real(f"c{f}_{p}_{k}", -BIG, BIG) for k in range(dim)] for p in range(pts)]
        over = [env.split(env.bool(f"over{f}_{p}")) for p in range(pts)]
        if f:
            pos = [env.flat(r) for r in o.estimate]
            vel = [env.flat(r) for r in o.estimate_velocity]
        out = t.update([nf.Detection(env.arr(co), scores=env.arr([1.0 if x else 0.0 for x in over]))])
        env.check(len(out) == 1, "one object")
        o = out[0]
        env.check(o.estimate.shape == (pts, dim) and o.estimate_velocity.shape == (pts, dim), "a row per point, a column per dimension")
        for p in range(pts):
            if seen[p] and not over[p]:
                env.check_all_close(o.estimate[p], [x + v for x, v in zip(pos[p], vel[p])], "a point not detected in this frame moves by its velocity")
                env.check_all_close(o.estimate_velocity[p], vel[p], "which stays")
                env.reach("coasts" if any(over) else "all coast")
            seen[p] = seen[p] or over[p]
    env.observe("estimate", o.estimate)


def steady(env, kind, frames):
    """an object moving steadily is never lost: after a match at constant velocity the prediction error shrinks"""
    nf = env.nf
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=12, initialization_delay=0, filter_factory=factory(env, kind))
    v = [env.real("v0", -BIG, BIG), env.real("v1", -BIG, BIG)]
    x = [env.real("x0", -BIG, BIG), env.real("x1", -BIG, BIG)]
    prev = None
    for f in range(frames):
        out = t.update([nf.Detection(env.arr([[x[0] + f * v[0], x[1] + f * v[1]]]))])
        o = out[0]
        err = o.estimate[0, 0] - (x[0] + f * v[0])
        env.check(env.And(err <= env.max(v[0], -v[0]) + 1e-4, -err <= env.max(v[0], -v[0]) + 1e-4), "the estimate lags by less than one step")
        env.reach("steady")
    env.observe("err", err)


def cases(tier):
    q = tier == "quick"
    cs = []
    for k in ("optimized", "none", "filterpy"):
        cs.append(Case(f"{k}-1x2", extrapolate, dict(kind=k, pts=1, dim=2, hits=2 if k == "filterpy" else 3, idle=4), expect=("moved",)))
        cs.append(Case(f"{k}-lost", extrapolate, dict(kind=k, pts=1, dim=2, hits=2, idle=5, reid=True), expect=("moved", "lost")))
        cs.append(Case(f"{k}-others", extrapolate, dict(kind=k, pts=1, dim=2, hits=2, idle=4 if q else 5, reid=True, others=True), expect=("moved", "lost", "others")))
        cs.append(Case(f"{k}-2x2", extrapolate, dict(kind=k, pts=2, dim=2, hits=2, idle=2, scored=True), expect=("moved",)))
        cs.append(Case(f"{k}-2x3", extrapolate, dict(kind=k, pts=1 if k == "filterpy" else 2, dim=3, hits=2, idle=2), expect=("moved",)))
        cs.append(Case(f"{k}-3x2", extrapolate, dict(kind=k, pts=3, dim=2, hits=2, idle=2), expect=("moved",)))
        cs.append(Case(f"{k}-3x3", extrapolate, dict(kind=k, pts=3, dim=3, hits=2, idle=2), expect=("moved",)))
        cs.append(Case(f"{k}-coast", coast, dict(kind=k, pts=2, dim=2, frames=3 if q else 4), expect=("coasts", "all coast")))
    for k in ("optimized", "filterpy"):
        cs.append(Case(f"{k}-steady", steady, dict(kind=k, frames=4 if q else 6), expect=("steady",)))
    return cs
