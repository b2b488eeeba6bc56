"""The first confident detection of a point is adopted exactly, at rest."""
from ..runner import Case
from .c11 import factory

BOUNDS = "one object with up to 3 points in 2 or 3 dimensions, up to 4 frames (some without detection), symbolic scores and coordinates; all three built-in filters; with a symbolic camera translation per frame; and one object of 2 or 3 points lost and then re-identified by one that has detected any subset of them"
BUSY = "all"
NOT_BUSY = tuple(f"{k}-reborn" for k in ("optimized", "filterpy", "none"))


def adopt(env, kind, pts, dim, frames, idle=(), scored=True, camera=False, hmax=20, period=1):
    nf = env.nf
    thr = env.real("threshold", -1, 1)
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=hmax, initialization_delay=0, detection_threshold=thr,
                   filter_factory=factory(env, kind))
    seen = [False] * pts
    for f in range(frames):
        if f in idle:
            t.update()
            continue
        co = [[env.real(f"c{f}_{p}_{k}", -50, 50) for k in range(dim)] for p in range(pts)]
        over, sc = [True] * pts, None
        if scored:
            over = [env.split(env.bool(f"over{f}_{p}")) for p in range(pts)]
            sc = []
            for p in range(pts):
                s = env.real(f"s{f}_{p}", -2, 2)
                env.assume(s > thr if over[p] else s <= thr)
                sc.append(s)
            sc = env.arr(sc)
        kw = {}
        if camera:
            mv = [env.real(f"m{f}_{k}", -50, 50) for k in range(dim)]
            kw["coord_transformations"] = env.mod("norfair.camera_motion").TranslationTransformation(env.arr(mv))
        if f == 0:
            kw["period"] = period
        o = t.update([nf.Detection(env.arr(co), scores=sc)], **kw)[0]
        env.check(o.estimate.shape == (pts, dim), "estimates have the shape of the detections")
        for p in range(pts):
            if over[p] and not seen[p]:
                env.reach("first" if f else "initial")
                env.check_all_close(o.estimate[p], co[p], "the first detection of a point is adopted exactly")
                env.check_all_close(o.estimate_velocity[p], [0] * dim, "with no velocity")
            seen[p] = seen[p] or over[p]
    env.observe("estimate", o.estimate)
    env.observe("velocity", o.estimate_velocity)


def reborn(env, kind, pts):
    """after re-identification, the points not detected since the object turned up again are to be detected anew"""
    nf = env.nf
    t = nf.Tracker(lambda d, o: 0.0 if d.data == o.last_detection.data else 9.0, distance_threshold=1, hit_counter_max=4, initialization_delay=2, filter_factory=factory(env, kind),
                   reid_distance_function=lambda a, b: 0.0, reid_distance_threshold=1, reid_hit_counter_max=10)
    dim = 2

    def frame(f, over, data):
        co = [[env.real(f"c{f}_{p}_{k}", -50, 50) for k in range(dim)] for p in range(pts)]
        return t.update([nf.Detection(env.arr(co), scores=env.arr([1.0 if x else 0.0 for x in over]), data=data)]), co

    was = [env.split(env.bool(f"was{p}")) for p in range(pts)]
    for f in range(3):
        out, _ = frame(f, was, "old")
    env.check(len(out) == 1, "one object")
    o = out[0]
    while t.update():
        pass
    since = [False] * pts
    for f in range(3, 6):
        over = [env.split(env.bool(f"over{f}_{p}")) for p in range(pts)]
        out, co = frame(f, over, "new")
        if f == 4:
            env.check(len(out) == 1 and out[0] is o and o.id == 1, "re-identified")
            env.reach("re-identified")
        for p in range(pts):
            if over[p] and not since[p] and f >= 4:
                env.check_all_close(o.estimate[p], co[p], "the first detection of a point is adopted exactly")
                env.check_all_close(o.estimate_velocity[p], [0] * dim, "with no velocity")
                env.reach("anew")
            since[p] = since[p] or over[p]
    env.observe("estimate", o.estimate)


def cases(tier):
    q = tier == "quick"
    cs = []
    for kind in ("optimized", "none", "filterpy"):
        e = ("first", "initial")
        cs.append(Case(f"{kind}-2x2", adopt, dict(kind=kind, pts=2, dim=2, frames=3), expect=e))
        cs.append(Case(f"{kind}-2x2-idle", adopt, dict(kind=kind, pts=2, dim=2, frames=4, idle=(1, 2)), expect=e))
        cs.append(Case(f"{kind}-late", adopt, dict(kind=kind, pts=2, dim=2, frames=7, idle=(1, 2, 3, 5), hmax=3, period=3), expect=e))
        cs.append(Case(f"{kind}-camera", adopt, dict(kind=kind, pts=2, dim=2, frames=2 if q else 3, camera=True), expect=e))
        cs.append(Case(f"{kind}-reborn", reborn, dict(kind=kind, pts=2 if q or kind == "filterpy" else 3), expect=("re-identified", "anew")))
        cs.append(Case(f"{kind}-unscored", adopt, dict(kind=kind, pts=2, dim=2, frames=2, scored=False), expect=e[1:]))
        if not (q and kind == "filterpy"):
            cs.append(Case(f"{kind}-3x2", adopt, dict(kind=kind, pts=3, dim=2, frames=2 if q else 3), expect=e))
            cs.append(Case(f"{kind}-2x3", adopt, dict(kind=kind, pts=2, dim=3, frames=2 if q else 3), expect=e))
    return cs
