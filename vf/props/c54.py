"""Once all objects are gone a tracker starts afresh."""
from ..runner import Case
from ._twin import Named, state

BOUNDS = "one detection in up to 3 frames of symbolic presence, then frames without until nothing is tracked any more, then up to 4 frames with up to 2 detections of symbolic presence and symbolic distances; with and without ReID, camera movements (throughout, only before, only after) and scores"
OUTSIDE = "the numbers, which go on where they were (compared as such)"


def afresh(env, before, frames, n, reid=None, camera=False, scored=False, nothing=False, hmax=2, delay=1):
    nf = env.nf
    N = Named(env)
    cfg = dict(hit_counter_max=hmax, initialization_delay=delay, past_detections_length=2, pointwise_hit_counter_max=2, reid=reid)
    used, new = N.tracker(**cfg), N.tracker(**cfg)
    C = env.mod("norfair.camera_motion")
    move = lambda f: C.TranslationTransformation(env.arr([env.dyadic(f"m{f}", -9, 9), 1.0])) if camera is True or camera == ("before" if f < 0 else "after") else None
    det = lambda i, f: nf.Detection(env.arr([[5.0 * i, 3.0 * f], [1.0, 2.0]]), data=f"x{i}f{f}",
                                    scores=env.arr([1.0 if env.split(env.bool(f"s{i}f{f}")) else 0.0, 1.0]) if scored else None)
    for f in range(before):
        used.update([] if nothing or not env.split(env.bool(f"before{f}")) else [nf.Detection(env.arr([[1.0, 1.0], [f, 2.0]]), data=f"b{f}")], coord_transformations=move(-1 - f), period=1 + f % 2)
    for _ in range(40):
        if not used.tracked_objects:
            break
        used.update()
    else:
        env.fail("everything is gone in the end")
    ids, inits = used.total_object_count, 0
    for f in range(frames):
        ds = [[det(i, f) for i in range(n) if env.split(env.bool(f"x{i}f{f}"))] for _ in range(2)]
        m = move(f)
        a, b = used.update(ds[0], coord_transformations=m), new.update(ds[1], coord_transformations=m)
        env.check(state(used) == state(new), "the same objects as in a new tracker")
        env.check([o.id for o in a] == [o.id + ids for o in b], "the same ones visible, their ids going on")
        env.check(used.total_object_count == new.total_object_count + ids, "counts go on")
        env.check(used.current_object_count == new.current_object_count, "the same current count")
        for x, y in zip(used.tracked_objects, new.tracked_objects):
            if not f and x is used.tracked_objects[0]:
                inits = x.initializing_id - y.initializing_id
            env.check_all_close(x.estimate, y.estimate, "the same estimates")
            env.check_all_close(x.get_estimate(absolute=camera is True or camera == "after"), y.get_estimate(absolute=camera is True or camera == "after"), "the same estimates as asked for")
            env.check_all_close(x.estimate_velocity, y.estimate_velocity, "the same velocities")
            env.check((x.last_distance is None) == (y.last_distance is None), "the same last distances")
            if x.last_distance is not None:
                env.check(x.last_distance == y.last_distance, "the same last distances")
                env.reach("matched")
        if a:
            env.reach("visible")
    if ids:
        env.reach("used before")
    env.observe("state", [x[:2] for x in state(used)])


def cases(tier):
    q = tier == "quick"
    e = ("visible", "matched", "used before")
    n = 3 if q else 4
    cs = [
        Case("plain", afresh, dict(before=3, frames=n, n=1), expect=e),
        Case("two", afresh, dict(before=2, frames=2, n=2, delay=0), expect=e),
        Case("reid", afresh, dict(before=3, frames=n + 1, n=1, reid=2, delay=0, hmax=1), expect=e),
        Case("camera", afresh, dict(before=2, frames=n, n=1, camera=True, delay=0), expect=e),
        Case("camera-before", afresh, dict(before=2, frames=n, n=1, camera="before", delay=0), expect=e),
        Case("camera-after", afresh, dict(before=2, frames=n, n=1, camera="after", delay=0), expect=e),
        Case("scored", afresh, dict(before=2, frames=3, n=1, scored=True, delay=0), expect=e),
        Case("empty-before", afresh, dict(before=3, frames=n, n=1, nothing=True, delay=0), expect=("visible", "matched")),
    ]
    if not q:
        cs.append(Case("two-reid", afresh, dict(before=2, frames=3, n=2, reid=1, delay=0, hmax=1), expect=e))
    return cs
