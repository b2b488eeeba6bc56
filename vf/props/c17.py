"""Trackers do not influence each other."""
from ..runner import Case
from .c11 import factory

BOUNDS = "three trackers (one earlier, two interleaved) versus one alone in a program of its own: up to 5 (quick) / 7 (thorough) frames, symbolic presence, symbolic positions, shared distance function, shared, default or differently parametrised filter factories, with and without ReID and coordinate transformations"


def tagged(d, o):
    return 0.0 if d.data[0] == o.last_detection.data[0] else 9.0


def isolation(env, frames, mode, kind=None):
    """one tracker alone in a program of its own, and the same one in a program with other trackers before and in between"""
    x0, y0 = env.real("x0", -10, 10), env.real("y0", -10, 10)
    script = [(env.split(env.bool(f"P{f}")), env.split(env.bool(f"Q{f}"))) for f in range(frames)]

    def program():
        """a maker of trackers in a freshly loaded norfair"""
        env._nf = None
        env.fresh_world()
        nf = env.nf
        fac = factory(env, kind) if kind and mode != "parameters" else None

        shared = env.mod("norfair.distances").ScalarDistance(tagged)

        def make(other=False):
            kw = dict(distance_threshold=1, hit_counter_max=3, initialization_delay=1, past_detections_length=2)
            if fac is not None:
                kw["filter_factory"] = fac
            if mode == "parameters":
                P = (9.0, 0.5, 3.0) if other else (2.0, 0.25, 5.0)
                kw["filter_factory"] = (nf.FilterPyKalmanFilterFactory if kind == "filterpy" else nf.OptimizedKalmanFilterFactory)(*P)
            if mode == "reid":
                kw.update(reid_distance_function=lambda n, o: 0.0, reid_distance_threshold=1, reid_hit_counter_max=3)
            t = nf.Tracker(tagged, **kw)
            if mode == "distance":
                t.distance_function = shared
            return t

        return make

    def dets(names, f, scale):
        return [env.nf.Detection(env.arr([[x0 * scale + f, y0 + 2 * f + 5 * k]]), data=f"{s}{f}") for k, s in enumerate(names)]

    def coord(f):
        if mode != "camera":
            return None
        return env.mod("norfair.camera_motion").TranslationTransformation(env.arr([x0 * f, 1.0]))

    def look(t, out):
        return ([(o.id, o.age, o.hit_counter, o.last_detection.data, [str(p.data) for p in o.past_detections], [p.age for p in o.past_detections])
                 for o in out], [(o.estimate, o.estimate_velocity) for o in out], t.total_object_count, t.current_object_count,
                [(o.id, o.initializing_id, o.hit_counter, o.age) for o in t.tracked_objects])

    def step(t, f):
        return look(t, t.update(dets(["P"] if script[f][0] else [], f, 1), coord_transformations=coord(f)))

    make = program()
    alone = make()
    ref = [step(alone, f) for f in range(frames)]
    make = program()
    held, gids = [], set()
    earlier = make(True)
    for f in range(2):
        earlier.update(dets(["P", "Q"], f, 2))
    first, second = make(), make(True)
    for f in range(frames):
        names = ["P", "Q"] if script[f][1] else []
        if f % 2 == 0:
            second.update(dets(names, f, 3))
        got = step(first, f)
        if f % 2 == 1:
            second.update(dets(names, f, 3))
        r = ref[f]
        env.check(got[0] == r[0], "the same objects as alone")
        env.check(got[2:] == r[2:], "the same counts as alone")
        for (e1, v1), (e2, v2) in zip(got[1], r[1]):
            env.check_all_close(e1, e2, "the same estimates as alone")
            env.check_all_close(v1, v2, "the same velocities as alone")
            env.reach("visible")
        for t in (first, second, earlier):
            for o in t.tracked_objects:
                if o.global_id is not None:
                    held.append(o)
                    gids.add((o.global_id, id(o)))
    env.check(len({g for g, _ in gids}) == len({i for _, i in gids}), "global ids are unique")
    env.observe("objects", [list(map(str, x)) for x in got[0]])


def cases(tier):
    q = tier == "quick"
    n = 4 if q else 5
    return [
        Case("default", isolation, dict(frames=n, mode="plain"), expect=("visible",)),
        Case("shared-factory", isolation, dict(frames=3, mode="plain", kind="optimized"), expect=("visible",)),
        Case("shared-filterpy", isolation, dict(frames=3, mode="plain", kind="filterpy"), expect=("visible",)),
        Case("shared-distance", isolation, dict(frames=3, mode="distance"), expect=("visible",)),
        Case("parameters", isolation, dict(frames=3, mode="parameters"), expect=("visible",)),
        Case("parameters-filterpy", isolation, dict(frames=3, mode="parameters", kind="filterpy"), expect=("visible",)),
        Case("reid", isolation, dict(frames=n, mode="reid"), expect=("visible",)),
        Case("camera", isolation, dict(frames=3, mode="camera"), expect=("visible",)),
    ]
