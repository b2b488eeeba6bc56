"""What the distance functions are given."""
from ..runner import Case
from .c11 import factory

BOUNDS = ("histories of up to 4 (5 thorough) frames with up to 2 detections (3 in single updates) of symbolic presence and coordinates, symbolic distances, with and without labels, camera movements and ReID, all filters; "
          "the objects are looked at when the distance function is called")
OUTSIDE = "the order in which the pairs of one update are asked for, and how often"


def distances(env, kind, frames, n, camera=False, reid=None, delay=1, hmax=3, labels=(None,), dim=2, fixed=0):
    nf = env.nf
    C = env.mod("norfair.camera_motion")
    calls, rcalls, dist = [], [], {}
    serial, keep = {}, []

    def num(o):
        if id(o) not in serial:
            serial[id(o)] = len(serial)
            keep.append(o)
        return serial[id(o)]

    def d(det, obj):
        k = (f, str(det.data), num(obj))
        if k not in dist:
            dist[k] = 0.25 if f < fixed or env.split(env.bool(f"near_{k[0]}_{k[1]}_{k[2]}")) else 2.0
        calls.append((det, obj, [list(r) for r in obj.estimate], obj.age, obj.hit_counter, obj.last_detection, obj.id, obj.is_initializing,
                      [list(r) for r in obj.get_estimate(absolute=True)] if camera else None, [list(r) for r in det.absolute_points]))
        return dist[k]

    def r(new, old):
        rcalls.append((new, old, new.id, old.id, new.last_detection, [list(x) for x in old.get_estimate(absolute=camera)]))
        return 0.5 if env.split(env.bool(f"same_{f}_{num(new)}_{num(old)}")) else 2.0

    kw = dict(reid_distance_function=r, reid_distance_threshold=1, reid_hit_counter_max=reid) if reid else {}
    t = nf.Tracker(d, distance_threshold=1, hit_counter_max=hmax, initialization_delay=delay, filter_factory=factory(env, kind), **kw)
    for f in range(frames):
        mv = [env.real(f"m{f}_{k}", -50, 50) for k in range(dim)] if camera else [0] * dim
        tr = C.TranslationTransformation(env.arr(mv)) if camera else None
        co = {i: [[env.real(f"c{f}_{i}_{k}", -50, 50) for k in range(dim)]] for i in range(n)}
        dets = [nf.Detection(env.arr(co[i]), data=f"x{i}f{f}", label=env.choice(f"label{f}{i}", list(labels)) if len(labels) > 1 else None) for i in range(n) if f < fixed or env.split(env.bool(f"seen{f}{i}"))]
        before = {num(o): (o, [list(x) for x in o.get_estimate(absolute=camera)], [list(x) for x in o.estimate_velocity], o.age, o.hit_counter, o.last_detection, o.id, o.label, o.reid_hit_counter) for o in t.tracked_objects}
        calls.clear(), rcalls.clear()
        out = t.update(list(dets), coord_transformations=tr)
        asked = set()
        for det, obj, est, age, hits, last, oid, init, ab, dab in calls:
            env.check(any(det is x for x in dets), "a detection of this update comes first")
            env.check(num(obj) in before, "then an object from before it")
            o, e0, v0, a0, h0, l0, i0, lab, _ = before[num(obj)]
            env.check(h0 >= 0, "which is not lost")
            env.check(det.label == lab, "of the same label")
            env.check(last is l0 and oid == i0, "as it was left by the update before")
            env.check(age == a0 + 1 and hits == h0 - 1, "one frame older")
            want = [[x + v for x, v in zip(p, q)] for p, q in zip(e0, v0)]
            env.check_all_close(est, [[x + y for x, y in zip(p, mv)] for p in want], "where it is predicted to be in this frame")
            if camera:
                env.check_all_close(ab, want, "(in absolute coordinates too)")
            env.check_all_close(dab, [[x - y for x, y in zip(p, mv)] for p in co[int(det.data[1])]], "with the detection's absolute position in this frame")
            env.check_all_close(det.points, co[int(det.data[1])], "and its points")
            asked.add((str(det.data), num(obj)))
        # every pair that could match has been asked for: confirmed objects for all detections, tentative ones for those left over
        taken = {str(o.last_detection.data) for o in keep if o.id is not None and num(o) in before and before[num(o)][6] is not None and dist.get((f, str(o.last_detection.data), num(o)), 9) < 1}
        for det in dets:
            for k, (o, *_, h0, l0, i0, lab, rh) in before.items():
                if h0 >= 0 and lab == det.label:
                    if i0 is not None:
                        env.check((str(det.data), k) in asked, "confirmed objects are compared with all detections")
                        env.reach("confirmed")
                    elif str(det.data) not in taken:
                        env.check((str(det.data), k) in asked, "tentative objects with those that are left over")
                        env.reach("tentative")
                    else:
                        env.reach("taken")
        pairs = set()
        for new, old, ni, oi, last, est in rcalls:
            env.reach("reid")
            env.check(num(new) in before and num(old) in before, "objects from before")
            env.check(before[num(new)][6] is None and any(last is x for x in dets), "a tentative object that has just been matched comes first")
            env.check(before[num(old)][6] is not None and oi is not None, "then one that was confirmed")
            env.check(before[num(old)][7] == before[num(new)][7], "of the same label")
            # it has not been matched in this update
            env.check_all_close(est, [[x + v for x, v in zip(p, q)] for p, q in zip(*before[num(old)][1:3])], "and is not matched")
            if before[num(old)][4] < 0:
                env.reach("lost")
            pairs.add((num(new), num(old)))
    env.observe("out", [o.id for o in out])


def cases(tier):
    q = tier == "quick"
    e = ("confirmed", "tentative")
    cs = [
        Case("one", distances, dict(kind="optimized", frames=4 if q else 5, n=1), expect=e),
        Case("old", distances, dict(kind="optimized", frames=6 if q else 7, n=1, fixed=2, hmax=2), expect=("confirmed",)),
        Case("two", distances, dict(kind="none", frames=2, n=2, delay=0), expect=("confirmed",)),
        Case("taken", distances, dict(kind="none", frames=3, n=2), expect=e),
        Case("camera", distances, dict(kind="optimized", frames=3, n=1, camera=True), expect=e),
        Case("camera-filterpy", distances, dict(kind="filterpy", frames=2 if q else 3, n=1, camera=True, delay=0), expect=("confirmed",)),
        Case("filterpy", distances, dict(kind="filterpy", frames=3, n=1, dim=3), expect=("tentative",)),
        Case("labels", distances, dict(kind="none", frames=3, n=1, labels=(None, 0, "a")), expect=e),
        Case("reid", distances, dict(kind="none", frames=5 if q else 6, n=1, reid=3, hmax=2), expect=e + ("reid",)),
        Case("reid-lost", distances, dict(kind="none", frames=7 if q else 8, n=1, reid=3, hmax=2, fixed=2), expect=e + ("reid", "lost")),
        Case("reid-two", distances, dict(kind="none", frames=3 if q else 4, n=2, reid=3, hmax=2), expect=e),
        Case("reid-camera", distances, dict(kind="optimized", frames=4 if q else 5, n=1, reid=3, hmax=2, camera=True), expect=e),
    ]
    return cs
