"""past_detections: bounded, own, ordered, aged, refreshed."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "one object (and a decoy), histories of up to 8 (quick) / 12 (thorough) frames with symbolic presence, past_detections_length 0..4; one of 40 (150) frames with length 5..7 (5..12); and an object re-identified after a gap of 0, 4, 6 or 8 frames, at once or later, with a memory of 0..13"
BUSY = "all"


def memory(env, frames, lengths=(0, 4), free=99):
    L = env.int("length", *lengths)
    b = Bench(env, distance=lambda d, o: 0.0 if d.data[0] == o.last_detection.data[0] else 9.0, hit_counter_max=3,
              initialization_delay=0, past_detections_length=L)
    mine, frame_of, obj = [], {}, None
    age = 0
    had = []
    for f in range(frames):
        seen = f == 0 or (env.split(env.bool(f"seen{f}")) if f < free else f % 5 != 3)
        d = b.det(f"A{f}")
        dets = [b.det(f"Z{f}")] + ([d] if seen else [])
        b.update(dets)
        if obj is None:
            obj = [o for o in b.objects if o.last_detection is d][0]
        elif all(o is not obj for o in b.objects):
            env.reach("lost")
            break
        else:
            age += 1
        env.check(obj.age == age, "age counts the frames since the object appeared")
        if seen:
            mine.append(d)
            frame_of[id(d)] = age
        past = list(obj.past_detections)
        env.check(len(past) <= L, "never more than past_detections_length")
        ages = [p.age for p in past]
        for p in past:
            env.check(id(p) in frame_of, "only the object's own detections")
            env.check(p.age == frame_of.get(id(p)), "age of a stored detection is the object's age when it was taken")
        env.check(all(x < y for x, y in zip(ages, ages[1:])), "oldest first, no duplicates")
        if bool(L >= len(mine)):
            env.check(len(past) == len(mine), "all detections are kept until the memory is full")
        elif past:
            env.reach("full")
            same = len(past) == len(had) and all(x is y for x, y in zip(past, had))
            env.check(same or seen and all(x is y for x, y in zip(past, had[1:] + [d])), "the detection of the frame takes the place of the oldest one")
            env.check(env.Or(past[-1].age == age, not seen, ages[0] * L > age), "a matched object refreshes its oldest memory in time")
        if len(mine) >= 1 and bool(L > 0):
            env.check(len(past) > 0, "a positive length remembers something")
        had = past
    env.observe("ages", ages)


def merged(env, frames, gap, late=0, lengths=(0, 4)):
    """a re-identified object remembers detections of its own and of the object merged into it, in the order they were taken;
    late: the new object is recognised in this frame of its life or the next ones"""
    L = env.int("length", *lengths)
    delay = 5 if late else 2
    b = Bench(env, distance=lambda d, o: 0.0 if d.data[0] == o.last_detection.data[0] else 9.0, hit_counter_max=delay + 1,
              initialization_delay=delay, past_detections_length=L, reid=lambda n, o: 0.0 if int(n.last_detection.data[1:]) >= late else 9.0,
              reid_distance_threshold=1, reid_hit_counter_max=19)
    taken = []  # detections in the order the object took them
    for f in range(delay + 1):
        d = b.det(f"A{f}")
        out = b.update([d])
        taken.append(d)
    o = out[0]
    for _ in range(gap):
        b.update()
    more = []
    for f in range(frames):
        seen = f < 2 or env.split(env.bool(f"seen{f}"))
        d = b.det(f"B{f}")
        b.update([d] if seen else None)
        if seen:
            more.append(d)
        if o.last_detection.data[0] == "B":
            if seen and o.last_detection is not d and bool(o.hit_counter < 0):
                break  # lost again, the detection is that of a new object
            env.reach("merged")
            every = taken + more
            past = list(o.past_detections)
            env.check(len(past) <= L, "never more than past_detections_length")
            where = [[i for i, d in enumerate(every) if d is p] for p in past]
            env.check(all(len(w) == 1 for w in where), "only the object's own detections")
            env.check(all(x < y for x, y in zip(where, where[1:])), "oldest first, no duplicates")
            env.check(all(p.age <= o.age for p in past), "ages within the object's")
            env.check(all(p.age <= r.age for p, r in zip(past, past[1:])), "ages in order")
            if bool(L >= len(every)):
                env.check(len(past) == len(every), "all detections are kept until the memory is full")
            elif past:
                env.reach("full")
                if seen:
                    env.check(env.Or(past[-1] is d, past[0].age * L > o.age), "a matched object refreshes its oldest memory in time")
    env.observe("past", [str(p.data) for p in o.past_detections])


def cases(tier):
    q = tier == "quick"
    cs = [Case("memory", memory, dict(frames=7 if q else 11), expect=("full",))]
    cs.append(Case("long", memory, dict(frames=40, lengths=(5, 7), free=3) if q else dict(frames=150, lengths=(5, 12), free=5), expect=("full",)))
    for g in (0, 4, 6):
        cs.append(Case(f"merged-{g}", merged, dict(frames=4 if q else 7, gap=g), expect=("merged", "full")))
    cs.append(Case("merged-room", merged, dict(frames=4 if q else 6, gap=0, lengths=(5, 9)), expect=("merged",)))
    cs.append(Case("merged-late", merged, dict(frames=6, gap=8, late=3, lengths=(8, 13) if q else (3, 13)), expect=("merged", "full")))
    return cs
