"""Survival: the hit counter is capped, falls by one per frame, and an object disappears exactly when it goes below zero."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "two independent detection streams, histories of up to 5 (quick) / 7 (thorough) frames with symbolic presence; one stream with symbolic periods 1..4; hit_counter_max 1..8; the same with ReID configured (hit_counter_max 1..3, window 1..3) and nothing close enough to re-identify; and larger: histories of 310 frames whose beginning is fixed"
BUSY = ("survival-1", "reid-1", "periods")


def survival(env, frames, streams, periods, warm=0):
    """warm: so many frames with a detection before the symbolic ones"""
    if warm:
        H, D = env.choice("configuration", [(15, 7), (300, 150), (1000, 20)])
    else:
        H = env.int("hit_counter_max", 1, 8)
        D = env.int("delay", 0, 7)
        env.assume(D < H)
    b = Bench(env, distance=lambda d, o: 0.0 if d.data[0] == o.last_detection.data[0] else 9.0, hit_counter_max=H,
              initialization_delay=D)
    spec = {}  # stream -> (object, counter)
    born = {}
    for f in range(warm + frames):
        p = 1
        if periods and f >= warm:
            p = env.int(f"p{f}", 1, 4)
            env.assume(p <= H)
        seen = {s: f < warm or env.split(env.bool(f"{s}{f}")) for s in "XY"[:streams]}
        b.update([b.det(f"{s}{f}") for s in seen if seen[s]], period=p)
        held = b.objects
        total = 0
        for s in seen:
            cur = spec.get(s)
            if cur is not None and not bool(cur[1] >= 0):
                env.check(all(o is not cur[0] for o in held), "an object whose counter fell below zero is gone")
                env.reach("dropped")
                cur = None
            if cur is None:
                if not seen[s]:
                    spec[s] = None
                    continue
                new = [o for o in held if o.last_detection.data == f"{s}{f}"]
                env.check(len(new) == 1, "the first detection of a stream starts an object")
                spec[s] = (new[0], p)
                born[s] = f
            else:
                o, hc = cur
                env.check(sum(1 for x in held if x is o) == 1, "an object whose counter is not below zero is still held")
                hc = hc - 1
                if seen[s]:
                    hc = env.min(hc + 2 * p, H)
                    env.check(o.last_detection.data == f"{s}{f}", "matched")
                    env.reach("matched")
                spec[s] = (o, hc)
            total += 1
            o, hc = spec[s]
            env.check(o.hit_counter == hc, "hit counter: one less per frame, two periods more per match, capped")
            env.check(o.age == f - born[s], "age counts the updates since the object appeared")
            env.check(o.hit_counter <= H, "hit counter never above its maximum")
            if seen[s]:
                env.check(o.hit_counter >= 0, "a just matched object is alive")
        env.check(len(held) == total, "nothing else is held")
    env.observe("held", len(b.objects))


def lifetime(env, frames):
    """an object with a full counter survives exactly hit_counter_max + 1 unmatched frames"""
    H = env.int("hit_counter_max", 1, frames - 2) if frames < 100 else frames - 20
    b = Bench(env, distance=lambda d, o: 0.0, hit_counter_max=H, initialization_delay=0)
    b.update([b.det("a")])
    hits = 2 if frames < 100 else frames
    for i in range(hits):
        b.update([b.det("b%d" % i)])
    o = b.objects[0]
    start = o.hit_counter
    env.check(start == env.min(1 + hits, H), "counter after three matches in a row")
    for f in range(frames):
        out = b.update()
        env.check(env.Iff(f < start, len(out) == 1), "visible for exactly as many unmatched frames as its counter")
        env.check(env.Iff(f <= start, len(b.objects) == 1), "held until its counter has gone below zero")
        env.reach("visible" if len(out) else "gone")
        env.check(o.age == 1 + hits + f if b.objects else True, "age counts the frames")


def with_reid(env, frames, streams):
    """the same counters with re-identification configured (and nothing to re-identify), while lost objects are held"""
    H = env.int("hit_counter_max", 1, 3)
    D = env.int("delay", 0, 2)
    env.assume(D < H)
    R = env.int("reid_max", 1, 3)
    b = Bench(env, distance=lambda d, o: 0.0 if d.data[0] == o.last_detection.data[0] else 9.0, hit_counter_max=H,
              initialization_delay=D, reid=lambda n, o: 9.0, reid_distance_threshold=1, reid_hit_counter_max=R)
    known = []  # [object, counter, age, stream, confirmed]
    for f in range(frames):
        seen = [s for s in "XY"[:streams] if env.split(env.bool(f"{s}{f}"))]
        b.update([b.det(f"{s}{f}") for s in seen])
        held = b.objects
        free = list(seen)
        for k in known:
            k[2] = k[2] + 1
            alive = bool(k[1] >= 0)
            k[1] = k[1] - 1
            if k[3] in seen and alive:
                k[1] = env.min(k[1] + 2, H)
                free.remove(k[3])
        for s in free:
            new = [o for o in held if o.last_detection.data == f"{s}{f}"]
            env.check(len(new) == 1, "a detection no living object of its stream takes starts an object")
            known.append([new[0], 1, 0, s])
        for o, hc, age, s in known:
            if any(o is x for x in held):
                env.check(o.hit_counter == hc, "hit counter: one less per frame, two more per match, capped")
                env.check(o.age == age, "age counts the updates since the object appeared")
                env.reach("alive" if bool(hc >= 0) else "lost")
            else:
                env.check(hc < -1, "an object whose counter was not below zero is held")
        env.check(all(any(o is k[0] for k in known) for o in held), "nothing else is held")
    env.observe("held", len(b.objects))


def cases(tier):
    q = tier == "quick"
    return [
        Case("survival-2", survival, dict(frames=4 if q else 5, streams=2, periods=False), expect=("matched", "dropped")),
        Case("survival-1", survival, dict(frames=6 if q else 9, streams=1, periods=False), expect=("matched", "dropped")),
        Case("periods", survival, dict(frames=5 if q else 6, streams=1, periods=True), expect=("matched", "dropped")),
        Case("long", survival, dict(frames=3 if q else 6, streams=1, periods=False, warm=310), expect=("matched",)),
        Case("long-life", lifetime, dict(frames=300), expect=("visible", "gone")),
        Case("reid-1", with_reid, dict(frames=7 if q else 9, streams=1), expect=("alive", "lost")),
        Case("reid-2", with_reid, dict(frames=4 if q else 5, streams=2), expect=("alive", "lost")),
        Case("lifetime", lifetime, dict(frames=8 if q else 20), expect=("visible", "gone")),
    ]
