"""Re-identification window, and no effect of the ReID timers on objects that are being matched."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "window: one object, hit_counter_max 1..4, reid_hit_counter_max 0..4, up to 12 frames; non-interference: two detection streams with symbolic presence over up to 6 (quick) / 8 (thorough) frames, with and without ReID"
BUSY = ("window", "tentative", "rematch", "no-effect-1")


def tagged(d, o):
    return 0.0 if d.data[0] == o.last_detection.data[0] else 9.0


def window(env, maxr):
    """a lost object is kept, and offered to the ReID distance, until its ReID counter has gone below zero"""
    H = env.int("hit_counter_max", 2, 4)
    R = env.int("reid_max", 0, maxr)
    b = Bench(env, distance=tagged, reid=lambda n, o: 9.0, hit_counter_max=H, initialization_delay=1,
              reid_hit_counter_max=R, reid_distance_threshold=1)
    n = env.int("hits", 1, 3)
    b.update([b.det("A0")], period=2)
    for k in range(n.__index__() if not isinstance(n, int) else n):
        b.update([b.det(f"A{k+1}")])
    obj = b.objects[0]
    hc = obj.hit_counter
    env.check(obj.id is not None, "confirmed")
    # candidates appear all the time: a detection no tracked object accepts, twice
    lost = None
    for f in range(5 + maxr + 3):
        # hc - 1 after this frame
        cand = [b.det(f"{'PQ'[f % 2]}{f}")]
        b.update(cand)
        held = any(o is obj for o in b.objects)
        spec = hc - (f + 1)  # its hit counter now
        # the ReID counter starts when the hit counter falls below zero and is gone R + 1 frames later
        gone_for = -1 - spec  # frames since the counter fell below zero
        env.check(env.Iff(held, env.Or(spec >= -1, gone_for <= R + 1)), "kept exactly during the ReID window")
        env.reach("held" if held else "forgotten")
        offered = any(c[1] is obj for c in b.reid_calls)
        if offered:
            env.reach("offered")
        if not held:
            env.check(not offered, "a forgotten object is not offered")
    env.observe("held", held)


def tentative(env, frames):
    """objects that never were confirmed are not offered once lost, and do not outlive the window of a confirmed one"""
    H = env.int("hit_counter_max", 2, 4)
    D = env.int("delay", 1, 3)
    env.assume(D < H)
    R = env.int("reid_max", 0, 3)
    b = Bench(env, distance=tagged, reid=lambda n, o: 9.0, hit_counter_max=H, initialization_delay=D,
              reid_hit_counter_max=R, reid_distance_threshold=1)
    b.update([b.det("T0")])
    o = b.objects[0]
    env.check(o.id is None, "tentative")
    counter = 1
    if bool(D > 1) and env.split(env.bool("again")):
        if bool(D > 2):
            b.update([b.det("T1")])
            counter = 2
            env.check(o.id is None, "still tentative")
    for f in range(frames):
        out = b.update([b.det(f"{'PQRS'[f % 4]}{f}")])
        counter = counter - 1
        held = any(x is o for x in b.objects)
        env.check(all(x is not o for x in out), "never visible")
        offered = any(c[0] is o or c[1] is o for c in b.reid_calls)
        env.check(not offered, "a lost tentative object is not offered")
        if bool(counter < -2 - R):
            env.check(not held, "gone after the window")
            env.reach("gone")
        env.reach("lost" if held and bool(counter < 0) else "else")
    env.observe("counter", counter)


def rematch(env, frames):
    """a lost, then re-identified object gets a new full window"""
    R = env.int("reid_max", 1, 3)
    b = Bench(env, distance=tagged, reid=lambda n, o: 0.0, hit_counter_max=4, initialization_delay=2,
              reid_hit_counter_max=R, reid_distance_threshold=1)
    b.update([b.det("A0")], period=3)
    obj = b.objects[0]
    ident = obj.id
    for k in range(4):
        b.update()
    env.check(b.tracker.current_object_count == 0 and any(o is obj for o in b.objects), "lost, not forgotten")
    b.update([b.det("B0")])
    out = b.update([b.det("B1")])
    env.check(len(out) == 1 and out[0].id == ident, "re-identified")
    o = out[0]
    hc = o.hit_counter
    for f in range(frames):
        b.update()
        held = any(x is o for x in b.objects)
        gone_for = -1 - (hc - (f + 1))
        env.check(env.Iff(held, gone_for <= R + 1), "and kept for a whole new window")
        env.reach("held" if held else "forgotten")
    env.observe("held", held)


def no_effect(env, frames, streams):
    """with ReID configured but nothing ever close enough, what the user sees is what he sees without ReID"""
    H = env.int("hit_counter_max", 1, 4)
    D = env.int("delay", 0, 3)
    env.assume(D < H)
    R = env.int("reid_max", 0, 3)
    kw = dict(distance=tagged, hit_counter_max=H, initialization_delay=D)
    plain = Bench(env, name="p", **kw)
    reid = Bench(env, name="r", reid=lambda n, o: 5.0, reid_distance_threshold=1, reid_hit_counter_max=R, **kw)
    for f in range(frames):
        seen = [s for s in "XY"[:streams] if env.split(env.bool(f"{s}{f}"))]
        a = plain.update([plain.det(f"{s}{f}") for s in seen])
        b = reid.update([reid.det(f"{s}{f}") for s in seen])
        env.reach("visible" if a else "nothing")
        env.check([o.id for o in a] == [o.id for o in b], "the same ids are visible")
        for x, y in zip(a, b):
            env.check(x.last_detection.data == y.last_detection.data, "on the same detections")
            env.check(x.hit_counter == y.hit_counter, "with the same counters")
            env.check_all_close(x.estimate, y.estimate, "at the same place")
        env.check(plain.tracker.total_object_count == reid.tracker.total_object_count, "as many objects in total")
    env.observe("ids", [o.id for o in a])


def cases(tier):
    q = tier == "quick"
    return [
        Case("window", window, dict(maxr=3 if q else 6), expect=("held", "forgotten", "offered")),
        Case("tentative", tentative, dict(frames=10), expect=("gone",)),
        Case("rematch", rematch, dict(frames=12), expect=("held", "forgotten")),
        Case("no-effect-1", no_effect, dict(frames=6 if q else 8, streams=1), expect=("visible", "nothing")),
        Case("no-effect-2", no_effect, dict(frames=4 if q else 5, streams=2), expect=("visible", "nothing")),
    ]
