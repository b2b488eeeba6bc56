"""Identities: unique, permanent, never reused, consecutive."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "histories of up to 5 (quick) / 7 (thorough) frames, two trackers interleaved, up to 2 detection streams in one and 1 in the other, symbolic presence, hit_counter_max 1..4, delay 0..3; histories with ReID: 2 streams, symbolic ReID distances; and larger: 16 frames of 16 objects each (60 of 30 in thorough) or 10 frames of 30 new ones each (20 of 60), symbolic presence in a few of them"


def tagged(d, o):
    return 0.0 if d.data[0] == o.last_detection.data[0] else 9.0


class Ledger:
    """what has been seen of a tracker"""

    def __init__(self, env, b, globals_):
        self.env, self.b, self.g = env, b, globals_
        self.ids = {}
        self.objs = {}
        self.last = 0

    def look(self, out, consecutive=True):
        env = self.env
        for o in out:
            env.check(o.id is not None and o.global_id is not None, "a visible object has its ids")
        env.check(len({o.id for o in out}) == len(out), "visible ids are distinct")
        for o in self.b.objects:
            if o.id is None:
                env.check(o.global_id is None, "no global id before the id")
                continue
            if id(o) in self.ids:
                env.check(self.ids[id(o)] == (o.id, o.global_id), "ids are permanent")
                continue
            env.reach("new id")
            env.check(o.id not in [x for x, _ in self.ids.values()], "ids are never reused")
            env.check(o.global_id not in self.g, "global ids are unique across trackers")
            self.g.append(o.global_id)
            self.ids[id(o)] = (o.id, o.global_id)
            self.objs[id(o)] = o
        n = self.b.tracker.total_object_count
        if consecutive:
            env.check(sorted(x for x, _ in self.ids.values()) == list(range(1, len(self.ids) + 1)), "ids are consecutive from 1")
            env.check(n == len(self.ids), "total_object_count counts the ids handed out")
        else:
            env.check(all(1 <= x <= n for x, _ in self.ids.values()), "ids lie within total_object_count")
        env.check(n >= self.last, "total_object_count never falls")
        self.last = n
        env.check(self.b.tracker.current_object_count == len(out), "current_object_count counts the visible objects")
        n_out = len(out)
        act = self.b.tracker.get_active_objects()
        env.check(len(act) == len(out) and all(x is y for x, y in zip(act, out)), "get_active_objects is what update returned")
        # what the caller does with the lists it got is its own business
        del out[:], act[:]
        env.check(self.b.tracker.current_object_count == len(self.b.tracker.get_active_objects()) == n_out, "the lists returned are the caller's own")


def two_trackers(env, frames, streams):
    H = env.int("hit_counter_max", 1, 4)
    D = env.int("delay", 0, 3)
    env.assume(D < H)
    g = []
    a = Bench(env, distance=tagged, hit_counter_max=H, initialization_delay=D)
    b = Bench(env, distance=tagged, hit_counter_max=2, initialization_delay=1)
    la, lb = Ledger(env, a, g), Ledger(env, b, g)
    for f in range(frames):
        dets = [a.det(f"{s}{f}") for s in "XYZ"[:streams] if env.split(env.bool(f"{s}{f}"))]
        la.look(a.update(dets))
        lb.look(b.update([b.det(f"Q{f}")] if f % 2 else []) if f % 3 == 0 else b.update([b.det(f"Q{f}")]))
    env.observe("count", la.last)


def fresh_objects(env, n, frames=2):
    """several objects confirmed in the same frame, with symbolic distances between them"""
    u = Bench(env, hit_counter_max=5, initialization_delay=env.int("delay", 0, 3))
    g = []
    led = Ledger(env, u, g)
    for f in range(frames):
        k = n if f else 2
        led.look(u.update([u.det(f"{f}{i}") for i in range(k)], period=2 if f == 0 else 1))
    env.observe("count", led.last)


def many(env, n, frames):
    """many streams, all but the last two of which come and go as they always do, over many frames"""
    b = Bench(env, distance=tagged, hit_counter_max=2, initialization_delay=1)
    led = Ledger(env, b, [])
    s = [chr(0x4E00 + i) for i in range(n)]
    for f in range(frames):
        there = [x for i, x in enumerate(s) if (env.split(env.bool(f"{i}_{f}")) if i >= n - 2 and f < 2 else (f * (i + 2) // 5 + i) % 3 > 0)]
        led.look(b.update([b.det(f"{x}{f}") for x in there]))
    env.check(led.last > n, "more ids than streams")
    env.reach("many")
    env.observe("count", led.last)


def hundreds(env, n, frames):
    """always somebody new, for a long while: the ids run into the hundreds"""
    b = Bench(env, distance=lambda d, o: 9.0, hit_counter_max=1, initialization_delay=0)
    g = []
    led = Ledger(env, b, g)
    for f in range(frames):
        k = n if f != 1 else n - sum(not env.split(env.bool(f"there{i}")) for i in range(2))
        led.look(b.update([b.det(f"{f}_{i}") for i in range(k)]))
    env.check(led.last > 256, "hundreds of ids")
    env.observe("count", led.last)


def with_reid(env, frames):
    b = Bench(env, distance=tagged, reid=lambda n, o: 0.0 if env.bool(f"close_{b.frame}_{b.serial(n)}_{b.serial(o)}") else 5.0,
              hit_counter_max=2, initialization_delay=1, reid_hit_counter_max=env.int("reid_max", 0, 3), reid_distance_threshold=1)
    led = Ledger(env, b, [])
    led.look(b.update([b.det("A0")], period=2), consecutive=False)
    for f in range(frames):
        dets = [b.det(f"{s}{f}") for s in "AB" if env.split(env.bool(f"{s}{f}"))]
        led.look(b.update(dets), consecutive=False)
    env.observe("count", led.last)


def cases(tier):
    q = tier == "quick"
    return [
        Case("two-trackers", two_trackers, dict(frames=4 if q else 5, streams=2), expect=("new id",)),
        Case("one-stream", two_trackers, dict(frames=6 if q else 8, streams=1), expect=("new id",)),
        Case("simultaneous", fresh_objects, dict(n=3) if q else dict(n=2, frames=3), expect=("new id",)),
        Case("many", many, dict(n=16, frames=16) if q else dict(n=30, frames=60), expect=("new id", "many")),
        Case("hundreds", hundreds, dict(n=30, frames=10) if q else dict(n=60, frames=20), expect=("new id",)),
        Case("reid", with_reid, dict(frames=4 if q else 6), expect=("new id",)),
    ]
