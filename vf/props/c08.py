"""Skipped frames: announcing the period keeps an object alive through the frames the detector is not run on."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "one object seen on every detector frame; up to 4 detector frames with symbolic periods 1..4 (not above hit_counter_max), hit_counter_max 1..10, symbolic delays; detectorless frames given as update(), update(None) or update([]), with or without the period"
BUSY = "all"


def skipping(env, cycles, maxp):
    H = env.int("hit_counter_max", 1, 10)
    D = env.int("delay", 0, 9)
    env.assume(D < H)
    PW = env.int("pointwise", 1, 6)
    b = Bench(env, distance=lambda d, o: 0.0, hit_counter_max=H, initialization_delay=D, pointwise_hit_counter_max=PW)
    how = env.choice("idle", ["none", "default", "empty"])
    named = env.split(env.bool("period_on_idle_frames"))
    counter, obj = None, None
    shown = False
    for c in range(cycles):
        p = env.int(f"p{c}", 1, maxp)
        env.assume(p <= H)
        pp = p if isinstance(p, int) else p.__index__()
        first = pp if c == 0 else first
        out = b.update([b.det(f"{c}")], period=pp)
        held = b.objects
        env.check(len(held) == 1, "one object throughout")
        if obj is None:
            obj = held[0]
        env.check(held[0] is obj, "the object survives the skipped frames")
        env.check(obj.last_detection.data == f"{c}", "and takes every detection")
        if counter is not None:
            # per cycle the counter gains the period of the new detection frame, up to the cap
            env.check(obj.hit_counter == env.min(counter - 1 + 2 * pp, H), "counter")
        counter = obj.hit_counter
        if shown:
            env.check(len(out) == 1, "once visible, visible on every detector frame")
        for k in range(pp - 1):
            kw = {"period": pp} if named else {}
            out = b.tracker.update(**kw) if how == "default" else b.tracker.update(None, **kw) if how == "none" else b.tracker.update([], **kw)
            counter = counter - 1
            env.check(obj.hit_counter == counter, "one less per skipped frame")
            env.check(sum(1 for o in b.objects if o is obj) == 1, "held during skipped frames")
            if shown or obj.id is not None:
                env.check(len(out) == 1 and out[0] is obj, "visible during skipped frames")
                env.reach("idle frame")
            if c > 0 and bool(env.Or(pp <= PW, pp <= first)):
                env.check(bool(obj.live_points.all()), "points seen on every detector frame stay live")
        shown = shown or obj.id is not None
        if shown:
            env.reach("shown")
    env.observe("counter", counter)


def confirm_as_fast(env):
    """frames needed to confirm with period p (p-1 idle frames) never exceed those without skipping by more than a period"""
    H = env.int("hit_counter_max", 2, 9)
    D = env.int("delay", 0, 8)
    env.assume(D < H)
    p = env.choice("p", [2, 3, 4])
    env.assume(p <= H)
    a = Bench(env, distance=lambda d, o: 0.0, hit_counter_max=H, initialization_delay=D, name="a")
    s = Bench(env, distance=lambda d, o: 0.0, hit_counter_max=H, initialization_delay=D, name="s")
    ta = ts = None
    for f in range(12):
        if len(a.update([a.det(f"{f}")])) and ta is None:
            ta = f
        out = s.update([s.det(f"{f}")], period=p) if f % p == 0 else s.update()
        if len(out) and ts is None:
            ts = f
        if ta is not None and ts is not None:
            break
    env.check(ta is not None and ts is not None, "both are confirmed")
    env.check(ts <= ta + p, "skipping delays confirmation by at most one period")
    env.observe("t", [ta, ts])
    env.reach("both")


def cases(tier):
    q = tier == "quick"
    return [
        Case("skipping", skipping, dict(cycles=3 if q else 4, maxp=3 if q else 4), expect=("shown", "idle frame")),
        Case("confirmation", confirm_as_fast, {}, expect=("both",)),
    ]
