"""Confirmation: an object becomes visible exactly when its hit counter first exceeds the initialization delay."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "one object; histories of up to 7 frames with symbolic presence (and of 42 and 124, all but 4 of them seen every other frame), periods 1..4, hit_counter_max 1..12, delay 0..11"
BUSY = ("default",)


def history(env, frames, delay_given, flicker=0):
    H = env.int("hit_counter_max", 1, 12)
    if delay_given:
        D = env.int("delay", 0, 11)
        env.assume(D < H)
        b = Bench(env, distance=lambda d, o: 0.0, hit_counter_max=H, initialization_delay=D)
    else:
        b = Bench(env, distance=lambda d, o: 0.0, hit_counter_max=H)
        D = H // 2
    hc, vis = None, False
    ident = None
    for f in range(frames):
        if 1 < f < flicker:  # a long time in sight every other frame
            p, seen = 1, f % 2 == 0
        else:
            p = env.int(f"p{f}", 1, 4)
            env.assume(p <= H)
            seen = env.split(env.bool(f"seen{f}"))
        out = b.update([b.det(f"{f}")] if seen else [], period=p)
        # the specification
        if hc is not None and not bool(hc >= 0):
            hc, vis, ident = None, False, None
        if hc is None:
            if seen:
                hc = p
                vis = env.Or(vis, hc > D)
        else:
            hc = hc - 1
            if seen and bool(hc >= -1):
                hc = env.min(hc + 2 * p, H)
                vis = env.Or(vis, hc > D)
        expect = env.And(vis, hc >= 0) if hc is not None else False
        shown = len(out) == 1
        env.check(len(out) <= 1, "one detection stream is one object")
        env.check(env.Iff(expect, shown), "visible exactly when confirmed and alive")
        env.observe("shown", shown)
        if shown:
            env.reach("shown")
            env.check(out[0].id is not None, "a visible object has an id")
            env.check(out[0].hit_counter == hc, "hit counter")
            if ident is None:
                ident = out[0].id
            env.check(out[0].id == ident, "the id is permanent")
        else:
            env.reach("hidden")


def cases(tier):
    n = 5 if tier == "quick" else 7
    return [
        Case("given", history, dict(frames=n, delay_given=True), expect=("shown", "hidden")),
        Case("default", history, dict(frames=n, delay_given=False), expect=("shown", "hidden")),
        Case("flicker", history, dict(frames=42 if tier == "quick" else 124, delay_given=True, flicker=40 if tier == "quick" else 120), expect=("shown", "hidden")),
    ]
