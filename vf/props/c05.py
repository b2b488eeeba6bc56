"""Matching ends, and is one-to-one, for every machine-float distance matrix and every threshold."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "one update, up to 2 objects and 2 detections; distances range over every IEEE double or single (nan excluded, infinities included), thresholds over every double (infinities included); floating-point arithmetic is bit-precise"
OUTSIDE = "larger matrices; nan distances are C15"


def match(env, no, nd, dkind):
    thr = env.fp("threshold", "f64")
    env.assume(thr == thr)
    thr_v = thr
    live = [False]
    ds = {}

    def dist(det, obj):
        if not live[0]:
            return float("inf")
        k = f"d_{det.data}_{obj.initializing_id}"
        if k not in ds:
            v = env.fp(k, dkind)
            env.assume(v == v)
            ds[k] = v
        return ds[k]

    b = Bench(env, distance=dist, distance_threshold=thr_v, hit_counter_max=9, initialization_delay=2)
    b.update([b.det(f"o{i}") for i in range(no)], period=3)
    env.check(len(b.objects) == no, "infinite distances never match")
    before = b.objects
    live[0] = True
    dets = [b.det(f"x{i}") for i in range(nd)]
    b.update(dets)
    n = 0
    for x in dets:
        k = sum(1 for o in b.objects if o.last_detection is x)
        env.check(k == 1, "each detection is used once")
    for o in before:
        m = [x for x in dets if o.last_detection is x]
        n += len(m)
        if m:
            env.reach("matched")
            env.check(o.last_distance < thr, "matched strictly below the threshold")
        else:
            env.reach("unmatched")
    env.check(len(b.objects) == no + nd - n, "one object per unmatched detection")
    env.observe("matched", n)


def cases(tier):
    q = [(1, 1, "f64"), (1, 1, "f32"), (2, 1, "f32"), (1, 2, "f32")]
    if tier != "quick":
        q += [(2, 2, "f32"), (2, 1, "f64"), (1, 2, "f64")]
    return [
        Case(f"match-{o}-{d}-{k}", match, dict(no=o, nd=d, dkind=k), expect=("matched", "unmatched"), path_s=20 if tier == "quick" else 60, may_hang=True,
             max_depth=600, replay_s=8)
        for o, d, k in q
    ]
