"""Objects that cannot be matched with each other's detections are tracked as if they were alone."""
from ..runner import Case
from ._twin import Named, state

BOUNDS = "two groups of up to 2 detections each (one of them also of 13, 40 in thorough, each of which keeps to itself), up to 4 (quick) / 5 (thorough) frames, symbolic presence and distances, groups told apart by their labels or by distances at or above the threshold; with and without ReID"
OUTSIDE = "the numbers (id, global_id, initializing_id), which are given out in the order of creation or confirmation over all groups"


def groups(env, frames, na, nb, by, reid=None, order=0, hmax=2, delay=1, always=False, pairs=(("a", "b"),), crowd=False):
    labels = env.choice("labels", list(pairs)) if by == "label" else ("x", "x")
    apart = None if by == "label" else (lambda a, b: a[0] != b[0])
    # a crowd of others, each of which keeps to itself
    def own(a, b):
        x, y = a[:a.index("f")], b[:b.index("f")]
        if x[0] == y[0] == "B":
            return 0.25 if x == y else 1.5
        if by == "distance" and x[0] != y[0] and "B12" not in (x, y):
            return 1.0
        return None

    N = Named(env, apart=apart, settled=own if crowd else (lambda a, b: a[0] == b[0] == "B") if reid else None)
    cfg = dict(hit_counter_max=hmax, initialization_delay=delay, past_detections_length=2, reid=reid)
    both, alone = N.tracker(**cfg), [N.tracker(**cfg) for _ in range(2)]
    det = lambda g, i, f: env.nf.Detection(env.arr([[10.0 * g + i, 3.0 * f]]), data=f"{'AB'[g]}{i}f{f}", label=labels[g])
    seen = {0: set(), 1: set()}
    for f in range(frames):
        who = [[i for i in range(n) if always and g == 1 or env.split(env.bool(f"{'AB'[g]}{i}f{f}"))] for g, n in enumerate((na, nb))]
        mixed = [(g, i) for g in (0, 1) for i in who[g]]
        if order == 1:
            mixed = mixed[::-1]
            who = [w[::-1] for w in who]
        elif order == 2:
            mixed = sorted(mixed, key=lambda x: (x[1], x[0]))
        had = {both.name_of(o): o.hit_counter for o in both.tracked_objects}
        both.update([det(g, i, f) for g, i in mixed])
        if any(h > 0 and n not in [both.name_of(o) for o in both.tracked_objects] for n, h in had.items()):
            env.reach("found again")
        for g in (0, 1):
            out = alone[g].update([det(g, i, f) for i in who[g]])
            mine = lambda n: n[0] == "AB"[g]
            s = state(both, mine)
            env.check(s == state(alone[g]), "the same objects as without the others")
            env.check([both.name_of(o) for o in both.get_active_objects() if mine(both.name_of(o))] == [alone[g].name_of(o) for o in out], "the same ones visible")
            m, a = [[o for o in t.tracked_objects if t is not both or mine(t.name_of(o))] for t in (both, alone[g])]
            for x, y in zip(m, a):
                env.check((x.last_distance is None) == (y.last_distance is None), "the same last distances")
                if x.last_distance is not None:
                    env.check(x.last_distance == y.last_distance, "the same last distances")
                env.check_all_close(x.estimate, y.estimate, "the same estimates")
                env.check_all_close(x.estimate_velocity, y.estimate_velocity, "the same velocities")
            rank = lambda os: sorted(range(len(os)), key=lambda i: (os[i].id is None, os[i].id or 0))
            env.check(rank(m) == rank(a), "ids in the same order")
            if out:
                env.reach("visible")
            if any(x[1] != x[0] for x in s):
                env.reach("matched")
        if all(any(both.name_of(o)[0] == c for o in both.tracked_objects) for c in "AB"):
            env.reach("together")
    env.check(both.total_object_count == sum(t.total_object_count for t in alone), "as many objects in all")
    env.observe("state", [x[:2] for x in state(both)])


def cases(tier):
    q = tier == "quick"
    e = ("visible", "matched", "together")
    n = 3 if q else 4
    return [
        Case("labels", groups, dict(frames=2, na=1, nb=1, by="label", delay=0, pairs=(("a", "b"), (None, "b"), ("1", 1), ((1, 2), (2, 1)))), expect=e),
        Case("label-1-1", groups, dict(frames=n, na=1, nb=1, by="label"), expect=e),
        Case("label-2-1", groups, dict(frames=2, na=2, nb=1, by="label", delay=0, order=2), expect=e),
        Case("label-2-1-reversed", groups, dict(frames=2, na=2, nb=1, by="label", delay=0, order=1), expect=e),
        Case("far-1-1", groups, dict(frames=n, na=1, nb=1, by="distance"), expect=e),
        Case("far-2-1", groups, dict(frames=2, na=2, nb=1, by="distance", delay=0, order=2), expect=e),
        Case("label-crowd", groups, dict(frames=n, na=1, nb=13 if q else 40, by="label", always=True, crowd=True, order=1), expect=e),
        Case("far-crowd", groups, dict(frames=2, na=1, nb=13 if q else 40, by="distance", always=True, crowd=True, delay=0), expect=e),
        Case("label-reid", groups, dict(frames=5, na=1, nb=1, by="label", reid=2, always=True), expect=e + ("found again",)),
        Case("far-reid", groups, dict(frames=4, na=1, nb=1, by="distance", reid=2, always=True), expect=e + ("found again",)),
    ]
