"""Every detection handed to an update is consumed exactly once."""
from ..runner import Case
from ._trk import Bench, OneUpdate

BOUNDS = "one update, up to 2 confirmed + 2 tentative objects and 3 detections, every distance in [0, 2] (multiples of 1/8, ties included), threshold 1, in units of 1, 2^-14 and 2^14, symbolic labels in the labelled cases (0, the empty string and hash-colliding numbers among them); tentative objects one hit after creation up to one hit before confirmation, or about to be lost; the same Detection in several updates; and larger: up to 24 (64 in thorough, and 103 once) objects and detections, most of them at fixed distances"
BUSY = "all"
LABELS = [None, "a", "b"]
FALSY = [0, "", None, -1, -2]


def same(a, b):
    """an equal label, and one that is there if the other is"""
    return (a is None) == (b is None) and a == b


def consumed(env, nc, nt, nd, labels=None, tperiod=2, idle=0, unit=1, many=None):
    u = OneUpdate(env, nc, nt, nd, labels=labels, tperiod=tperiod, idle=idle, unit=unit, many=many)
    env.check(u.ok_setup, "far detections start objects of their own")
    env.check(len(u.arg) == nd and all(a is b for a, b in zip(u.arg, u.dets)), "the caller's list is left alone")
    env.check(len({id(o) for o in u.after}) == len(u.after), "no object is held twice")
    new = [o for o in u.after if all(o is not x for x in u.before)]
    for x in u.dets:
        n = sum(1 for o in u.after if o.last_detection is x)
        env.check(n == 1, "a detection is consumed by exactly one object")
        env.check_all_close(x.points, x.absolute_points, "a detection keeps its points")
    for o in u.before:
        env.check(any(o is x for x in u.after), "objects alive before the update are still held")
        m = u.match_of(o)
        if m is None:
            env.check(o.last_detection is u.old_last[id(o)][0], "an unmatched object keeps its last detection")
            env.check(o.last_distance is u.old_last[id(o)][1], "an unmatched object keeps its last distance")
        else:
            env.reach("matched")
            env.check(o.last_distance == u.d(m, o), "last_distance is the distance of the match")
            env.check(same(o.label, m.label), "label of the match")
    unmatched = [x for x in u.dets if u.object_of(x) is None]
    env.check(len(new) == len(unmatched), "each unmatched detection starts exactly one object")
    for o in new:
        env.reach("new")
        env.check(same(o.label, o.last_detection.label), "a new object has its detection's label")
        env.check(o.last_distance is None, "a new object has no last distance")
        env.check_all_close(o.estimate, o.last_detection.points, "a new object starts at its detection")
    env.observe("matches", [[u.names[id(o)], str(u.match_of(o).data)] for o in u.before if u.match_of(o) is not None])


def again(env, frames):
    """the same Detection handed to several updates; its distances are asked for anew each time"""
    b = Bench(env, distance=lambda d, o: dist[b.frame], hit_counter_max=5, initialization_delay=1)
    dist = {f: env.dyadic(f"dist{f}", 0, 2) for f in range(1, frames + 2)}
    det = b.det("d")
    b.update([det])
    a = b.objects[0]
    last = None
    for f in range(2, frames + 2):
        b.update([det])
        env.check(b.objects[0] is a, "the object is still held")
        new = len(b.objects) - 1
        if env.split(dist[f] < 1):
            last = dist[f]
            env.check(new == 0, "a detection closer than the threshold is matched")
            env.reach("matched")
            env.check(a.last_distance == last, "last_distance is the distance of the match")
        else:
            env.check(new == 1 and b.objects[1].last_detection is det, "a detection as far as the threshold starts an object")
            env.check(a.last_distance is None if last is None else a.last_distance == last, "an unmatched object keeps its last distance")
            env.reach("new")
            return


def cases(tier):
    q = [(2, 0, 2), (1, 1, 2), (0, 2, 2), (2, 1, 2), (1, 2, 3)]
    if tier != "quick":
        q += [(2, 2, 3), (3, 1, 3)]
    cs = [Case(f"consumed-{a}-{b}-{c}", consumed, dict(nc=a, nt=b, nd=c), expect=("matched", "new")) for a, b, c in q]
    cs.append(Case("labels", consumed, dict(nc=1, nt=1, nd=2, labels=LABELS), expect=("matched", "new")))
    cs.append(Case("labels-falsy", consumed, dict(nc=1, nt=1, nd=1 if tier == "quick" else 2, labels=FALSY), expect=("matched", "new")))
    for u in (2.0 ** -14, 2.0 ** 14):
        cs.append(Case(f"unit-{u}", consumed, dict(nc=2, nt=0, nd=2, unit=u), expect=("matched",)))
    for tp, idle in ((4, 0), (1, 0), (2, 2), (4, 4)):
        cs.append(Case(f"states-{tp}-{idle}", consumed, dict(nc=1, nt=1, nd=2, tperiod=tp, idle=idle), expect=("matched", "new")))
    cs.append(Case("again", again, dict(frames=3), expect=("matched", "new")))
    for a, b, c in ((24, 0, 24), (0, 24, 23), (12, 12, 23)) if tier == "quick" else ((64, 0, 64), (0, 64, 63), (31, 33, 63), (1, 40, 40)):
        cs.append(Case(f"many-{a}-{b}-{c}", consumed, dict(nc=a, nt=b, nd=c, many=5), expect=("matched", "new")))
    cs.append(Case("hundreds", consumed, dict(nc=103, nt=0, nd=103, many=7), expect=("matched",), path_s=100, replay_s=60))
    return cs
