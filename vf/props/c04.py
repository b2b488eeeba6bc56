"""Closest pairs are matched first, confirmed objects before tentative ones, and nothing that could match is left over."""
from ..runner import Case
from ._trk import OneUpdate

BOUNDS = "one update, up to 3 objects (confirmed or tentative) and 3 detections, every distance in [0, 2] (multiples of 1/8, ties included), threshold 1, in units of 1, 2^-14 and 2^14; tentative objects one hit after creation up to one hit before confirmation, or about to be lost; and larger: up to 24 (64 in thorough, and 103 once) objects and detections, most of them at fixed distances"
BUSY = ("greedy-2-0-2", "labels")


def greedy(env, nc, nt, nd, labels=None, tperiod=2, idle=0, unit=1, many=None):
    u = OneUpdate(env, nc, nt, nd, labels=labels, tperiod=tperiod, idle=idle, unit=unit, many=many)
    env.check(u.ok_setup, "far detections start objects of their own")
    conf = {id(o) for o in u.confirmed}
    for x in u.dets:
        ox = u.object_of(x)
        for o in u.before:
            m = u.match_of(o)
            if m is x:
                env.reach("matched")
                continue
            if x.label != o.label:
                continue
            env.reach("apart")
            ok = [u.d(x, o) >= u.threshold]
            if ox is not None:
                if id(ox) in conf and id(o) not in conf:
                    ok.append(True)  # confirmed objects choose first
                elif (id(ox) in conf) == (id(o) in conf):
                    ok.append(u.d(x, ox) <= u.d(x, o))
            if m is not None:
                ok.append(u.d(m, o) <= u.d(x, o))
            env.check(env.Or(ok), "an unmatched compatible pair has a side matched at least as close")
    env.observe("matches", [[u.names[id(o)], str(u.match_of(o).data)] for o in u.before if u.match_of(o) is not None])


def cases(tier):
    q = [(2, 0, 2), (0, 2, 2), (1, 1, 2), (3, 0, 2), (2, 0, 3), (2, 1, 2), (1, 2, 2), (3, 0, 3)]
    if tier != "quick":
        q += [(2, 1, 3), (1, 2, 3), (2, 2, 2)]
    cs = [Case(f"greedy-{a}-{b}-{c}", greedy, dict(nc=a, nt=b, nd=c), expect=("matched", "apart")) for a, b, c in q]
    cs.append(Case("labels", greedy, dict(nc=1, nt=1, nd=2, labels=[None, "a"]), expect=("matched", "apart")))
    for u in (2.0 ** -14, 2.0 ** 14):
        cs.append(Case(f"unit-{u}", greedy, dict(nc=2, nt=0, nd=2, unit=u), expect=("matched",)))
    for tp, idle in ((4, 0), (1, 0), (2, 2), (4, 4)):
        cs.append(Case(f"states-{tp}-{idle}", greedy, dict(nc=1, nt=1, nd=2, tperiod=tp, idle=idle), expect=("matched", "apart")))
    for a, b, c in ((24, 0, 24), (0, 24, 23), (12, 12, 23)) if tier == "quick" else ((64, 0, 64), (0, 64, 63), (31, 33, 63), (1, 40, 40)):
        cs.append(Case(f"many-{a}-{b}-{c}", greedy, dict(nc=a, nt=b, nd=c, many=5), expect=("matched", "apart")))
    cs.append(Case("hundreds", greedy, dict(nc=103, nt=0, nd=103, many=7), expect=("matched",), path_s=100, replay_s=60))
    return cs
