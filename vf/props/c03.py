"""Nothing is matched at or above the threshold, or across labels."""
from ..runner import Case
from ._trk import OneUpdate

BOUNDS = "one update, up to 2 confirmed + 1 tentative objects, up to 3 detections; distances in [-1, 3], thresholds in [-1, 3] (multiples of 1/8), labels from {none, 'None', 'a', 1, '1', (1, 2)} or {none, 0, -1, -2, '', ()}; up to 2 (thorough: 3) lost objects and one candidate for re-identification; tentative objects one hit after creation up to one hit before confirmation, or about to be lost; and larger: up to 24 objects and detections, most of them at fixed distances"
BUSY = "all"


def gate(env, nc, nt, nd, labels=None, tperiod=2, idle=0, many=None):
    thr = env.dyadic("threshold", -1, 3)
    u = OneUpdate(env, nc, nt, nd, labels=labels, tperiod=tperiod, idle=idle, threshold=thr, lo=-1, hi=3, many=many)
    env.check(u.ok_setup, "far detections start objects of their own")
    for o in u.before:
        m = u.match_of(o)
        if m is None:
            env.reach("unmatched")
        else:
            env.reach("matched")
            env.check(m.label == o.label, "no match across labels")
            env.check(u.d(m, o) < thr, "no match at or above the threshold")
    env.observe("matches", [[u.names[id(o)], str(u.match_of(o).data)] for o in u.before if u.match_of(o) is not None])


def reid(env, labelled):
    """a lost confirmed object and a candidate: merged only below the ReID threshold and with equal labels"""
    from ._trk import Bench

    thr = env.dyadic("reid_threshold", -1, 3)
    la = env.choice("la", [None, "a", 1]) if labelled else None
    lb = env.choice("lb", [None, "a", 1]) if labelled else None
    rd = env.dyadic("reid_distance", -1, 3)
    b = Bench(env, distance=lambda d, o: 0 if d.data[0] == o.last_detection.data[0] else 9, reid=lambda n, o: rd,
              distance_threshold=1, reid_distance_threshold=thr, hit_counter_max=4, initialization_delay=2,
              reid_hit_counter_max=9)
    b.update([b.det("A0", label=la)], period=3)
    old = b.objects[0]
    first = old.id
    b.update([b.det("B0", label=lb)])
    out = b.update([b.det("B1", label=lb)])
    visible = {o.id for o in out}
    merged = len(b.objects) == 1
    if merged:
        env.reach("merged")
        env.check(la == lb, "no re-identification across labels")
        env.check(rd < thr, "no re-identification at or above its threshold")
        env.check(visible == {first}, "the old identity")
    else:
        env.reach("apart")
        env.check(env.Not(env.And(la == lb, rd < thr)), "a close enough pair is re-identified")
    env.observe("merged", merged)


def reid_lost(env, lost, labelled):
    """several lost objects and one candidate: merged with a closest one among those of its label below the threshold"""
    from ._trk import Bench

    lab = [env.choice(f"l{i}", [None, "a", 0] if i else [None, "a"]) if labelled else None for i in range(lost)]
    lb = env.choice("lb", [None, "a", 0]) if labelled else None
    gap = env.choice("gap", [4, 6])
    rd = {}
    serial = {}

    def far(n, o):
        if not live[0]:
            return 7.0
        k = serial[id(o)]
        if k not in rd:
            rd[k] = env.dyadic(f"rd{k}", 0, 2)
        return rd[k]

    live = [False]
    b = Bench(env, distance=lambda d, o: 0 if d.data[0] == o.last_detection.data[0] else 9, reid=far,
              distance_threshold=1, reid_distance_threshold=1, hit_counter_max=4, initialization_delay=2,
              reid_hit_counter_max=9)
    b.update([b.det("ACD"[i] + "0", label=lab[i]) for i in range(lost)], period=3)
    olds = b.objects
    for i, o in enumerate(olds):
        serial[id(o)] = i
    for _ in range(gap):
        b.update()
    env.check([o for o in b.objects] == olds, "lost objects are kept")
    b.update([b.det("B0", label=lb)])
    live[0] = True
    out = b.update([b.det("B1", label=lb)])
    ok = [env.And(lab[i] == lb, rd[i] < 1) if i in rd else False for i in range(lost)]
    for i in range(lost):
        env.check(i in rd or lab[i] != lb, "every lost object of its label is compared with the candidate")
    took = [i for i, o in enumerate(olds) if o.last_detection.data == "B1"]
    if took:
        env.reach("merged")
        env.check(len(took) == 1 and len(out) == 1 and out[0] is olds[took[0]], "merged into one lost object")
        env.check(ok[took[0]], "of the same label and below the threshold")
    else:
        env.reach("apart")
        env.check(env.Not(env.Or(*ok)) if len(ok) > 1 else env.Not(ok[0]), "a close enough pair is re-identified")
    env.observe("took", took)


def cases(tier):
    q = [(1, 0, 1), (2, 0, 2), (1, 1, 2)] + ([(2, 1, 2), (2, 2, 2), (2, 1, 3)] if tier != "quick" else [])
    cs = [Case(f"gate-{a}-{b}-{c}", gate, dict(nc=a, nt=b, nd=c), expect=("matched", "unmatched")) for a, b, c in q]
    L = [None, 1, "1", "None", "a", (1, 2)]
    cs.append(Case("labels-1", gate, dict(nc=1, nt=0, nd=1, labels=L), expect=("matched", "unmatched")))
    cs.append(Case("labels-2", gate, dict(nc=1, nt=1, nd=1, labels=L[:3] if tier == "quick" else L), expect=("matched", "unmatched")))
    cs.append(Case("labels-3", gate, dict(nc=2, nt=0, nd=2, labels=[None, "a"] if tier == "quick" else L[:3]), expect=("matched", "unmatched")))
    cs.append(Case("labels-4", gate, dict(nc=1, nt=0, nd=1, labels=[0, "", None, -1, -2, ()]), expect=("matched", "unmatched")))
    for nl, lab in ((2, False), (2, True)) + (() if tier == "quick" else ((3, False), (3, True))):
        cs.append(Case(f"reid-lost-{nl}-{int(lab)}", reid_lost, dict(lost=nl, labelled=lab), expect=("merged", "apart")))
    cs.append(Case("reid", reid, dict(labelled=False), expect=("merged", "apart")))
    cs.append(Case("reid-labels", reid, dict(labelled=True), expect=("merged", "apart")))
    for tp, idle in ((4, 0), (1, 0), (2, 2), (4, 4)):
        cs.append(Case(f"states-{tp}-{idle}", gate, dict(nc=1, nt=1, nd=2, tperiod=tp, idle=idle), expect=("matched", "unmatched")))
    for a, b, c in ((24, 0, 24), (0, 24, 23), (12, 12, 23)) if tier == "quick" else ((64, 0, 64), (0, 64, 63), (31, 33, 63), (1, 40, 40)):
        cs.append(Case(f"many-{a}-{b}-{c}", gate, dict(nc=a, nt=b, nd=c, many=5), expect=("matched", "unmatched")))
    return cs
