"""The order in which detections are listed does not matter."""
import itertools

from ..runner import Case
from ._trk import Bench

BOUNDS = "up to 3 detections and 3 objects, every order, symbolic distances without ties"
BUSY = "all"


def order(env, nc, nt, nd, perm, labels=None, tperiod=1):
    live = [False]
    ds = {}

    def dist(det, obj):
        if not live[0]:
            return 7.0
        k = f"d_{det.data}_{obj.last_detection.data[0]}{obj.last_detection.data[1]}"
        if k not in ds:
            ds[k] = env.dyadic(k, 0, 2)
            for o, v in ds.items():
                if o != k:
                    env.assume(v != ds[k])
        return ds[k]

    lab = {f"x{i}": (env.choice(f"label{i}", labels) if labels else None) for i in range(nd)}
    res = []
    for run, p in enumerate([tuple(range(nd)), perm]):
        live[0] = False
        b = Bench(env, distance=dist, hit_counter_max=9, initialization_delay=2)
        if nc:
            b.update([b.det(f"c{i}", points=((1.0 * i, 2.0),), label=labels[0] if labels else None) for i in range(nc)], period=3)
        if nt:
            b.update([b.det(f"t{i}", points=((1.0 * i, 20.0),), label=labels[0] if labels else None) for i in range(nt)], period=tperiod)
        before = b.objects
        names = [str(o.last_detection.data) for o in before]
        live[0] = True
        dets = [b.det(f"x{i}", points=((1.5 * i, 5.0 + i),), label=lab[f"x{i}"]) for i in range(nd)]
        out = b.update([dets[i] for i in p])
        res.append(dict(
            objects=[(n, o.id, o.last_detection.data, o.hit_counter, o.age, o.label) for n, o in zip(names, before)],
            where=[o.estimate for o in before],
            new=sorted(str(o.last_detection.data) for o in b.objects if all(o is not x for x in before)),
            out=sorted(o.id for o in out), total=b.tracker.total_object_count,
        ))
        env.reach("matched" if any(o.last_detection is d for o in before for d in dets) else "unmatched")
    a, c = res
    for k in ("objects", "new", "out", "total"):
        env.check(a[k] == c[k], f"the same {k} whatever the order of the detections")
    for x, y in zip(a["where"], c["where"]):
        env.check_all_close(x, y, "the same estimates")
    env.observe("objects", [[x[0], x[1], str(x[2])] for x in a["objects"]])


def cases(tier):
    q = tier == "quick"
    cs = []
    for nc, nt, nd in [(2, 0, 2), (1, 1, 2), (0, 2, 2), (1, 0, 3), (2, 0, 3)] + ([] if q else [(1, 1, 3), (3, 0, 3)]):
        for p in list(itertools.permutations(range(nd)))[1:]:
            if q and nd == 3 and p not in ((2, 1, 0), (1, 2, 0)):
                continue
            cs.append(Case(f"order-{nc}-{nt}-{nd}-" + "".join(map(str, p)), order, dict(nc=nc, nt=nt, nd=nd, perm=p), expect=("matched", "unmatched")))
    cs.append(Case("labels", order, dict(nc=2, nt=0, nd=2, perm=(1, 0), labels=["a", "b", None]), expect=("matched",)))
    cs.append(Case("states", order, dict(nc=1, nt=2, nd=2, perm=(1, 0), tperiod=2), expect=("matched",)))
    return cs
