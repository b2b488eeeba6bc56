"""nan distances are refused, never matched silently."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "one update with up to 2 objects (confirmed or tentative) and 2 detections, every distance an arbitrary IEEE double (nan and infinities included), threshold an arbitrary double; ReID distances likewise; vectorised distances for one object and one detection"


def nan(env, conf, no, nd):
    thr = env.fp("threshold", "f64")
    env.assume(thr == thr)
    live = [False]
    ds = {}

    def dist(det, obj):
        if not live[0]:
            return float("inf")
        k = f"d_{det.data}_{obj.initializing_id}"
        ds.setdefault(k, env.fp(k, "f64"))
        return ds[k]

    b = Bench(env, distance=dist, distance_threshold=thr, hit_counter_max=9, initialization_delay=2)
    b.update([b.det(f"o{i}") for i in range(no)], period=3 if conf else 2)
    before = b.objects
    live[0] = True
    dets = [b.det(f"x{i}") for i in range(nd)]
    out, err = env.trial(b.update, dets)
    env.check(len(ds) == no * nd, "every pair is measured")
    anynan = env.Or([d != d for d in ds.values()])
    if err is not None:
        env.reach("refused")
        env.check(isinstance(err, ValueError), "nan is refused with a ValueError")
        env.check(anynan, "only nan is refused")
    else:
        env.reach("accepted")
        env.check(env.Not(anynan), "nan is never accepted")
    env.observe("refused", err is not None)


def reid_nan(env):
    live = [False]
    x = env.fp("x", "f64")
    b = Bench(env, distance=lambda d, o: 0.0 if d.data[0] == o.last_detection.data[0] else 9.0, reid=lambda n, o: x,
              hit_counter_max=4, initialization_delay=2, reid_hit_counter_max=9, reid_distance_threshold=1)
    b.update([b.det("A0")], period=3)
    b.update([b.det("B0")])
    out, err = env.trial(b.update, [b.det("B1")])
    env.check(env.Iff(x != x, err is not None), "a nan ReID distance is refused, anything else accepted")
    env.check(err is None or isinstance(err, ValueError), "with a ValueError")
    env.reach("refused" if err is not None else "accepted")
    env.observe("refused", err is not None)


def positions(env, name):
    """nan coordinates reach the distance as nan"""
    nf = env.nf
    where = env.choice("where", [(0, 0), (0, 1), (1, 0), (1, 1)])
    t = nf.Tracker(name, distance_threshold=1, hit_counter_max=9, initialization_delay=0)
    base = [[1.0, 2.0], [5.0, 7.0]]
    t.update([nf.Detection(env.arr(base))])
    bad = [list(r) for r in base]
    bad[where[0]][where[1]] = float("nan")
    out, err = env.trial(t.update, [nf.Detection(env.arr(bad))])
    env.check(isinstance(err, ValueError), "a nan coordinate is refused")
    env.reach("refused")
    env.observe("refused", err is not None)


def cases(tier):
    q = tier == "quick"
    e = ("refused", "accepted")
    cs = [Case(f"nan-{'confirmed' if c else 'tentative'}-{o}-{d}", nan, dict(conf=c, no=o, nd=d), expect=e, path_s=30)
          for c in (True, False) for o, d in [(1, 1), (1, 2), (2, 1)] + ([] if q else [(2, 2)])]
    cs.append(Case("reid", reid_nan, {}, expect=e))
    for n in ["frobenius", "mean_euclidean", "mean_manhattan", "euclidean", "cityblock"] + ([] if q else ["sqeuclidean"]):
        cs.append(Case("coordinates-" + n, positions, dict(name=n), expect=("refused",)))
    return cs
