"""The same history, told twice: a tracker and another one that is given the detections transformed."""
from .c11 import factory


def twin(env, kind, dist, frames, nd, pts, dim, points, back, scores=lambda s: s, rows=lambda r: r, unit=1, scored=False, reid=False, gaps=False,
         big=16, thr=32):
    """points: coordinates given to the second tracker; back: what the second one's estimates must be; rows: the same for what there is per point"""
    nf = env.nf
    T = env.dyadic("threshold", 0, thr)
    fn = dist
    if dist == "user":
        fn = lambda d, o: abs(d.points - o.estimate).sum()
    if dist == "always":
        fn = lambda d, o: 0.0
        T = 1
    kw = {}
    if reid:
        kw = dict(reid_distance_function=lambda a, b: abs(a.estimate - b.estimate).sum(), reid_hit_counter_max=4)
    ts = [nf.Tracker(fn, distance_threshold=T * u, hit_counter_max=2 if reid else 4, initialization_delay=1 if reid else 0, filter_factory=factory(env, kind),
                     pointwise_hit_counter_max=2, **dict(kw, **(dict(reid_distance_threshold=T * u) if reid else {}))) for u in (1, unit)]
    env.assume(T > 0)
    a = b = ()
    for f in range(frames):
        ds = ([], [])
        if not (gaps and f in gaps):
            for i in range(nd):
                c = [[env.real(f"c{f}_{i}_{p}_{k}", -big, big) for k in range(dim)] for p in range(pts)]
                sc = [1.0 if env.split(env.bool(f"over{f}_{i}_{p}")) else 0.0 for p in range(pts)] if scored else None
                for out, pf, sf in zip(ds, (lambda x: x, points), (lambda x: x, scores)):
                    out.append(nf.Detection(env.arr(pf(c)), data=(f, i), scores=None if sc is None else env.arr(sf(sc))))
        a, b = [t.update(d) for t, d in zip(ts, ds)]
        env.check([o.id for o in a] == [o.id for o in b], "the same objects are visible")
        env.check(len(ts[0].tracked_objects) == len(ts[1].tracked_objects), "as many objects")
        for x, y in zip(ts[0].tracked_objects, ts[1].tracked_objects):
            env.check(x.last_detection.data == y.last_detection.data and x.id == y.id, "the same matches")
            env.check((x.hit_counter, x.age) == (y.hit_counter, y.age), "the same counters")
            env.check([p.data for p in x.past_detections] == [p.data for p in y.past_detections], "the same memories")
            env.check([bool(v) for v in y.live_points] == rows([bool(v) for v in x.live_points]), "the same points are live")
            env.check_all_close(y.estimate, back(x.estimate), "the same estimates, transformed")
            env.check_all_close(y.estimate_velocity, back(x.estimate_velocity), "the same velocities, transformed")
            if x.age and x.last_detection.data[0] == f:
                env.reach("matched")
            elif x.age:
                env.reach("unmatched")
        env.check(ts[0].total_object_count == ts[1].total_object_count, "the same number of objects counted")
        if reid and any(o.age > 2 and o.last_detection.data[0] == f for o in a):
            env.reach("found again")
    env.observe("ids", [o.id for o in a])


class Named:
    """Symbolic distances that depend on which detection and which object it is, not on the tracker that asks."""

    def __init__(self, env, threshold=1, apart=None, settled=None):
        self.env, self.d, self.apart, self.threshold, self.settled = env, {}, apart, threshold, settled

    def get(self, kind, a, b):
        k = f"{kind}_{a}_{b}"
        v = self.settled(a, b) if self.settled is not None else None
        if v is not None and v is not False:
            return 0.0 if v is True else v
        if k not in self.d:
            self.d[k] = self.env.dyadic(k, 0, 2)
            if self.apart is not None and self.apart(a, b):
                self.env.assume(self.d[k] >= self.threshold)
        return self.d[k]

    def tracker(self, reid=None, **cfg):
        names, keep = {}, []

        def name(o):
            if id(o) not in names:
                names[id(o)] = str(o.last_detection.data)
                keep.append(o)
            return names[id(o)]

        kw = dict(distance_threshold=self.threshold, **cfg)
        if reid:
            kw.update(reid_distance_function=lambda a, b: self.get("r", name(a), name(b)), reid_distance_threshold=self.threshold, reid_hit_counter_max=reid)
        t = self.env.nf.Tracker(lambda d, o: self.get("d", str(d.data), name(o)), **kw)
        t.name_of = name
        return t


def state(t, only=lambda name: True, ids=True):
    """everything about a tracker's objects but what numbers them"""
    r = []
    for o in t.tracked_objects:
        n = t.name_of(o)
        if only(n):
            r.append((n, str(o.last_detection.data), o.label, o.hit_counter, o.age, o.id is None, [(str(p.data), p.age) for p in o.past_detections], [bool(v) for v in o.live_points]))
    return r
