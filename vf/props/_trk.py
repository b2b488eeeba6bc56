"""Shared pieces of the tracker harnesses."""


class Bench:
    """A tracker with a user-supplied scalar distance function: every (detection, object) pair gets its own symbolic
    distance, so the exploration covers every distance function."""

    def __init__(self, env, distance=None, reid=None, name="", points=None, **cfg):
        self.env = env
        self.nf = env.nf
        self.name = name
        self.serials = {}
        self.keep = []
        self.calls = []
        self.reid_calls = []
        self.dist = distance or self.default_distance
        self.reid = reid
        kw = dict(cfg)
        kw.setdefault("distance_threshold", 1)
        if reid is not None:
            kw["reid_distance_function"] = self._reid
        self.tracker = self.nf.Tracker(distance_function=self._distance, **kw)
        self.frame = 0

    def serial(self, obj):
        k = id(obj)
        if k not in self.serials:
            self.serials[k] = len(self.serials)
            self.keep.append(obj)
        return self.serials[k]

    def _distance(self, det, obj):
        d = self.dist(det, obj)
        self.calls.append((det, obj, d))
        return d

    def _reid(self, new, old):
        d = self.reid(new, old)
        self.reid_calls.append((new, old, d))
        return d

    def default_distance(self, det, obj):
        return self.env.dyadic(f"d{self.name}_{det.data}_{self.serial(obj)}", 0, 2)

    def det(self, tag, points=((1.0, 2.0),), scores=None, label=None, embedding=None):
        e = self.env
        return self.nf.Detection(
            e.arr([list(p) for p in points]), scores=None if scores is None else e.arr(scores), data=tag, label=label,
            embedding=embedding,
        )

    def update(self, dets=None, **kw):
        self.calls = []
        self.reid_calls = []
        self.frame += 1
        return self.tracker.update(dets, **kw) if dets is not None else self.tracker.update(**kw)

    @property
    def objects(self):
        """every object the tracker holds, alive or not, confirmed or not"""
        return list(self.tracker.tracked_objects)


def count_true(env, xs):
    t = 0
    for x in xs:
        t = t + env.Ite(x, 1, 0)
    return t


class OneUpdate:
    """A tracker holding `nc` confirmed and `nt` tentative objects (made concretely, with hit counter `tperiod` of a delay of 4), then one update with `nd`
    detections whose distances to every object, and whose labels, are symbolic."""

    def __init__(self, env, nc, nt, nd, labels=None, threshold=1, lo=0, hi=2, match_kw=None, none_ok=False, tperiod=2, idle=0, unit=1, many=None, **cfg):
        self.env = env
        self.many = many
        self.live = False
        self.dist = {}
        self.threshold = threshold = threshold * unit
        cfg.setdefault("hit_counter_max", 12)
        cfg.setdefault("initialization_delay", 4)
        self.b = Bench(env, distance=self._d, distance_threshold=threshold, **cfg)
        self.lo, self.hi, self.unit = lo, hi, unit
        lab = (lambda n: env.choice("label_" + n, labels)) if labels else (lambda n: None)
        olab = [lab(f"o{i}") for i in range(nc + nt)]
        b = self.b
        if nc:
            b.update([b.det(f"c{i}", points=((10.0 * i, 5.0),), label=olab[i]) for i in range(nc)], period=6)
        if nt:
            b.update([b.det(f"t{i}", points=((10.0 * i, 50.0),), label=olab[nc + i]) for i in range(nt)], period=tperiod)
        for _ in range(idle):
            b.update()
        self.before = b.objects
        self.confirmed = [o for o in self.before if o.id is not None]
        self.tentative = [o for o in self.before if o.id is None]
        self.ok_setup = len(self.confirmed) == nc and len(self.tentative) == nt
        self.names = {id(o): str(o.last_detection.data) for o in self.before}
        self.old_last = {id(o): (o.last_detection, o.last_distance) for o in self.before}
        self.dets = [b.det(f"d{i}", points=((3.0 * i, 1.0),), label=lab(f"d{i}")) for i in range(nd)]
        self.arg = list(self.dets)
        self.live = True
        self.out = b.update(self.arg, **(match_kw or {}))
        self.after = b.objects

    def _d(self, det, obj):
        if not self.live:
            return self.threshold + 5 * self.unit
        return self.d(det, obj)

    def d(self, det, obj):
        k = (str(det.data), self.names[id(obj)])
        if k not in self.dist and self.many is not None and not self.free(*k):
            # every detection but the last ones is closest to one object of its own, in an order of its own; nothing else is close
            i, j = [int(x[1:]) for x in k]
            n = len(self.before)
            j += len(self.confirmed) if k[1][0] == "t" else 0
            self.dist[k] = (0.25 if (i * self.many + 3) % n == j else 1.5) * self.unit
        if k not in self.dist:
            self.dist[k] = self.env.dyadic(f"dist_{k[0]}_{k[1]}", self.lo, self.hi) * self.unit
        return self.dist[k]

    def free(self, d, o):
        """with many detections only the distances of the last two to the last (confirmed, tentative) objects are symbolic"""
        last = [x[-1] for x in (self.confirmed, self.tentative) if x]
        return int(d[1:]) >= len(self.dets) - 2 and any(self.names[id(x)] == o for x in last)

    def match_of(self, obj):
        """the detection of this update the object consumed"""
        for x in self.dets:
            if obj.last_detection is x:
                return x
        return None

    def object_of(self, det):
        for o in self.before:
            if o.last_detection is det:
                return o
        return None

    def compatible(self, det, obj):
        """may the pair be matched at all"""
        if det.label != obj.label:
            return False
        return self.d(det, obj) < self.threshold
