"""Trackers that are busy with other objects besides the ones of a harness."""


class Proxy:
    """norfair with busy trackers"""

    def __init__(self, nf, env, mode):
        self._nf, self._env, self._mode = nf, env, mode

    def __getattr__(self, name):
        return getattr(self._nf, name)

    def Tracker(self, *a, **k):
        return Busy(self._nf, self._env, self._mode, self._nf.Tracker(*a, **k))


class Busy:
    """A tracker that sees other objects as well: one that is confirmed before anything else happens, and in every update with
    detections one more in front and one behind, each with a label of its own. They are left out of what it shows."""

    def __init__(self, nf, env, mode, tracker):
        self.__dict__.update(_nf=nf, _env=env, _t=tracker, _n=0, _ids=set(), _keep=[], _after=mode == "both")
        t = tracker
        self._t.update([self._other()], period=t.initialization_delay + 1)
        self._count()

    def __getattr__(self, name):
        return getattr(self._t, name)

    def __setattr__(self, name, value):
        if name in ("_n",):
            self.__dict__[name] = value
        else:
            setattr(self._t, name, value)

    def _other(self):
        self._n += 1
        d = self._nf.Detection(self._env.arr([[7.0 * self._n, -3.0]]), label=("another one", self._n), data=("another one", self._n))
        self._keep.append(d)
        return d

    def _is_other(self, o):
        return isinstance(o.label, tuple) and len(o.label) == 2 and o.label[0] == "another one"

    def _count(self):
        for o in self._t.tracked_objects:
            if self._is_other(o) and o.id is not None:
                self._ids.add(o.id)

    def update(self, detections=None, *a, **k):
        if detections:
            detections = [self._other()] + list(detections) + ([self._other()] if self._after else [])
        out = self._t.update(detections, *a, **k)
        self._count()
        return [o for o in out if not self._is_other(o)]

    @property
    def tracked_objects(self):
        return [o for o in self._t.tracked_objects if not self._is_other(o)]

    def get_active_objects(self):
        return [o for o in self._t.get_active_objects() if not self._is_other(o)]

    @property
    def current_object_count(self):
        return self._t.current_object_count - sum(self._is_other(o) for o in self._t.get_active_objects())

    @property
    def total_object_count(self):
        return self._t.total_object_count - len(self._ids)
