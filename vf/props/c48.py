"""Accumulators: the metrics are computed from exactly the predictions given, against the ground truth of the same sequence."""
import os
import types

import numpy as np

from ..runner import Case
from ._mot import frame, given_information, read, sequence, tracker

BOUNDS = "1 or 2 sequences of 1..3 frames with up to 2 tracked objects, seen or not in each frame, at symbolic positions; pandas and motmetrics are stand-ins that record what they are given and refuse what pandas refuses; and larger: 25 frames, 25 objects or 12 sequences (300, 120, 40 thorough), mostly fixed, or ids beyond 1000"
OUTSIDE = "the metrics themselves (computed by motmetrics); several sequences whose folders have the same name"


# ------------------------------------------------------------------------------ as much of pandas as a table needs
class Column:
    def __init__(self, values):
        self.values = list(values)

    def _map(self, o, f):
        return Column([f(a, b) for a, b in zip(self.values, o.values if isinstance(o, Column) else [o] * len(self.values))])

    def __ge__(self, o):
        return self._map(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._map(o, lambda a, b: a > b)

    def __lt__(self, o):
        return self._map(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._map(o, lambda a, b: a <= b)

    def __sub__(self, o):
        return self._map(o, lambda a, b: a - b)

    def __add__(self, o):
        return self._map(o, lambda a, b: a + b)

    def __invert__(self):
        return self._map(0, lambda a, b: not a)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)


class DataFrame:
    def __init__(self, data=None, columns=None, index=None, dtype=None):
        self.columns = list(columns) if columns is not None else None
        self.index_names = []
        shape = getattr(data, "shape", None)
        rows = [] if data is None else list(data)
        if shape is not None and len(shape) == 1 or shape is None and rows and not hasattr(rows[0], "__len__"):
            # pandas takes a flat list for one column
            if len(rows) and len(self.columns) != 1:
                raise ValueError(f"Shape of passed values is ({len(rows)}, 1), indices imply ({len(rows)}, {len(self.columns)})")
            rows = [[r] for r in rows]
        rows = [list(r) for r in rows]
        for r in rows:
            if len(r) != len(self.columns):
                raise ValueError(f"{len(self.columns)} columns passed, passed data had {len(r)} columns")
        self.data = {c: [r[k] for r in rows] for k, c in enumerate(self.columns)}
        self.n = len(rows)

    @classmethod
    def _of(cls, data, n, index_names):
        d = cls.__new__(cls)
        d.data, d.n, d.index_names = data, n, index_names
        return d

    def copy(self, deep=True):
        return self._of({k: list(v) for k, v in self.data.items()}, self.n, list(self.index_names))

    def set_index(self, keys, inplace=False, **kw):
        d = self if inplace else self.copy()
        d.index_names = [keys] if isinstance(keys, str) else list(keys)
        for k in d.index_names:
            if k not in d.data:
                raise KeyError(k)
        return None if inplace else d

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **kw):
        c = columns if columns is not None else labels
        d = self if inplace else self.copy()
        for k in [c] if isinstance(c, str) else c:
            del d[k]
        return None if inplace else d

    def __delitem__(self, k):
        del self.data[k]

    def __getitem__(self, k):
        if isinstance(k, Column) or isinstance(k, list) and len(k) == self.n and all(isinstance(x, (bool, np.bool_)) for x in k) and k:
            keep = [i for i, b in enumerate(k) if b]
            return self._of({c: [v[i] for i in keep] for c, v in self.data.items()}, len(keep), list(self.index_names))
        if isinstance(k, (list, tuple)):
            return self._of({c: list(self.data[c]) for c in k}, self.n, [])
        if k in self.index_names:
            raise KeyError(k)
        return Column(self.data[k])

    def __setitem__(self, k, v):
        ks = list(k) if isinstance(k, (list, tuple)) else [k]
        for i, c in enumerate(ks):
            if isinstance(v, DataFrame):
                self.data[c] = list(v.data[c])
            elif isinstance(v, Column):
                self.data[c] = list(v.values)
            else:
                self.data[c] = [v[i] if isinstance(v, (list, tuple)) else v] * self.n

    def _arith(self, o, f):
        cs = list(self.data)
        os_ = list(o) if isinstance(o, (list, tuple)) else [o] * len(cs)
        return self._of({c: [f(x, y) for x in self.data[c]] for c, y in zip(cs, os_)}, self.n, list(self.index_names))

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __len__(self):
        return self.n

    @property
    def empty(self):
        return not self.n


class MM:
    """stands in for motmetrics"""

    def __init__(self):
        m = self.module = types.ModuleType("motmetrics")
        m.metrics, m.io, m.utils, m.lap = (types.SimpleNamespace() for _ in range(4))
        m.metrics.motchallenge_metrics = ["mota", "idf1"]
        m.metrics.create = lambda: types.SimpleNamespace(compute_many=self.compute_many, formatters={"mota": str})
        m.io.loadtxt = self.loadtxt
        m.io.render_summary = self.render
        m.io.motchallenge_metric_names = {"mota": "MOTA"}
        m.utils.compare_to_groundtruth = self.compare
        m.lap.default_solver = "lapsolver"
        self.loads, self.compares, self.computes, self.renders = [], [], [], []

    def loadtxt(self, fname, fmt="mot15-2D", min_confidence=-1, **kw):
        self.loads.append((fname, getattr(fmt, "value", fmt), min_confidence))
        return ("truth", str(fname))

    def compare(self, gt, dt, dist="iou", distfields=None, distth=0.5, **kw):
        self.compares.append((gt, dt, dist, distth))
        return ("acc", len(self.compares) - 1)

    def compute_many(self, dfs, metrics=None, names=None, generate_overall=False, **kw):
        self.computes.append((list(dfs), list(metrics), list(names), generate_overall))
        return ("summary", len(self.computes) - 1)

    def render(self, summary, formatters=None, namemap=None, **kw):
        self.renders.append((summary, formatters, namemap))
        return f"table {summary[1]}\n"


def evaluate(env, lengths, n, own_info=False, metrics=None, overall=True, slash=False, used=0):
    mm = MM()
    pd = types.ModuleType("pandas")
    pd.DataFrame = DataFrame
    env.fresh_world(modules={"motmetrics": mm.module, "pandas": pd})
    M = env.mod("norfair.metrics")
    root = env.scratch()
    acc = M.Accumulators()
    want, paths = [], []
    for s, length in enumerate(lengths):
        path = sequence(env, f"SEQ-{s + 10}.v{s // 2}", length)
        paths.append(path)
        kw = dict(information_file=given_information(env, M, path)) if own_info else {}
        acc.create_accumulator(path + "/" if slash else path, **kw)
        t = tracker(env, used)
        rows = []
        for f in range(1, length + 1):
            objs, r = frame(env, t, f, n, prefix=f"s{s}_", scores=own_info, free=length < 10 and len(lengths) < 4 or f in (1, length) and s in (0, len(lengths) - 1))
            acc.update(objs)
            rows += [(f,) + x for x in r]
        want.append(rows)
        if not rows:
            env.reach("no predictions")
        if len(rows) == 1:
            env.reach("one prediction")
    kw = {} if metrics is None else dict(metrics=metrics)
    if not overall:
        kw["generate_overall"] = False
    got = acc.compute_metrics(**kw)
    env.check(len(mm.computes) == 1 and got == ("summary", 0), "the summary is returned")
    accs, names, what, gen = mm.computes[0][0], mm.computes[0][2], mm.computes[0][1], mm.computes[0][3]
    env.check(sorted(what) == sorted(metrics or ["mota", "idf1"]), "the metrics asked for, or all of MOTChallenge")
    env.check(bool(gen) == overall, "the overall row as asked for")
    env.check(sorted(map(str, names)) == sorted(os.path.basename(p) for p in paths), "every sequence once")
    env.check(len(accs) == len(names) == len(mm.compares), "one comparison per sequence")
    for name, a in zip(names, accs):
        k = [os.path.basename(p) for p in paths].index(str(name))
        gt, dt, dist, th = mm.compares[a[1]]
        env.check((gt[0], os.path.normpath(gt[1])) == ("truth", os.path.join(paths[k], "gt", "gt.txt")), "against the ground truth of the sequence")
        env.check(dist == "iou" and th == 0.5, "by intersection over union, to one half")
        env.check(dt.index_names == ["FrameId", "Id"], "by frame and id")
        env.check(dt.n == len(want[k]), "every prediction of the sequence, and no other")
        todo = list(want[k])
        for i in range(dt.n):
            row = [dt.data[c][i] for c in ("FrameId", "Id", "X", "Y", "Width", "Height")]
            w = todo.pop(0)
            env.check(env.And(row[0] == w[0], row[1] == w[1]), "frame and id")
            for x, y in zip(row[2:], (w[2] - 1, w[3] - 1, w[4], w[5])):
                env.check_close(x, y, "left and top (counted from one), width and height", tol=1e-10)
            env.reach("row")
    env.check(all(ld[1] == "mot15-2D" and ld[2] == 1 for ld in mm.loads), "ground truth in the format of MOTChallenge, without what is not to be considered")
    out = os.path.join(root, "results", "deep")
    acc.save_metrics(save_path=out, file_name="m.txt")
    acc.save_metrics(save_path=out)
    if used:
        acc.save_metrics(save_path=out, file_name="m.txt")
    for name in ("m.txt", "metrics.txt"):
        env.check(os.path.isfile(os.path.join(out, name)) and read(os.path.join(out, name)) == "table 0\n", "the table is saved")
    env.check(mm.renders[0][0] == got, "of the summary")
    env.observe("rows", [len(w) for w in want])


def without(env, length):
    """update() without predictions is a frame without predictions"""
    mm = MM()
    pd = types.ModuleType("pandas")
    pd.DataFrame = DataFrame
    env.fresh_world(modules={"motmetrics": mm.module, "pandas": pd})
    M = env.mod("norfair.metrics")
    path = sequence(env, "SEQ-01", length)
    acc = M.Accumulators()
    acc.create_accumulator(path)
    t = tracker(env)
    want = []
    for f in range(1, length + 1):
        if env.split(env.bool(f"without{f}")):
            acc.update()
            env.reach("without")
        else:
            objs, r = frame(env, t, f, 1, scores=True)
            acc.update(predictions=objs)
            want += [(f,) + x for x in r]
    acc.compute_metrics()
    dt = mm.compares[0][1]
    env.check(dt.n == len(want), "every prediction, and no other")
    for i, w in enumerate(want):
        env.check(env.And(dt.data["FrameId"][i] == w[0], dt.data["Id"][i] == w[1]), "frame and id")
        env.check_close(dt.data["X"][i], w[2] - 1, "left")
    env.observe("n", dt.n)


def cases(tier):
    q = tier == "quick"
    ex = ("row", "no predictions", "one prediction")
    cs = [
        Case("one-object", evaluate, dict(lengths=[3], n=1), expect=ex),
        Case("one-frame", evaluate, dict(lengths=[1], n=2, own_info=True, metrics=["mota"], overall=False), expect=ex),
        Case("two-sequences", evaluate, dict(lengths=[2, 1], n=1), expect=ex),
        Case("many-frames", evaluate, dict(lengths=[25 if q else 300], n=1), expect=("row",)),
        Case("many-objects", evaluate, dict(lengths=[2], n=25 if q else 120), expect=("row",)),
        Case("many-sequences", evaluate, dict(lengths=[2] * (12 if q else 40), n=1), expect=("row",)),
        Case("high-ids", evaluate, dict(lengths=[2, 1], n=1, used=1022), expect=("row",)),
        Case("slash", evaluate, dict(lengths=[1, 1], n=1, slash=True), expect=("row",)),
        Case("without", without, dict(length=2), expect=("without",)),
    ]
    if not q:
        cs.append(Case("two-objects", evaluate, dict(lengths=[3], n=2), expect=ex))
        cs.append(Case("three-sequences", evaluate, dict(lengths=[1, 2, 1], n=1, own_info=True), expect=ex))
    return cs
