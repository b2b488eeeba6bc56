"""Points and coordinates are interchangeable and estimated independently of each other."""
import itertools

from ..runner import Case
from ._twin import twin
from .c11 import factory

BOUNDS = "one or two objects of up to 3 points in 2 or 3 dimensions, up to 4 frames, symbolic positions, scores and threshold; every order of points and of axes; mean_manhattan, cityblock, chebyshev and a user's distance; all three filters; with and without ReID"
OUTSIDE = "float rounding (exact reals)"
BUSY = "all"


def permuted(env, what, pts, dim, scored=False, **kw):
    n = pts if what == "points" else dim
    p = env.choice("order", list(itertools.permutations(range(n)))[1:])
    if what == "points":
        m = lambda rows: [list(rows[i]) for i in p]
        v = lambda xs: [xs[i] for i in p]
    else:
        m = lambda rows: [[r[i] for i in p] for r in rows]
        v = lambda xs: xs
    twin(env, points=m, back=m, scores=v, rows=v, pts=pts, dim=dim, scored=scored, **kw)
    env.reach("permuted")


def alone(env, kind, pts, dim, frames, axes=None, idle=()):
    """a tracker of objects with several points, and one tracker per point (or per choice of axes) of its own"""
    nf = env.nf
    parts = [([p], list(range(dim))) for p in range(pts)] if axes is None else [(list(range(pts)), list(a)) for a in axes]
    make = lambda: nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=9, initialization_delay=0, filter_factory=factory(env, kind), pointwise_hit_counter_max=2)
    whole, single = make(), [make() for _ in parts]
    for f in range(frames):
        if f in idle:
            for t in [whole] + single:
                t.update()
        else:
            c = [[env.real(f"c{f}_{p}_{k}", -50, 50) for k in range(dim)] for p in range(pts)]
            sc = [1.0 if env.split(env.bool(f"over{f}_{p}")) else 0.0 for p in range(pts)]
            per = env.choice(f"period{f}", [1, 2]) if f == 0 else 1
            whole.update([nf.Detection(env.arr(c), scores=env.arr(sc))], period=per)
            for t, (ps, ks) in zip(single, parts):
                t.update([nf.Detection(env.arr([[c[p][k] for k in ks] for p in ps]), scores=env.arr([sc[p] for p in ps]))], period=per)
        o = whole.tracked_objects[0]
        for t, (ps, ks) in zip(single, parts):
            x = t.tracked_objects[0]
            env.check((x.hit_counter, x.age, x.id) == (o.hit_counter, o.age, o.id), "the same counters")
            env.check([bool(v) for v in x.live_points] == [bool(o.live_points[p]) for p in ps], "the same points are live")
            env.check_all_close(x.estimate, [[o.estimate[p, k] for k in ks] for p in ps], "the estimate of a point is its own")
            env.check_all_close(x.estimate_velocity, [[o.estimate_velocity[p, k] for k in ks] for p in ps], "so is its velocity")
        env.reach("compared")
    env.observe("estimate", o.estimate)


def cases(tier):
    q = tier == "quick"
    e = ("matched", "unmatched", "permuted")
    cs = []
    for w in ("points", "axes"):
        for d in ("mean_manhattan", "cityblock", "chebyshev", "user"):
            cs.append(Case(f"{w}-{d}", permuted, dict(what=w, dist=d, kind="optimized", frames=2, nd=1, pts=2, dim=2), expect=e))
        for k in ("optimized", "filterpy", "none"):
            cs.append(Case(f"{w}-scored-{k}", permuted, dict(what=w, dist="always", kind=k, frames=3, nd=1, pts=2, dim=2, scored=True), expect=("matched", "permuted")))
        cs.append(Case(f"{w}-three", permuted, dict(what=w, dist="always", kind="optimized", frames=3, gaps=(1,), nd=1, pts=3, dim=3), expect=e))
        cs.append(Case(f"{w}-two-objects", permuted, dict(what=w, dist="cityblock", kind="none", frames=2, nd=2, pts=2 if w == "points" else 1, dim=2), expect=e))
        cs.append(Case(f"{w}-reid", permuted, dict(what=w, dist="cityblock", kind="none", frames=6, gaps=(2, 3), nd=1, pts=2, dim=2, reid=True), expect=e + ("found again",)))
    for k in ("optimized", "filterpy", "none"):
        cs.append(Case(f"alone-{k}", alone, dict(kind=k, pts=2, dim=2, frames=3 if q else 4), expect=("compared",)))
        cs.append(Case(f"alone-idle-{k}", alone, dict(kind=k, pts=2, dim=2, frames=4, idle=(1, 2)), expect=("compared",)))
        cs.append(Case(f"axes-{k}", alone, dict(kind=k, pts=1, dim=3, frames=3, axes=[(0, 1), (1, 2), (2, 0)]), expect=("compared",)))
    cs.append(Case("alone-three", alone, dict(kind="optimized", pts=3, dim=2, frames=2 if q else 3), expect=("compared",)))
    return cs
