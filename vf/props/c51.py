"""The unit and the direction of the axes do not matter."""
from ..runner import Case
from ._twin import twin

BOUNDS = "one or two objects of up to 3 points in 2 or 3 dimensions, up to 4 frames, symbolic positions and threshold; factors 2, 1/4, -1, -8 and 4096; mean_manhattan, cityblock, chebyshev, sqeuclidean and a user's distance; all three filters; scored points, frames without detections, with and without ReID"
OUTSIDE = "factors that are no powers of two (float rounding); distances that need a root"
BUSY = ("two-objects", "reid", "gap-none")


def scaled(env, factors=(2, 0.25, -1, -8, 4096), power=1, **kw):
    k = env.choice("factor", list(factors))
    m = lambda rows: [[x * k for x in r] for r in rows]
    twin(env, points=m, back=m, unit=abs(k) ** power, **kw)
    env.reach("scaled")


def cases(tier):
    q = tier == "quick"
    e = ("matched", "unmatched", "scaled")
    cs = [Case(f"{d}-optimized", scaled, dict(dist=d, kind="optimized", frames=2, nd=1, pts=2, dim=2), expect=e) for d in ("mean_manhattan", "cityblock", "chebyshev", "user")]
    cs.append(Case("sqeuclidean-optimized", scaled, dict(dist="sqeuclidean", power=2, factors=(4, -0.5), kind="optimized", frames=2, nd=1, pts=1, dim=2), expect=e))
    for k in ("optimized", "filterpy", "none"):
        cs.append(Case(f"scored-{k}", scaled, dict(dist="always", factors=(-2, 1024), kind=k, frames=4 if k != "filterpy" else 3, nd=1, pts=2, dim=2, scored=True), expect=("matched", "scaled")))
        cs.append(Case(f"gap-{k}", scaled, dict(dist="cityblock", factors=(-2, 64), kind=k, frames=3, gaps=(1,), nd=1, pts=1, dim=3), expect=e))
    cs.append(Case("two-objects", scaled, dict(dist="cityblock", factors=(-1, 4), kind="none", frames=2, nd=2, pts=1, dim=2), expect=e))
    cs.append(Case("reid", scaled, dict(dist="cityblock", factors=(-4, 0.5), kind="none", frames=6, gaps=(2, 3), nd=1, pts=1, dim=2, reid=True), expect=e + ("found again",)))
    cs.append(Case("three-points", scaled, dict(dist="always", factors=(-4, 0.5), kind="optimized", frames=3, nd=1, pts=3, dim=3), expect=("matched", "scaled")))
    if not q:
        cs.append(Case("two-objects-optimized", scaled, dict(dist="cityblock", factors=(-1, 4), kind="optimized", frames=2, nd=2, pts=1, dim=2), expect=e))
        cs.append(Case("reid-optimized", scaled, dict(dist="cityblock", factors=(-4,), kind="optimized", frames=6, gaps=(2, 3), nd=1, pts=1, dim=2, reid=True), expect=e + ("found again",)))
        cs.append(Case("three-frames", scaled, dict(dist="cityblock", factors=(-2, 64), kind="optimized", frames=3, nd=1, pts=2, dim=2), expect=e))
    return cs
