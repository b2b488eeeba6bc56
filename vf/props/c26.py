"""frobenius, mean_euclidean and mean_manhattan are what their formulas say."""
from types import SimpleNamespace

from ..runner import Case
from ._many import some

BOUNDS = "1..3 points in 2 or 3 dimensions, symbolic coordinates (exact reals); integer-typed detections; and larger: 33 points (133 thorough), two of them symbolic"
OUTSIDE = "float rounding (exact reals)"


def pair(env, pts, dim, integer=False, sym=None):
    if sym:
        a, b = [[[some(env, i >= pts - sym, f"{t}{i}_{k}", -100, 100) for k in range(dim)] for i in range(pts)] for t in "ab"]
        return a, b
    mk = (lambda n: env.int(n, -100, 100)) if integer else (lambda n: env.real(n, -100, 100))
    a = [[mk(f"a{i}_{k}") for k in range(dim)] for i in range(pts)]
    b = [[env.real(f"b{i}_{k}", -100, 100) for k in range(dim)] for i in range(pts)]
    return a, b


def formula(env, pts, dim, integer=False, sym=None):
    D = env.mod("norfair.distances")
    nf = env.nf
    a, b = pair(env, pts, dim, integer, sym)
    det = nf.Detection(env.arr(a, dtype=int if integer else float))
    t = nf.Tracker("frobenius", distance_threshold=1, hit_counter_max=2, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    obj = t.update([nf.Detection(env.arr(b))])[0]
    one = [(nf.Detection(env.arr([x])), SimpleNamespace(estimate=env.arr([y]))) for x, y in zip(a, b)]
    fro = D.frobenius(det, obj)
    env.check(fro >= 0, "frobenius is not negative")
    env.check_close(fro * fro, sum((x - y) * (x - y) for r, s in zip(a, b) for x, y in zip(r, s)), "frobenius: root of the summed squares")
    man = D.mean_manhattan(det, obj)
    env.check_close(man * pts, sum(env.max(x - y, y - x) for r, s in zip(a, b) for x, y in zip(r, s)), "mean_manhattan: mean of the L1 distances")
    euc = D.mean_euclidean(det, obj)
    singles = [D.frobenius(*p) for p in one]
    env.check_close(euc * pts, sum(singles), "mean_euclidean: mean of the L2 distances of the points")
    env.check(euc >= 0, "mean_euclidean is not negative")
    for x, y in zip(one, singles):
        env.check_close(D.mean_euclidean(*x), y, "for one point they agree")
    env.reach("formula")
    env.observe("d", [fro, man, euc])


def identity(env, pts, dim):
    D = env.mod("norfair.distances")
    nf = env.nf
    b = [[env.real(f"b{i}_{k}", -100, 100) for k in range(dim)] for i in range(pts)]
    a = [[y + env.real(f"u{i}_{k}", -100, 100) for k, y in enumerate(r)] for i, r in enumerate(b)]
    det, obj = nf.Detection(env.arr(a)), SimpleNamespace(estimate=env.arr(b))
    rev = nf.Detection(env.arr(b)), SimpleNamespace(estimate=env.arr(a))
    for n in ("frobenius", "mean_manhattan", "mean_euclidean"):
        f = getattr(D, n)
        d = f(det, obj)
        env.check_close(d, f(*rev), f"{n} is symmetric")
        env.check(d >= 0, f"{n} is not negative")
        for r, s in zip(a, b):
            for x, y in zip(r, s):
                env.check(env.Implies(d == 0, x == y), f"{n} is 0 only at the same place")
        z = f(det, SimpleNamespace(estimate=env.arr(a)))
        env.check_close(z, 0, f"{n} is 0 at the same place")
        env.reach(n)


def cases(tier):
    q = tier == "quick"
    cs = [Case(f"formula-{p}x{d}", formula, dict(pts=p, dim=d), expect=("formula",)) for p, d in [(1, 2), (2, 2), (3, 2), (2, 3)]]
    cs.append(Case("formula-int", formula, dict(pts=2, dim=2, integer=True), expect=("formula",)))
    cs.append(Case("formula-many", formula, dict(pts=33 if q else 133, dim=2, sym=2), expect=("formula",)))
    cs += [Case(f"identity-{p}x{d}", identity, dict(pts=p, dim=d), expect=("frobenius", "mean_manhattan", "mean_euclidean"), witness_alarm=False) for p, d in [(1, 2), (2, 2), (1, 3)]]
    return cs
