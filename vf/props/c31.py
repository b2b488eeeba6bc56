"""The translation getter returns the most common movement, accumulated over reference frames."""
from ..runner import Case
from ._many import some

BOUNDS = "up to 4 points per call and 3 calls, symbolic points, each movement anywhere in the middle three quarters of one of 11 x 11 bins, bin sizes 0.25, 0.5, 1, 2 and the default, symbolic proportion threshold; rigid movements by up to 40 (80000) bins; and larger: many points, a few of them symbolic"
OUTSIDE = "movements near the border of two bins; float rounding (exact reals)"


def mode(env, plan, size, narrow=0, fixed=0):
    C = env.mod("norfair.camera_motion")
    T = env.dyadic("proportion_threshold", 0, 1, 16)
    kw = {} if size is None else dict(bin_size=size)
    g = C.TranslationTransformationGetter(proportion_points_used_threshold=T, **kw)
    s = 0.2 if size is None else size
    base = [0, 0]
    kept = []
    for c, n in enumerate(plan):
        prev = [[some(env, i >= fixed, f"p{c}_{i}_{k}", -100, 100) for k in range(2)] for i in range(n)]
        # each movement: a bin and a displacement from its centre
        bins = [[env.int(f"k{c}_{i}_{k}", -5, 5) if not narrow else env.int(f"k{c}_{i}", 0, narrow) if k == 0 else 1 for k in range(2)] for i in range(n)]
        for i in range(fixed):  # three movements, seen equally often but for the rest
            bins[i] = [(2, 1), (-3, 0), (2, -1)][i % 3]
        off = [[env.dyadic(f"e{c}_{i}_{k}", -1, 1) * s * 0.375 if i >= fixed else s * 0.25 * (i % 2) for k in range(2)] for i in range(n)]
        curr = [[prev[i][k] + bins[i][k] * s + off[i][k] for k in range(2)] for i in range(n)]
        a, b = env.arr(curr), env.arr(prev)
        update, tr = g(a, b)
        env.check_all_close(a, curr, "current points left alone")
        env.check_all_close(b, prev, "previous points left alone")
        v = env.flat(tr.movement_vector)
        env.check(len(v) == 2, "a 2D movement")
        mv = [x - y for x, y in zip(v, base)]
        # this call's movement: the centre of a bin no other bin beats
        hit = lambda i: env.And(*[env.And(bins[i][k] * s - mv[k] < 1e-6, bins[i][k] * s - mv[k] > -1e-6) for k in range(2)])
        cnt = lambda xs: sum(env.Ite(x, 1, 0) for x in xs)
        used = cnt([hit(i) for i in range(n)])
        env.check(used >= 1, "the movement is one that was seen")
        for i in range(n):
            env.check(used >= cnt([env.And(*[bins[i][k] == bins[j][k] for k in range(2)]) for j in range(n)]), "no other movement was seen more often")
        env.check(env.Iff(used < T * n, update), "the reference is replaced exactly when too few points agree")
        pos = [[env.real(f"q{c}_{k}", -50, 50) for k in range(2)]]
        env.check_all_close(tr.abs_to_rel(env.arr(pos)), [[x + y for x, y in zip(pos[0], v)]], "the transformation moves points by it")
        for t, w in kept:
            env.check_all_close(t.movement_vector, w, "transformations given before stay what they were")
        kept.append((tr, v))
        if env.split(update):
            base = v
            env.reach("replaced")
        else:
            env.reach("kept")
    env.observe("update", update)


def rigid(env, size, n, calls, far=40):
    """all points moved by the same multiple of the bin: the transformations are exact, and add up over reference frames"""
    C = env.mod("norfair.camera_motion")
    T = env.choice("threshold", [0.0, 0.5, 1.0, 2.0])
    g = C.TranslationTransformationGetter(bin_size=size, proportion_points_used_threshold=T)
    total = [0, 0]  # movement of the reference frame
    for c in range(calls):
        k = [env.int(f"k{c}_{i}", -far, far) for i in range(2)]
        prev = [[env.real(f"p{c}_{i}_{j}", -100, 100) for j in range(2)] for i in range(n)]
        curr = [[x + m * size for x, m in zip(p, k)] for p in prev]
        update, tr = g(env.arr(curr), env.arr(prev))
        now = [t + m * size for t, m in zip(total, k)]
        env.check_all_close(tr.movement_vector, now, "the movement since the first frame")
        if T <= 1:
            env.check(env.Not(update), "everything agrees: the reference stays")
        else:
            env.check(update, "an unreachable threshold: the reference is replaced every time")
            total = now
    env.reach(f"threshold {'low' if T <= 1 else 'high'}")


def cases(tier):
    q = tier == "quick"
    e = ("replaced", "kept")
    cs = [Case(f"mode-{n}-{str(s)}", mode, dict(plan=[n], size=s), expect=e if n > 1 else ()) for n in (1, 2, 3) for s in (0.25, 1)]
    cs.append(Case("mode-coarse", mode, dict(plan=[3], size=2), expect=e))
    cs.append(Case("mode-default-bin", mode, dict(plan=[2], size=None), expect=e))
    cs.append(Case("mode-sequence", mode, dict(plan=[2, 2], size=0.5), expect=e))
    cs.append(Case("mode-many", mode, dict(plan=[4 if q else 5], size=0.5, narrow=1 if q else 2), expect=e))
    cs.append(Case("mode-crowd", mode, dict(plan=[37] if q else [200], fixed=36 if q else 198, size=0.5), expect=e))
    cs.append(Case("rigid", rigid, dict(size=0.25, n=2, calls=3), expect=("threshold low", "threshold high")))
    cs.append(Case("rigid-default-bin", rigid, dict(size=0.2, n=2, calls=2), expect=("threshold low", "threshold high")))
    cs.append(Case("rigid-far", rigid, dict(size=0.25, n=1, calls=2, far=80000), expect=("threshold low", "threshold high")))
    if not q:
        cs.append(Case("mode-4", mode, dict(plan=[4], size=0.5), expect=e))
        cs.append(Case("mode-sequence-long", mode, dict(plan=[2, 1, 2], size=0.5), expect=e))
    return cs
