"""The optimized Kalman filter is the textbook constant-velocity filter, coordinate by coordinate."""
from ..runner import Case

BOUNDS = "arbitrary initial state and covariance (symbolic, positive semidefinite), symbolic R >= 0 and Q >= 0, one predict/update cycle fully symbolic and up to 4 cycles with default parameters and symbolic measurements (and 60, 200 in thorough, a few of them symbolic); coordinates and velocities up to 10^6; 1..3 points in 2 or 3 dimensions, any subset of coordinates measured; optional per-coordinate R"
OUTSIDE = "float rounding (exact reals); covariance growth over several predictions without an update, which the filter applies once per update by design"

BIG = 10**6  # coordinates and velocities


def textbook(env, state, r, q, z, seen):
    """state (x, v, p, c, w): one predict and, when seen, one update"""
    x, v, p, c, w = state
    x = x + v
    p, c, w = p + 2 * c + w + q, c + w, w + q
    if seen:
        s = p + r
        kp, kv = p / s, c / s
        e = z - x
        x, v = x + kp * e, v + kv * e
        p, c, w = (1 - kp) * p, (1 - kp) * c, w - kv * c
    return x, v, p, c, w


def H_of(env, np, seen):
    n = len(seen)
    h = [[(1.0 if (i == j and seen[i]) else 0.0) for j in range(2 * n)] for i in range(n)]
    return env.arr(h)


def one_cycle(env, pts, dim, given_r):
    nf, np = env.nf, env.np
    R = env.real("R", 0, 1000)
    Q = env.real("Q", 0, 100)
    p, c, w = env.real("pos", 0, 1000), env.real("cov", -1000, 1000), env.real("vel", 0, 1000)
    env.assume(p * w >= c * c, p + 2 * c + w >= 0)
    if given_r:
        env.assume(R > 0)
    else:
        env.assume(R + p + 2 * c + w + Q > 0)  # exact measurements are fine as long as the prediction is not exact, too
    n = pts * dim
    init = [[env.real(f"i{a}_{b}", -BIG, BIG) for b in range(dim)] for a in range(pts)]
    flt = nf.OptimizedKalmanFilterFactory(R=R, Q=Q, pos_variance=p, pos_vel_covariance=c, vel_variance=w).create_filter(env.arr(init))
    x0 = env.flat(init)
    env.check_all_close(flt.x, x0 + [0] * n, "starts at the detection, at rest")
    vs = [env.real(f"v{k}", -BIG, BIG) for k in range(n)]
    for k in range(n):
        flt.x[n + k] = vs[k]
    seen = [env.split(env.bool(f"seen{k}")) for k in range(n)]
    z = [env.real(f"z{k}", -BIG, BIG) for k in range(n)]
    rs = [R] * n
    kw = {}
    if given_r:
        rs = [env.real(f"r{k}", 0, 1000) for k in range(n)]
        env.assume([r > 0 for r in rs])
        kw = dict(R=np.diag(env.arr(rs)))
    flt.predict()
    env.check_all_close(flt.x, [a + b for a, b in zip(x0, vs)] + vs, "prediction moves by the velocity")
    flt.update(env.arr([[v] for v in z]), H=H_of(env, np, seen), **kw)
    st = [textbook(env, (x0[k], vs[k], p, c, w), rs[k], Q, z[k], seen[k]) for k in range(n)]
    for k in range(n):
        env.reach("measured" if seen[k] else "unmeasured")
        env.check_close(flt.x[k, 0], st[k][0], "position after the update")
        env.check_close(flt.x[n + k, 0], st[k][1], "velocity after the update")
        for name, j in (("pos_variance", 2), ("pos_vel_covariance", 3), ("vel_variance", 4)):
            a = getattr(flt, name, None)
            if a is not None:
                env.check_close(env.flat(a)[k], st[k][j], "covariance after the update")


def cycles(env, pts, dim, steps, always=False, free=99):
    """several cycles with concrete parameters"""
    nf, np = env.nf, env.np
    R, Q, p, c, w = env.choice("params", [(4.0, 0.5, 10, 0, 1), (1.0, 0.25, 2.0, 0.5, 3.0), (16.0, 0.0, 1.0, -0.25, 0.5)])
    n = pts * dim
    init = [[env.real(f"i{a}_{b}", -BIG, BIG) if steps < 20 else 2.0 * b - a for b in range(dim)] for a in range(pts)]
    flt = nf.OptimizedKalmanFilterFactory(R=R, Q=Q, pos_variance=p, pos_vel_covariance=c, vel_variance=w).create_filter(env.arr(init))
    st = [(x, 0, p, c, w) for x in env.flat(init)]
    for s in range(steps):
        ps = [always or (env.split(env.bool(f"seen{s}_{a}")) if s < free else s % 4 > 0) for a in range(pts)]
        seen = [ps[k // dim] for k in range(n)]
        z = [env.real(f"z{s}_{k}", -BIG, BIG) if s < free == 99 or s >= steps - 2 else 10.0 * k + s * s % 7 for k in range(n)]
        flt.predict()
        kw = {} if all(seen) and s % 2 else dict(H=H_of(env, np, seen))
        flt.update(env.arr([[v] for v in z]), **kw)
        st = [textbook(env, st[k], R, Q, z[k], seen[k]) for k in range(n)]
        for k in range(n):
            env.check_close(flt.x[k, 0], st[k][0], "position")
            env.check_close(flt.x[n + k, 0], st[k][1], "velocity")
        env.reach("cycle")
    env.observe("x", flt.x)


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("one-1x2", one_cycle, dict(pts=1, dim=2, given_r=False), expect=("measured", "unmeasured"), witness_alarm=True),
        Case("one-1x2-R", one_cycle, dict(pts=1, dim=2, given_r=True), expect=("measured", "unmeasured")),
        Case("cycles-1x2", cycles, dict(pts=1, dim=2, steps=3 if q else 5), expect=("cycle",)),
        Case("cycles-many", cycles, dict(pts=1, dim=2, steps=60 if q else 200, free=2), expect=("cycle",)),
        Case("cycles-2x2", cycles, dict(pts=2, dim=2, steps=3 if q else 4), expect=("cycle",)),
    ]
    if not q:
        cs += [Case("one-2x2", one_cycle, dict(pts=2, dim=2, given_r=True)), Case("one-1x3", one_cycle, dict(pts=1, dim=3, given_r=False)),
               Case("cycles-3x2", cycles, dict(pts=3, dim=2, steps=3), expect=("cycle",))]
    return cs
