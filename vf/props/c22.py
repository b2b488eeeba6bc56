"""The FilterPy filters are the documented constant-velocity model."""
from ..runner import Case
from .c20 import H_of

BOUNDS = "symbolic R, Q, P multipliers for the model; up to 3 predict/update cycles with concrete multipliers and symbolic measurements of any subset of points; 1..2 points in 2 or 3 dimensions"
OUTSIDE = "float rounding (exact reals); which block of the initial covariance P scales (the documentation says position, the code has always scaled velocity: see DESIGN.md)"


def model(env, pts, dim):
    nf, np = env.nf, env.np
    R, Q, P = env.real("R", 0, 1000), env.real("Q", 0, 1000), env.real("P", 0, 1000)
    env.assume(R > 0, P > 1)
    n = pts * dim
    init = [[env.real(f"i{a}_{b}", -100, 100) for b in range(dim)] for a in range(pts)]
    f = nf.FilterPyKalmanFilterFactory(R=R, Q=Q, P=P).create_filter(env.arr(init))
    I = lambda i, j, v=1: v if i == j else 0
    env.check(f.x.shape == (2 * n, 1), "positions and velocities")
    env.check_all_close(f.x, env.flat(init) + [0] * n, "starts at the detection, at rest")
    env.check_all_close(f.F, [[I(i, j) + I(i + n, j) for j in range(2 * n)] for i in range(2 * n)], "constant velocity")
    env.check_all_close(f.H, [[I(i, j) for j in range(2 * n)] for i in range(n)], "positions are measured")
    env.check_all_close(f.R, [[I(i, j, R) for j in range(n)] for i in range(n)], "measurement noise")
    env.check_all_close(f.Q, [[I(i, j, Q if i >= n else 1) for j in range(2 * n)] for i in range(2 * n)], "process noise")
    pm = f.P
    blocks = env.flat(pm[0, 0]) + env.flat(pm[n, n])
    env.check(env.Or(env.And(blocks[0] == P, blocks[1] == 1), env.And(blocks[0] == 1, blocks[1] == P)), "P scales one block")
    env.check_all_close(pm, [[I(i, j, blocks[0] if i < n else blocks[1]) for j in range(2 * n)] for i in range(2 * n)], "initial covariance")
    env.reach("model")
    env.observe("x", f.x)


def cycles(env, pts, dim, steps):
    nf, np = env.nf, env.np
    R, Q, P = env.choice("params", [(4.0, 0.5, 1.0), (1.0, 0.25, 1.0)])
    n = pts * dim
    init = [[env.real(f"i{a}_{b}", -100, 100) for b in range(dim)] for a in range(pts)]
    f = nf.FilterPyKalmanFilterFactory(R=R, Q=Q, P=P).create_filter(env.arr(init))
    st = [(x, 0, 1.0, 0.0, 1.0) for x in env.flat(init)]
    for s in range(steps):
        ps = [env.split(env.bool(f"seen{s}_{a}")) for a in range(pts)]
        seen = [ps[k // dim] for k in range(n)]
        z = [env.real(f"z{s}_{k}", -100, 100) for k in range(n)]
        f.predict()
        f.update(env.arr([[v] for v in z]), None, H_of(env, np, seen))
        new = []
        for k in range(n):
            x, v, p, c, w = st[k]
            x, p, c, w = x + v, p + 2 * c + w + 1.0, c + w, w + Q
            if seen[k]:
                sv = p + R
                kp, kv, e = p / sv, c / sv, z[k] - x
                x, v, p, c, w = x + kp * e, v + kv * e, (1 - kp) * p, (1 - kp) * c, w - kv * c
            new.append((x, v, p, c, w))
        st = new
        for k in range(n):
            env.check_close(f.x[k, 0], st[k][0], "position of the textbook filter")
            env.check_close(f.x[n + k, 0], st[k][1], "velocity of the textbook filter")
        env.reach("cycle")
    env.observe("x", f.x)


def cases(tier):
    q = tier == "quick"
    return [
        Case("model-1x2", model, dict(pts=1, dim=2), expect=("model",)),
        Case("model-2x2", model, dict(pts=2, dim=2), expect=("model",)),
        Case("model-2x3", model, dict(pts=2, dim=3), expect=("model",)),
        Case("cycles-1x2", cycles, dict(pts=1, dim=2, steps=3), expect=("cycle",)),
        Case("cycles-2x2", cycles, dict(pts=2, dim=2, steps=2 if q else 3), expect=("cycle",)),
    ]
