"""The filters are well-conditioned: gains stay within [0, 1] and covariances positive semidefinite."""
from ..runner import Case

BOUNDS = "one predict/update cycle from an arbitrary positive semidefinite covariance with symbolic R > 0 and Q >= 0 (so any number of cycles, by induction over the covariance), measured or not; two cycles through the tracker for the default filter"
OUTSIDE = "float rounding (exact reals)"
BUSY = "all"


def cycle(env, given_r):
    nf, np = env.nf, env.np
    R, Q = env.real("R", 0, 1000), env.real("Q", 0, 100)
    # the covariance is given by what the prediction makes of it, an arbitrary positive semidefinite matrix
    p1, c1, w1 = env.real("p1", 0, 1000), env.real("c1", -1000, 1000), env.real("w1", 0, 1000)
    w = w1 - Q
    c = c1 - w
    p = p1 - 2 * c - w - Q
    env.assume(R > 0, p1 * w1 >= c1 * c1)
    f = nf.OptimizedKalmanFilterFactory(R=R, Q=Q, pos_variance=p, pos_vel_covariance=c, vel_variance=w).create_filter(env.arr([[0.0, 0.0]]))
    seen = env.split(env.bool("seen"))
    v = env.real("v", -50, 50)
    f.x[2] = v
    z = env.real("z", -100, 100)
    f.predict()
    kw = dict(R=np.diag(env.arr([R, R]))) if given_r else {}
    f.update(env.arr([[z], [0.0]]), H=env.arr([[1.0 if seen else 0.0, 0, 0, 0], [0, 1.0 if seen else 0.0, 0, 0]]), **kw)
    x = f.x[0, 0]
    if seen:
        env.check(env.Or(env.And(v <= x, x <= z), env.And(z <= x, x <= v)), "the estimate lies between prediction and measurement")
        env.reach("measured")
    else:
        env.check(x == v, "without a measurement the prediction stands")
        env.reach("unmeasured")
    P, C, W = (getattr(f, n, None) for n in ("pos_variance", "pos_vel_covariance", "vel_variance"))
    if P is not None and C is not None and W is not None:
        P, C, W = env.flat(P)[0], env.flat(C)[0], env.flat(W)[0]
        env.check(P >= 0, "position variance not negative")
        env.check(W >= 0, "velocity variance not negative")
        env.check(P * W >= C * C, "covariance positive semidefinite")
        if seen:
            env.check(P <= R, "a measured position is at least as certain as the measurement")


def prediction(env):
    """the prediction keeps a covariance positive semidefinite (the lemma that links the cycles of `cycle`)"""
    Q = env.real("Q", 0, 100)
    p, c, w = env.real("pos", 0, 1000), env.real("cov", -1000, 1000), env.real("vel", 0, 1000)
    env.assume(p * w >= c * c)
    p1, c1, w1 = p + 2 * c + w + Q, c + w, w + Q
    env.check(p1 >= 0, "variance")
    env.check(w1 >= 0, "variance")
    env.check(p1 * w1 >= c1 * c1, "determinant")
    env.reach("lemma")


def between(env, frames, dim):
    """default filter through the tracker: the estimate lies between the extrapolation and the detection"""
    nf = env.nf
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=9, initialization_delay=0)
    t.update([nf.Detection(env.arr([[env.real(f"a{k}", -100, 100) for k in range(dim)]]))])
    for f in range(frames):
        o = t.tracked_objects[0]
        pred = [e + v for e, v in zip(env.flat(o.estimate), env.flat(o.estimate_velocity))]
        z = [env.real(f"b{f}_{k}", -100, 100) for k in range(dim)]
        out = t.update([nf.Detection(env.arr([z]))])
        env.check(len(out) == 1, "one object")
        for x, a, b in zip(env.flat(out[0].estimate), pred, z):
            env.check(env.Or(env.And(a <= x, x <= b), env.And(b <= x, x <= a)), "the estimate lies between extrapolation and detection")
        env.reach("measured")


def cases(tier):
    q = tier == "quick"
    return [
        Case("cycle", cycle, dict(given_r=False), expect=("measured", "unmeasured"), witness=1),
        Case("cycle-R", cycle, dict(given_r=True), expect=("measured", "unmeasured"), witness=1),
        Case("prediction", prediction, {}, expect=("lemma",), path_s=60),
        Case("between", between, dict(frames=2 if q else 4, dim=2 if q else 3), expect=("measured",)),
    ]
