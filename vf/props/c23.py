"""NoFilter: the estimate is the last detected position."""
from ..runner import Case

BOUNDS = "one object with up to 3 points in 2 or 3 dimensions, up to 4 frames with symbolic presence and per-point confidence, symbolic coordinates"
BUSY = "all"


def last_seen(env, pts, dim, frames, scored=True):
    nf = env.nf
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, hit_counter_max=20, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    pos = None
    for f in range(frames):
        det = f == 0 or env.split(env.bool(f"det{f}"))
        if not det:
            out = t.update()
        else:
            co = [[env.real(f"c{f}_{p}_{k}", -50, 50) for k in range(dim)] for p in range(pts)]
            over = [(not scored) or f == 0 or env.split(env.bool(f"over{f}_{p}")) for p in range(pts)]
            sc = env.arr([0.5 if v else 0.0 for v in over]) if scored else None
            out = t.update([nf.Detection(env.arr(co), scores=sc)], period=4 if f == 0 else 1)
            pos = [c if (pos is None or v) else old for c, v, old in zip(co, over, pos or co)]
            env.reach("seen")
        env.check(len(out) == 1, "one object")
        env.check_all_close(out[0].estimate, pos, "the estimate is the last confident position of each point")
        env.check_all_close(out[0].estimate_velocity, [0] * (pts * dim), "there is no velocity")
        if not det:
            env.reach("idle")
    env.observe("estimate", out[0].estimate)


def direct(env, pts, dim):
    """used as a filter of its own, without a measurement function"""
    nf = env.nf
    init = [[env.real(f"i{a}_{b}", -100, 100) for b in range(dim)] for a in range(pts)]
    f = nf.NoFilterFactory().create_filter(env.arr(init))
    n = pts * dim
    f.predict()
    env.check_all_close(f.x, env.flat(init) + [0] * n, "prediction changes nothing")
    z = [env.real(f"z{k}", -100, 100) for k in range(n)]
    f.update(env.arr([[v] for v in z]))
    env.check_all_close(f.x, z + [0] * n, "an update without H replaces everything")
    env.reach("direct")
    env.observe("x", f.x)


def cases(tier):
    q = tier == "quick"
    return [
        Case("2x2", last_seen, dict(pts=2, dim=2, frames=4 if q else 5), expect=("seen", "idle")),
        Case("3x2", last_seen, dict(pts=3, dim=2, frames=3), expect=("seen", "idle")),
        Case("2x3", last_seen, dict(pts=2, dim=3, frames=3), expect=("seen", "idle")),
        Case("unscored", last_seen, dict(pts=2, dim=2, frames=5, scored=False), expect=("seen", "idle")),
        Case("direct", direct, dict(pts=2, dim=2), expect=("direct",)),
    ]
