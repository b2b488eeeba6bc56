"""Without OpenCV or motmetrics everything else works, and what needs them says so."""
from ..runner import Case
from ._draw import Canvas
from ._twin import Named, state
from .c11 import factory

BOUNDS = "histories of 2 (3 thorough) frames of up to 2 detections of symbolic presence, coordinates and distances in a program without OpenCV, motmetrics and pandas and in one with them; every function of the documentation that needs them, with symbolic objects to draw or write"
OUTSIDE = "what the message says beyond the name of the missing package; the way it is coloured"

MISSING = {"cv2": None, "motmetrics": None, "pandas": None}


def needs(env, name, call):
    _, e = env.trial(call)
    env.check(isinstance(e, ImportError), f"{name} raises ImportError")
    env.check("norfair" in str(e).lower() and "install" in str(e).lower(), f"{name} says what to install")
    env.reach("says so")


def tracking(env, kind, frames):
    """the same history with and without the optional packages"""
    got = []
    seen = [[env.split(env.bool(f"seen{f}{i}")) for i in range(2)] for f in range(frames)]
    pos = [[[[env.real(f"p{f}{i}{k}", -50, 50) for k in range(2)]] for i in range(2)] for f in range(frames)]
    move = [[env.real(f"m{f}{k}", -50, 50) for k in range(2)] for f in range(frames)]
    N = Named(env)
    for missing in (True, False):
        env._nf = None
        env.fresh_world(modules=MISSING if missing else {})
        N.env = env
        nf, C = env.nf, env.mod("norfair.camera_motion")
        t = N.tracker(hit_counter_max=2, initialization_delay=0, filter_factory=factory(env, kind), reid=2)
        log = []
        for f in range(frames):
            ds = [nf.Detection(env.arr(pos[f][i]), data=f"x{i}f{f}") for i in range(2) if seen[f][i]]
            out = t.update(ds, coord_transformations=C.TranslationTransformation(env.arr(move[f])))
            log.append((state(t), [o.id for o in out], [o.estimate for o in t.tracked_objects], [o.estimate_velocity for o in t.tracked_objects]))
            env.reach("visible" if out else "nothing visible")
        got.append(log)
    for a, b in zip(*got):
        env.check(a[:2] == b[:2], "the same objects without OpenCV")
        for x, y in zip(a[2] + a[3], b[2] + b[3]):
            env.check_all_close(x, y, "the same estimates without OpenCV")
    env.observe("last", got[0][-1][:2])


def drawn(env):
    env.fresh_world(modules=MISSING)
    nf = env.nf
    D = env.mod("norfair.drawing.drawer")
    h, w = env.int("h", 1, 2000), env.int("w", 1, 2000)
    pts = [[env.real(f"p{i}{k}", -100, 100) for k in range(2)] for i in range(2)]
    det = nf.Detection(env.arr(pts), scores=env.arr([env.real("s", 0, 1), 0.5]), label="a")
    ident = env.mod("norfair.camera_motion").TranslationTransformation(env.arr([0.0, 0.0]))
    obj = nf.Tracker(lambda d, o: 0.0, distance_threshold=1, initialization_delay=0).update([nf.Detection(env.arr(pts))], coord_transformations=ident)
    frame = Canvas(h, w)
    P = (3, 4)
    which = env.choice("which", ["draw_points", "draw_boxes", "draw_tracked_objects", "draw_tracked_boxes", "Paths", "AbsolutePaths", "draw_absolute_grid", "circle", "rectangle", "line", "cross", "text", "alpha_blend"])
    call = {
        "draw_points": lambda: nf.draw_points(frame, [det]),
        "draw_boxes": lambda: nf.draw_boxes(frame, [det]),
        "draw_tracked_objects": lambda: nf.draw_tracked_objects(frame, obj),
        "draw_tracked_boxes": lambda: nf.draw_tracked_boxes(frame, obj),
        "Paths": lambda: nf.Paths().draw(env.np.zeros((4, 4, 3)), obj),
        "AbsolutePaths": lambda: nf.AbsolutePaths().draw(frame, obj, coord_transform=ident),
        "draw_absolute_grid": lambda: nf.draw_absolute_grid(Canvas(48, 64), None),
        "circle": lambda: D.Drawer.circle(frame, P, 3, 1, (1, 2, 3)),
        "rectangle": lambda: D.Drawer.rectangle(frame, (P, P), (1, 2, 3), 1),
        "line": lambda: D.Drawer.line(frame, P, P, (1, 2, 3), 1),
        "cross": lambda: D.Drawer.cross(frame, env.np.array(P), 3, (1, 2, 3), 1),
        "text": lambda: D.Drawer.text(frame, "a", P, 1, (1, 2, 3), 1),
        "alpha_blend": lambda: D.Drawer.alpha_blend(frame, frame, 0.5),
    }[which]
    needs(env, which, call)
    env.check(nf.draw_points(frame, None) is frame and nf.draw_boxes(frame, None) is frame, "with nothing to draw nothing is needed")


def videos(env):
    env.fresh_world(modules=MISSING)
    nf, C = env.nf, env.mod("norfair.camera_motion")
    n = env.int("camera", 0, 9)
    if env.split(env.bool("motion")):
        needs(env, "MotionEstimator", lambda: C.MotionEstimator().update(Canvas(4, 4)))
    else:
        needs(env, "Video", lambda: nf.Video(camera=n))
    _, e = env.trial(nf.Video)
    env.check(isinstance(e, ValueError), "bad arguments are still a ValueError")
    # the getter that does not use OpenCV works
    k = [env.real(f"k{i}", -9, 9) for i in range(2)]
    up, tr = C.TranslationTransformationGetter(bin_size=0.5)(env.arr([[3.0, 4.0]] * 3), env.arr([[2.0, 2.0]] * 3))
    env.check_all_close(tr.abs_to_rel(env.arr([k])), [[k[0] + 1, k[1] + 2]], "the movement")


def metrics(env):
    env.fresh_world(modules=MISSING)
    M = env.mod("norfair.metrics")
    rows = [[1.0, 2.0] + [env.real(f"r{i}", -9, 9) for i in range(4)] + [-1.0] * 4]
    which = env.choice("which", ["create_accumulator", "compute_metrics", "load_motchallenge", "eval_motChallenge", "compare_dataframes"])
    needs(env, which, {
        "create_accumulator": lambda: M.Accumulators().create_accumulator("nowhere", {"seqLength": 3}),
        "compute_metrics": lambda: M.Accumulators().compute_metrics(),
        "load_motchallenge": lambda: M.load_motchallenge(env.arr(rows)),
        "eval_motChallenge": lambda: M.eval_motChallenge([env.arr(rows)], ["nowhere"]),
        "compare_dataframes": lambda: M.compare_dataframes({"a": 1}, {"a": 2}),
    }[which])


def cases(tier):
    n = 3 if tier == "quick" else 4
    return [Case(f"tracking-{k}", tracking, dict(kind=k, frames=n - 1), expect=("visible",)) for k in ("optimized", "none")] + [
        Case("drawing", drawn, {}, expect=("says so",)),
        Case("video", videos, {}, expect=("says so",)),
        Case("metrics", metrics, {}, expect=("says so",)),
    ]
