"""The motion estimator survives whatever OpenCV and the getter do, and keeps its reference frame as the getter says."""
import types

from ..runner import Case

BOUNDS = "up to 4 frames (3 quick) with 2 sampled points; every combination of corner sampling / optical flow / getter succeeding, finding nothing or raising; symbolic points, status flags and masks; symbolic sampling parameters"
OUTSIDE = "the image processing done by OpenCV (stand-in that may return anything)"


class Gray:
    def __init__(self, frame):
        self.frame = frame


class State:
    pass


def estimator(env, frames, npts, draw=False, default=False, masks=True, simple=False):
    st = State()
    st.sampled, st.flows, st.drawn = [], [], []
    m = types.ModuleType("cv2")
    m.RANSAC, m.LMEDS, m.RHO, m.COLOR_BGR2GRAY = 8, 4, 16, 6

    class error(Exception):
        pass

    m.error = error

    def cvt(frame, code):
        env.check(code == m.COLOR_BGR2GRAY, "converted to gray")
        g = Gray(frame)
        st.grays[id(frame)] = g
        return g

    st.grays = {}
    m.cvtColor = cvt

    def corners(image, maxCorners=None, qualityLevel=None, minDistance=None, corners=None, mask=None, blockSize=None, **kw):
        st.sampled.append((image, maxCorners, qualityLevel, minDistance, blockSize, mask))
        what = env.choice(f"corners{len(st.sampled)}", ["ok", "none", "raises"] if not simple else ["ok", "none"])
        if what == "raises":
            raise error("goodFeaturesToTrack")
        if what == "none":
            return None
        st.pts = [[env.real(f"s{len(st.sampled)}_{i}_{k}", 0, 100) for k in range(2)] for i in range(npts)]
        return env.arr([[p] for p in st.pts])

    def flow(prevImg, nextImg, prevPts, nextPts=None, *a, **k):
        st.flows.append((prevImg, nextImg, prevPts))
        if prevPts is None or len(prevPts) == 0:
            raise error("calcOpticalFlowPyrLK")
        n = len(prevPts)
        f = len(st.flows)
        if env.choice(f"flow{f}", ["ok", "raises"]) == "raises":
            raise error("calcOpticalFlowPyrLK")
        st.now = [[env.real(f"n{f}_{i}_{k}", 0, 100) for k in range(2)] for i in range(n)]
        st.status = [env.split(env.bool(f"status{f}_{i}")) for i in range(n)]
        return env.arr([[p] for p in st.now]), env.np.array([[1 if s else 0] for s in st.status], dtype=env.np.uint8), None

    m.goodFeaturesToTrack, m.calcOpticalFlowPyrLK = corners, flow
    m.line = lambda *a, **k: st.drawn.append(("line",) + a)
    m.circle = lambda *a, **k: st.drawn.append(("circle",) + a)
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n))
    env.fresh_world(modules={"cv2": m})
    C = env.mod("norfair.camera_motion")

    calls = []

    class Getter(C.TransformationGetter):
        def __init__(self):
            self.seen = []

        def __call__(self, curr_pts, prev_pts):
            calls.append((list(self.seen), curr_pts, prev_pts))
            n = len(calls)
            self.seen.append(n)
            what = env.choice(f"getter{n}", ["keep", "replace", "raises"])
            st.what = what
            if what == "raises":
                raise ValueError("getter")
            st.given = f"transformation {n}"
            return what == "replace", st.given

    kw = {}
    if not default:
        kw = dict(max_points=env.int("max_points", 1, 500), min_distance=env.int("min_distance", 1, 50), block_size=env.int("block_size", 2, 9), quality_level=env.real("quality", 0, 1))
    E = C.MotionEstimator(transformations_getter=Getter(), draw_flow=draw, **kw)
    ref, refmask, pts, hist = None, None, None, []
    for f in range(frames):
        frame = env.np.zeros((4, 4, 3), dtype=env.np.uint8)
        mask = f"mask {f}" if masks and f % 2 == 0 else None
        ns, nfl, nc, nd = len(st.sampled), len(st.flows), len(calls), len(st.drawn)
        r, e = env.trial(E.update, frame, mask)
        env.check(e is None, "update() never raises")
        g = st.grays.get(id(frame))
        env.check(g is not None, "the frame given is the one looked at")
        if ref is None:
            ref, refmask = g, mask
        failed = False
        if pts is None:
            env.check(len(st.sampled) == ns + 1, "points are sampled once per reference frame")
            s = st.sampled[-1]
            env.check(s[0] is ref, "from the reference frame")
            env.check(s[5] == refmask, "with the mask of the reference frame")
            want = [kw.get("max_points", 200), kw.get("quality_level", 0.01), kw.get("min_distance", 15), kw.get("block_size", 3)]
            for x, y in zip(s[1:5], want):
                env.check(x == y, "with the parameters of the estimator")
            how = env.choice(f"corners{len(st.sampled)}", ["ok", "none", "raises"] if not simple else ["ok", "none"])
            if how == "ok":
                cur = st.pts
            else:
                failed = True
        else:
            env.check(len(st.sampled) == ns, "the sampled points are kept")
            cur = pts
        if not failed and (cur == [] or env.choice(f"flow{len(st.flows)}", ["ok", "raises"]) == "raises"):
            failed = True
        if not failed:
            env.check(len(st.flows) == nfl + 1, "one flow per frame")
            a = st.flows[-1]
            env.check(a[0] is ref and a[1] is g, "the flow from the reference frame to this one")
            env.check_all_close(a[2], cur, "of the points of the reference frame")
            prev = [p for p, s in zip(cur, st.status) if s]
            curr = [p for p, s in zip(st.now, st.status) if s]
        env.check(len(calls) == nc + 1, "the getter is asked once per frame")
        seen, gc, gp = calls[-1]
        env.check(seen == hist, "the getter keeps its state, and starts afresh after it failed")
        if failed:
            env.check(gc is None and gp is None, "without points when the flow failed")
            env.reach("flow failed")
        else:
            env.check(gc.shape == (len(curr), 2) and gp.shape == (len(prev), 2), "pairs of points")
            env.check_all_close(gc, curr, "current points with status 1")
            env.check_all_close(gp, prev, "their previous points")
            env.reach("flow")
            if draw:
                env.check(len(st.drawn) >= nd + 2 * len(curr), "the flow is drawn")
        if not draw:
            env.check(len(st.drawn) == nd, "nothing is drawn")
        if st.what == "raises":
            env.check(r is None, "no transformation when the getter failed")
            hist = []
            env.reach("getter failed")
        else:
            env.check(r == st.given, "the transformation of the getter is returned")
            hist = hist + [len(calls)]
        if st.what == "keep":
            pts = None if failed else prev
            env.reach("kept")
        else:
            ref, refmask, pts = g, mask, None
            env.reach("replaced")
    env.observe("calls", len(calls))


def cases(tier):
    q = tier == "quick"
    e = ("flow failed", "flow", "getter failed", "kept", "replaced")
    cs = [
        Case("two-frames", estimator, dict(frames=2, npts=2), expect=e),
        Case("defaults", estimator, dict(frames=1, npts=1, default=True), expect=e),
        Case("drawing", estimator, dict(frames=2, npts=1, draw=True), expect=e),
        Case("three-frames", estimator, dict(frames=3, npts=1, simple=q), expect=e),
    ]
    if not q:
        cs.append(Case("four-frames", estimator, dict(frames=4, npts=1, simple=True, default=True), expect=e))
        cs.append(Case("four-frames-full", estimator, dict(frames=4, npts=1), expect=e))
        cs.append(Case("three-frames-two", estimator, dict(frames=3, npts=2), expect=e))
        cs.append(Case("two-frames-three", estimator, dict(frames=2, npts=3), expect=e))
        cs.append(Case("five-frames", estimator, dict(frames=5, npts=1, simple=True, default=True), expect=e))
    return cs
