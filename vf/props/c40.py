"""Paths and AbsolutePaths: where the tracked points have been."""
import numpy as np

from ..runner import Case
from ._many import some
from ._draw import CV, Canvas, is_cut, number, same_color, world

BOUNDS = "Paths: frames of 2x3 pixels with symbolic values, up to 3 frames and 2 objects at symbolic positions, symbolic attenuation; AbsolutePaths: up to 4 frames and 2 objects with symbolic absolute positions, one symbolic camera translation per frame, histories of 1..3 points; cv2 is a stand-in (a circle paints its centre); and larger: 24 frames or 130 objects of absolute paths, a few positions symbolic"
OUTSIDE = "rasterisation by OpenCV; homographies"


class Pixels(CV):
    """circles paint their centre, blending adds up and saturates"""

    def __init__(self, env):
        super().__init__()
        self.env = env
        self.sizes = []

    def circle(self, img, center, radius, color, thickness=1, lineType=8, shift=0):
        self.sizes.append((self.int_(radius), self.int_(thickness)))
        if bool(radius < 0):
            raise self.error("radius >= 0")
        x, y = self.point(center)
        c = self.color(color)
        self.calls.append((img, "circle", (x, y), c))
        h, w = img.shape[:2]
        if self.env.split(self.env.And(x >= 0, y >= 0, x < w, y < h)):
            for k in range(3):
                img[y, x, k] = c[k]
        return img

    def blend(self, src1, alpha, src2, beta, gamma, dst=None, dtype=-1):
        if src1.shape != src2.shape:
            raise self.error("sizes of input arguments do not match")
        if src1.dtype != src2.dtype and dtype == -1:
            raise self.error("the output array type must be explicitly specified")
        out = self.env.np.zeros(src1.shape, dtype=int)
        for i in np.ndindex(*src1.shape):
            v = src1[i] * alpha + src2[i] * beta + gamma
            out[i] = self.env.Ite(v > 255, 255, v)
        return out


def paths(env, frames, n, custom=False, given=False, partial=False):
    cv = Pixels(env)
    cv.module.addWeighted = cv.blend
    env.fresh_world(modules={"cv2": cv.module})
    nf = env.nf
    h, w = 2, 3
    att = env.dyadic("attenuation", 0, 1)
    kw = {}
    if given:
        kw = dict(color=(9, 8, 7), radius=3, thickness=2)
        if given in kw:
            kw = {given: kw[given]}
    if custom:
        kw["get_points_to_draw"] = lambda p: [p[0], p[1]]
    P = nf.Paths(attenuation=att, **kw)
    t = nf.Tracker(lambda d, o: abs(d.data - int(o.last_detection.data)) * 1.0, distance_threshold=0.5, hit_counter_max=4, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    fade = [[0] * w for _ in range(h)]  # how much of each pixel's colour is left, without any rounding
    for f in range(frames):
        px = [[env.int(f"px{f}_{y}_{x}", 0, 255) for x in range(w)] for y in range(h)]
        frame = env.np.array([[[v, 0, 255] for v in row] for row in px], dtype=env.np.uint8)
        pos = [[[env.int(f"p{f}_{i}_{j}_{k}", -1, 3) if not (j and not custom) else 0 for k in range(2)] for j in range(2)] for i in range(n)]
        if custom:
            pts = pos
        else:  # two points around the mean
            pts = [[[p[0][0] - 1, p[0][1] + 2], [p[0][0] + 1, p[0][1] - 2]] for p in pos]
        objs = t.update([nf.Detection(env.arr(p), data=i, scores=env.arr([1.0, 0.0]) if partial else None) for i, p in enumerate(pts)])
        env.check(len(objs) == n, "objects")
        cv.sizes.clear()
        out = P.draw(frame, objs)
        for r, th in cv.sizes:
            env.check(r >= 1 and th >= 1, "circles that can be seen")
            if given:
                env.check((r, th) == (kw.get("radius", r), kw.get("thickness", th)), "of the radius and thickness given")
            if given == "radius":
                env.check(th == 1, "the thickness is chosen for the frame")
            if given == "thickness":
                env.check(r == 1, "the radius is chosen for the frame")
        env.check_all_close([frame[y, x, 0] for y in range(h) for x in range(w)], [v for row in px for v in row], "the frame given is left alone")
        where = []
        for i, p in enumerate(pos):
            c = kw.get("color") or nf.Palette.choose_color(objs[i].id)
            for q in (p if custom else p[:1]):
                where.append((q, c))
        nxt = [[None] * w for _ in range(h)]
        for y in range(h):
            for x in range(w):
                hit, val = False, 0
                for q, c in where:
                    here = env.And(q[0] == x, q[1] == y)
                    hit = env.Or(hit, here)
                    val = env.Ite(here, c[0], val)
                o = out[y, x, 0]
                sat = lambda v: env.Ite(v > 255, 255, v)
                env.check(env.Implies(hit, o == sat(px[y][x] + val)), "the points of interest are added to the frame")
                old = fade[y][x] * (1 - att)
                want = sat(px[y][x] + old)
                # every frame may round once to whole colour values
                env.check(env.Implies(env.Not(hit), env.And(o <= want + f, want - o <= f)), "older ones fade by the attenuation, nothing else is added")
                nxt[y][x] = env.Ite(hit, val, old)
                if env.split(hit):
                    env.reach("hit")
        fade = nxt
    env.observe("out", [out[y, x, 0] for y in range(h) for x in range(w)])


def sizes(env):
    """frames of any height give circles OpenCV can draw, the larger the frame the larger the circle"""
    cv = Pixels(env)
    cv.module.addWeighted = lambda src1, alpha, src2, beta, gamma, *r, **k: src2
    env.fresh_world(modules={"cv2": cv.module})
    nf = env.nf
    t = nf.Tracker(lambda d, o: 0.0, distance_threshold=0.5, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    objs = t.update([nf.Detection(env.arr([[-5.0, -5.0]]))])
    last = (1, 1)
    for h in (2, 100, 160, 250, 1000, 2160):
        nf.Paths().draw(env.np.zeros((h, 1, 3), dtype=env.np.uint8), objs)
        env.check(len(cv.sizes) == 1, "one circle")
        r, th = cv.sizes.pop()
        env.check(r >= last[0] and th >= last[1], "no smaller than in a smaller frame")
        last = (r, th)
    env.check(last[0] > 1 and last[1] > 1, "and larger in a large one")
    env.reach("sizes")
    P = nf.Paths()
    for h in (2, 2):
        P.draw(env.np.zeros((h, 1, 3), dtype=env.np.uint8), objs)
    env.check(cv.sizes[0] == cv.sizes[1], "the same in every frame of a video")


class Blend(CV):
    def blend(self, src1, alpha, src2, beta, gamma, dst=None, dtype=-1):
        k = 0
        while k < len(src2.drawn) and k < len(src1.drawn) and src1.drawn[k] is src2.drawn[k]:
            k += 1
        self.blends.append((alpha, beta, gamma))
        r = src2.copy()
        r.drawn = src2.drawn[:] + [("over", alpha, beta, gamma, d) for d in src1.drawn[k:]]
        return r


def absolute(env, plan, hist, n, pts=1, given=False, partial=False, sym=9, mean=False):
    """plan: for each frame which objects have confident points"""
    cv = Blend()
    cv.blends = []
    cv.module.addWeighted = cv.blend
    env.fresh_world(modules={"cv2": cv.module})
    nf = env.nf
    C = env.mod("norfair.camera_motion")
    kw = dict(max_history=hist)
    if given:
        more = dict(color=(1, 2, 3), radius=4, thickness=5)
        kw.update({given: more[given]} if given in more else more)
    if pts > 1 and not mean:
        kw["get_points_to_draw"] = lambda p: p
    P = nf.AbsolutePaths(**kw)
    t = nf.Tracker(lambda d, o: abs(d.data - int(o.last_detection.data)) * 1.0, distance_threshold=0.5, hit_counter_max=30, pointwise_hit_counter_max=1, initialization_delay=0, filter_factory=nf.NoFilterFactory(), detection_threshold=0.5)
    past = {}
    for f, seen in enumerate(plan):
        free = len(plan) < 10 or f in (1, len(plan) - 1)  # of many frames only two are symbolic
        mv = [some(env, free and n < 9, f"m{f}_{k}", -100, 100) for k in range(2)]
        tr = C.TranslationTransformation(env.arr(mv))
        ab = [[[some(env, free and i >= n - sym, f"p{f}_{i}_{j}_{k}", -100, 100) for k in range(2)] for j in range(pts)] for i in range(n)]
        objs = t.update([nf.Detection(env.arr([[x + s for x, s in zip(q, mv)] for q in p]), data=i, scores=env.arr([env.choice(f"confident{f}_{i}_{j}", [1.0, 0.0]) for j in range(pts)]) if partial else None) for i, p in enumerate(ab) if i in seen], coord_transformations=tr)
        frame = Canvas(env.int(f"height{f}", 1, 5000), 640)
        out = P.draw(frame, objs, coord_transform=tr)
        log = list(out.drawn)
        for o in objs:
            i = o.last_detection.data
            if not bool(o.live_points.any()):
                env.check(i not in seen or partial, "an object seen now is live")
                env.reach("dead")
                continue
            if not bool(o.live_points.all()):
                env.reach("partial")
            now = o.get_estimate(absolute=True)
            now = [[now[j, k] for k in range(2)] for j in range(pts)]
            if mean:
                now = [[sum(p[k] for p in now) / pts for k in range(2)]]
            col = kw.get("color") or nf.Palette.choose_color(o.id)
            for q in now:
                env.check(bool(log) and log[0][0] == "circle", "a circle for the point of interest")
                c = log.pop(0)
                env.check(env.And(*[is_cut(env, c[1][k], q[k] + mv[k]) for k in range(2)]), "where it is in this frame")
                env.check(same_color(env, c[3], col), "in the colour of the object")
                env.check(c[2] == kw["radius"] if "radius" in kw else c[2] >= 1, "with the radius given")
                env.check(c[4] == kw["thickness"] if "thickness" in kw else c[4] >= 1, "and the thickness given")
                env.reach("circle")
            last = now
            prev_alpha = None
            for k, old in enumerate(past.get(o.id, [])):
                for a, b in zip(last, old):
                    env.check(bool(log) and log[0][0] == "over" and log[0][4][0] == "line", "a line for each step of its history")
                    _, alpha, beta, gamma, c = log.pop(0)
                    env.check(env.And(*[env.And(is_cut(env, c[1][d], a[d] + mv[d]), is_cut(env, c[2][d], b[d] + mv[d])) for d in range(2)]), "between successive absolute positions, shown in this frame")
                    env.check(same_color(env, c[3], col), "in the colour of the object")
                    env.check(c[4] == kw["thickness"] if "thickness" in kw else c[4] >= 1, "of the thickness given")
                    env.check(abs(alpha + beta - 1) < 1e-9 and gamma == 0 and 0 < alpha < 1, "blended")
                    env.check(prev_alpha is None or alpha < prev_alpha, "the older the fainter")
                prev_alpha = alpha
                last = old
                env.reach("line")
            past[o.id] = ([now] + past.get(o.id, []))[:hist]
            if len(past[o.id]) == hist and f >= hist:
                env.reach("full")
        env.check(not log, "nothing else is drawn")
    env.observe("n", len(cv.calls))


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("paths-one", paths, dict(frames=1, n=1), expect=("hit",)),
        Case("paths-two-frames", paths, dict(frames=2, n=1), expect=("hit",)),
        Case("paths-given", paths, dict(frames=1, n=2, given=True), expect=("hit",)),
        Case("paths-sizes", sizes, {}, expect=("sizes",)),
        Case("paths-radius", paths, dict(frames=1, n=1, given="radius"), expect=("hit",)),
        Case("paths-thickness", paths, dict(frames=1, n=1, given="thickness"), expect=("hit",)),
        Case("absolute-radius", absolute, dict(plan=[(0,)] * 2, hist=2, n=1, given="radius"), expect=("circle", "line")),
        Case("absolute-thickness", absolute, dict(plan=[(0,)] * 2, hist=2, n=1, given="thickness"), expect=("circle", "line")),
        Case("paths-custom", paths, dict(frames=1, n=1, custom=True), expect=("hit",)),
        Case("absolute-history", absolute, dict(plan=[(0,)] * 4, hist=2, n=1), expect=("circle", "line", "full")),
        Case("absolute-two", absolute, dict(plan=[(0, 1), (0, 1), (0, 1)], hist=3, n=2, given=True), expect=("circle", "line")),
        Case("absolute-gap", absolute, dict(plan=[(0, 1), (0,), (0,), (0, 1), (0, 1)], hist=3, n=2), expect=("circle", "line", "dead")),
        Case("absolute-points", absolute, dict(plan=[(0,)] * 3, hist=2, n=1, pts=2), expect=("circle", "line", "full")),
        Case("paths-partial", paths, dict(frames=1, n=1, partial=True), expect=("hit",)),
        Case("absolute-mean", absolute, dict(plan=[(0,)] * 2, hist=24, n=1, pts=2, mean=True, partial=True), expect=("circle", "line", "partial", "dead")),
        Case("absolute-one", absolute, dict(plan=[(0,)] * 3, hist=1, n=1), expect=("circle", "line", "full")),
        Case("absolute-room", absolute, dict(plan=[(0,)] * 5, hist=24, n=1), expect=("circle", "line")),
        Case("absolute-partial", absolute, dict(plan=[(0,)] * 2, hist=2, n=1, pts=2, partial=True), expect=("circle", "line", "partial", "dead")),
    ]
    cs.append(Case("absolute-many", absolute, dict(plan=[tuple(range(130))] * 2, hist=2, n=130, sym=2), expect=("circle", "line"), path_s=100, replay_s=60))
    cs.append(Case("absolute-default", absolute, dict(plan=[(0,)] * 23, hist=20, n=1, given="radius"), expect=("circle", "line", "full")))
    if not q:
        cs.append(Case("paths-two-objects", paths, dict(frames=2, n=2), expect=("hit",)))
        cs.append(Case("absolute-long", absolute, dict(plan=[(0, 1)] * 6, hist=3, n=2), expect=("circle", "line", "full")))
    return cs
