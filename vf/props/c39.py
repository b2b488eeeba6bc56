"""The absolute grid: a fixed set of points in absolute coordinates, shown where the camera sees them."""
import math

from ..runner import Case
from ._draw import Canvas, is_cut, same_color, world

BOUNDS = "grids of 1..4 points per axis, both projections, frame sizes 4x4..480x640, symbolic camera translations, sequences of up to 3 draws with different transformations, sizes and projections; cv2 is a stand-in that records the calls"
OUTSIDE = "larger grids (same code, more points); homographies"


def grid(size, w, h, polar):
    out = []
    for i in range(size):
        for j in range(size):
            th = -math.pi / 2 + (i + 0.5) * math.pi / size
            fi = -math.pi / 2 + (j + 0.5) * math.pi / size
            if polar:
                x, y = math.tan(th) * math.cos(fi), math.tan(th) * math.sin(fi)
            else:
                x, y = math.tan(fi), math.tan(th) / math.cos(fi)
            out.append((x * max(h, w) + w // 2, y * max(h, w) + h // 2))
    return out


def draws(env, plan, given=False):
    """plan: (size, h, w, polar, moving) per draw"""
    cv = world(env)
    nf = env.nf
    C = env.mod("norfair.camera_motion")
    for n, (size, h, w, polar, moving) in enumerate(plan):
        frame = Canvas(h, w)
        tr, mv = None, (0, 0)
        if moving:
            mv = [env.real(f"m{n}_{k}", -1000, 1000) for k in range(2)]
            tr = C.TranslationTransformation(env.arr(mv))
        kw = {}
        if given:
            kw = dict(radius=env.int(f"radius{n}", 0, 9), thickness=env.int(f"thickness{n}", 1, 9), color=tuple(env.int(f"c{n}_{k}", 0, 255) for k in range(3)))
        start = len(cv.calls)
        if size == 20 and not kw:
            nf.draw_absolute_grid(frame, tr, polar=polar)
        else:
            nf.draw_absolute_grid(frame, tr, grid_size=size, polar=polar, **kw)
        calls = cv.calls[start:]
        env.check(all(c[0] is frame and c[1] == "line" for c in calls), "only lines on this frame")
        pos = 0
        for x, y in grid(size, w, h, polar):
            x, y = x + mv[0], y + mv[1]
            # not so close to the edge that rounding decides
            for v, lim in ((x, w), (y, h)):
                if moving:
                    env.assume(env.Or(v > 1e-6, v < -1e-6), env.Or(v - lim > 1e-6, v - lim < -1e-6))
            vis = env.And(x >= 0, y >= 0, x <= w, y <= h)
            if env.split(vis):
                env.check(len(calls) >= pos + 2, "every point the camera sees is drawn")
                for c, axis in ((calls[pos], 1), (calls[pos + 1], 0)):
                    a, b = c[2], c[3]
                    r = kw.get("radius", 2)
                    for k, v in ((0, x), (1, y)):
                        if k == axis:
                            env.check(env.And(is_cut(env, a[k] + r, v), is_cut(env, b[k] - r, v)), "a cross of the radius around the point")
                        else:
                            env.check(env.And(is_cut(env, a[k], v), is_cut(env, b[k], v)), "a cross at the point")
                    env.check(same_color(env, c[4], kw.get("color", (0, 0, 0))), "in the colour")
                    env.check(c[5] == kw.get("thickness", 1), "with the thickness")
                pos += 2
                env.reach("visible")
            else:
                env.reach("not visible")
        env.check(pos == len(calls), "no point the camera does not see is drawn")
    env.observe("calls", len(cv.calls))


def cases(tier):
    q = tier == "quick"
    e = ("visible", "not visible")
    cs = [
        Case("equator-2", draws, dict(plan=[(2, 480, 640, False, True)]), expect=e),
        Case("polar-2", draws, dict(plan=[(2, 480, 640, True, True)], given=True), expect=e),
        Case("equator-3", draws, dict(plan=[(3, 100, 80, False, True)]), expect=e),
        Case("still", draws, dict(plan=[(4, 480, 640, False, False), (4, 480, 640, True, False), (20, 48, 64, False, False), (20, 48, 64, True, False)]), expect=e),
        Case("sequence", draws, dict(plan=[(2, 48, 64, False, True), (2, 48, 64, False, True), (2, 48, 64, True, False), (2, 48, 64, False, False)]), expect=e),
        Case("sizes", draws, dict(plan=[(2, 48, 64, False, True), (2, 64, 48, False, True), (1, 64, 48, False, True)]), expect=e),
        Case("same-width", draws, dict(plan=[(2, 48, 64, False, True), (2, 30, 64, False, True), (2, 64, 30, False, False), (2, 64, 48, False, False)]), expect=e),
    ]
    if not q:
        cs.append(Case("polar-4", draws, dict(plan=[(4, 480, 640, True, True)]), expect=e))
        cs.append(Case("equator-4", draws, dict(plan=[(4, 480, 640, False, True)]), expect=e))
        cs.append(Case("sequence-3", draws, dict(plan=[(3, 48, 64, False, True), (3, 48, 64, True, True)]), expect=e))
    return cs
