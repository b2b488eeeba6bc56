"""The stabilised frame: the frame sits where the camera points, everything else fades."""
from ..runner import Case

BOUNDS = "frames of up to 2x3 pixels with symbolic values, scales 1/2, 1, 1.5, 1.9, 2 and 3, symbolic attenuation and the defaults, up to 3 frames with symbolic camera movements of up to 8 pixels in any direction (so the frame may leave the background on every side)"
OUTSIDE = "movements within 1/8 pixel of half a pixel (rounding may go either way); larger frames"


def camera(env, h, w, scale, plan):
    """plan: for every frame the ranges of the movement ((ylo, yhi), (xlo, xhi))"""
    import math

    nf = env.nf
    C = env.mod("norfair.camera_motion")
    if scale is None:
        scale, att = 2, 0.05
        F = nf.FixedCamera()
    else:
        att = env.dyadic("attenuation", 0, 1)
        F = nf.FixedCamera(scale=scale, attenuation=att)
    given = []
    H, W = round(h * scale), round(w * scale)
    bg = [[0] * W for _ in range(H)]
    for f, rng in enumerate(plan):
        px = [[env.int(f"px{f}_{y}_{x}", 0, 255) for x in range(w)] for y in range(h)]
        frame = env.np.array([[[v, 255 - v, 7] for v in row] for row in px], dtype=env.np.uint8)
        k = [env.int(f"k{f}_{i}", *rng[i]) for i in range(2)]
        e = [env.dyadic(f"e{f}_{i}", -0.375, 0.375) for i in range(2)]
        mv = [k[1] + e[1], k[0] + e[0]]  # x, y
        out = F.adjust_frame(frame, C.TranslationTransformation(env.arr(mv)))
        env.check(out.shape == (H, W, 3) and out.dtype == frame.dtype, "the scaled size, the type of the frame")
        top, left = H // 2 - h // 2 - k[0], W // 2 - w // 2 - k[1]
        for y in range(H):
            for x in range(W):
                inside = env.And(y >= top, y < top + h, x >= left, x < left + w)
                v, b = out[y, x, 0], out[y, x, 1]
                shown = []
                for i in range(h):
                    for j in range(w):
                        shown.append(env.Implies(env.And(top + i == y, left + j == x), env.And(v == px[i][j], b == 255 - px[i][j], out[y, x, 2] == 7)))
                env.check(env.And(*shown), "inside: the pixel of the frame")
                old = bg[y][x] * (1 - att)
                env.check(env.Or(inside, env.And(v <= old + 1e-9, old - v < 1 + 1e-9)), "outside: what was there before, attenuated")
                env.check(env.Or(inside, b <= 255 * (1 - att) + 1e-9 if f else b == 0), "outside: nothing else")
        for o, vs in given:
            env.check_all_close([o[y, x, 0] for y in range(H) for x in range(W)], vs, "a frame returned stays as it is")
        given.append((out, [out[y, x, 0] for y in range(H) for x in range(W)]))
        bg = [[out[y, x, 0] for x in range(W)] for y in range(H)]
        env.check_all_close([frame[y, x, 0] for y in range(h) for x in range(w)], [v for row in px for v in row], "the frame given is left alone")
        for y, row in enumerate(px):
            if env.split(env.And(top + y >= 0, top + y < H, left >= 0, left < W)):
                env.reach("visible")
        if env.split(env.Or(top < 0, left < 0, top + h > H, left + w > W)):
            env.reach("cropped")
    env.observe("out", [out[y, x, 0] for y in range(H) for x in range(W)])


def big(env, scale):
    """larger frames: only where the frame goes"""
    nf = env.nf
    C = env.mod("norfair.camera_motion")
    h, w = 6, 10
    F = nf.FixedCamera(scale=scale)
    H, W = round(h * scale), round(w * scale)
    frame = env.np.full((h, w, 3), 9, dtype=env.np.uint8)
    frame[0, 0] = 200
    frame[h - 1, w - 1] = 100
    k = [env.int("ky", -20, 20), env.int("kx", -2, 2)]
    out = F.adjust_frame(frame, C.TranslationTransformation(env.arr([k[1], k[0]])))
    env.check(out.shape == (H, W, 3), "the scaled size")
    top, left = H // 2 - h // 2 - k[0], W // 2 - w // 2 - k[1]
    for y in range(H):
        for x in range(W):
            v = out[y, x, 0]
            want = env.Ite(env.And(y == top, x == left), 200, env.Ite(env.And(y == top + h - 1, x == left + w - 1), 100, env.Ite(env.And(y >= top, y < top + h, x >= left, x < left + w), 9, 0)))
            env.check(v == want, "the frame, cut to the background, in its place")
    env.reach("placed")


def cases(tier):
    q = tier == "quick"
    r = lambda n: (-n, n)
    cs = [
        Case("one-frame", camera, dict(h=2, w=3, scale=2, plan=[(r(6), r(8))]), expect=("visible", "cropped")),
        Case("scale-1", camera, dict(h=2, w=2, scale=1, plan=[(r(4), r(4))]), expect=("visible", "cropped")),
        Case("scale-1.5", camera, dict(h=2, w=3, scale=1.5, plan=[(r(4), r(4))]), expect=("visible", "cropped")),
        Case("scale-1.9", camera, dict(h=1, w=3, scale=1.9, plan=[(r(1), r(2))]), expect=("visible", "cropped")),
        Case("two-frames", camera, dict(h=1, w=2, scale=2, plan=[(r(1), r(2)), (r(2), r(4))]), expect=("visible", "cropped")),
        Case("odd", camera, dict(h=1, w=1, scale=3, plan=[(r(2), r(2)), (r(3), r(3))]), expect=("visible", "cropped")),
        Case("scale-half", camera, dict(h=4, w=4, scale=0.5, plan=[(r(4), r(1))]), expect=("cropped",)),
        Case("scale-half-wide", camera, dict(h=2, w=4, scale=0.5, plan=[(r(1), r(4))]), expect=("cropped",)),
        Case("default", camera, dict(h=1, w=2, scale=None, plan=[(r(1), r(2)), (r(1), r(2))]), expect=("visible", "cropped")),
        Case("big", big, dict(scale=2), expect=("placed",)),
    ]
    if not q:
        cs.append(Case("three-frames", camera, dict(h=1, w=2, scale=2, plan=[(r(1), r(1)), (r(1), r(2)), (r(1), r(2))]), expect=("visible",)))
        cs.append(Case("two-frames-large", camera, dict(h=2, w=2, scale=2, plan=[(r(2), r(2)), (r(3), r(3))]), expect=("visible", "cropped")))
        cs.append(Case("big-3", big, dict(scale=3), expect=("placed",)))
    return cs
