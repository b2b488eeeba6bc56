"""get_cutout returns exactly the part of the image that the points span."""
import numpy as np

from ..runner import Case

BOUNDS = "1..3 points (4 thorough) with symbolic real or integer coordinates inside and outside (up to 4 pixels beyond every side) of images of 3x4 pixels, gray and colour"
OUTSIDE = "larger images (the same slicing); float rounding (exact reals)"


def cutout(env, n, kind="real", color=False, h=3, w=4):
    nf = env.nf
    img = np.arange(h * w).reshape(h, w)
    if color:
        img = np.stack([img, img, img], axis=-1)
    num = (lambda nm, m: env.real(nm, -4, m + 4)) if kind == "real" else (lambda nm, m: env.int(nm, -4, m + 4))
    pts = [[num(f"x{i}", w), num(f"y{i}", h)] for i in range(n)]
    points = env.arr(pts, float if kind == "real" else int)
    out = nf.get_cutout(points, env.np.array(img))
    cut = lambda v: env.Ite(v >= 0, int_(v), 0)

    def int_(v):
        return v.trunc() if env.sym else int(v)

    spans = []
    for k, m in ((1, h), (0, w)):
        lo = cut(env.min(*[p[k] for p in pts]))
        hi = cut(env.max(*[p[k] for p in pts]))
        spans.append([env.And(i >= lo, i < hi) for i in range(m)])
    ys, xs = spans
    tags = [int(t) for t in env.flat(out)]
    if color:
        tags = tags[::3]
    got = set(tags)
    env.check(len(got) == len(tags), "no pixel twice")
    for y in range(h):
        for x in range(w):
            env.check(env.Iff(env.And(ys[y], xs[x]), (y * w + x) in got), "the pixels between the smallest and the largest coordinates, as far as they are in the image")
    env.check(tags == sorted(tags), "as they lie in the image")
    if tags:
        env.check(len(out.shape) == (3 if color else 2) and out.shape[0] * out.shape[1] == len(tags), "a rectangle")
        env.check(out.shape[1] == len({t % w for t in tags}), "of its width")
        env.reach("something")
    else:
        env.reach("nothing")
    for i, p in enumerate(pts):
        env.check_all_close([points[i, 0], points[i, 1]], p, "the points are left alone")
    env.observe("tags", tags)


def cases(tier):
    q = tier == "quick"
    ex = ("something", "nothing")
    cs = [
        Case("box", cutout, dict(n=2), expect=ex),
        Case("box-integers", cutout, dict(n=2, kind="int", color=True), expect=ex),
        Case("three", cutout, dict(n=3, color=True), expect=ex),
        Case("one", cutout, dict(n=1), expect=("nothing",)),
    ]
    if not q:
        cs.append(Case("four", cutout, dict(n=4, h=4, w=5), expect=ex))
    return cs
