"""Shared pieces of the drawing harnesses: a canvas and a stand-in for cv2 that records what is drawn, and refuses what
OpenCV refuses."""
import types

import numpy as np

from ..core import SymBool, SymNum


def integer(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool) or isinstance(x, SymNum) and x.k == "i" or (
        type(x).__name__ == "SymArray" and x.ndim == 0 and integer(x.item()))


def number(x):
    return integer(x) or isinstance(x, (float, np.floating, SymNum)) or type(x).__name__ == "SymArray" and x.ndim == 0


class Canvas:
    """stands in for a frame of any size"""

    def __init__(self, h, w, log=None, name="frame"):
        self.shape = (h, w, 3)
        self.ndim = 3
        self.name = name
        self.drawn = [] if log is None else list(log)

    def copy(self):
        return Canvas(*self.shape[:2], log=self.drawn, name=self.name + " copy")


class CV:
    def __init__(self):
        m = self.module = types.ModuleType("cv2")

        class error(Exception):
            pass

        self.error = m.error = error
        m.FONT_HERSHEY_SIMPLEX, m.LINE_AA, m.LINE_8, m.FILLED = 0, 16, 8, -1
        m.RANSAC = 8
        m.circle, m.rectangle, m.line, m.putText, m.addWeighted = self.circle, self.rectangle, self.line, self.text, self.blend
        m.__getattr__ = self._missing
        self.calls = []

    def _missing(self, n):
        raise AttributeError(n)

    # what OpenCV's argument parser accepts
    def point(self, p):
        p = tuple(p)
        if len(p) != 2 or not all(integer(x) for x in p):
            raise self.error("Can't parse a point")
        return tuple(x.item() if type(x).__name__ == "SymArray" else x for x in p)

    def color(self, c):
        c = tuple(c) if not number(c) else (c,)
        if len(c) > 4 or not all(number(x) for x in c):
            raise self.error("Can't parse a color")
        return c

    def int_(self, x):
        if not integer(x):
            raise self.error("Can't parse an integer")
        return x.item() if type(x).__name__ == "SymArray" else x

    def put(self, img, what):
        if not hasattr(img, "drawn"):
            raise self.error("img is not a numpy array")
        img.drawn.append(what)
        self.calls.append((img,) + what)
        return img

    def circle(self, img, center, radius, color, thickness=1, lineType=8, shift=0):
        r = self.int_(radius)
        if bool(r < 0):
            raise self.error("radius >= 0")
        return self.put(img, ("circle", self.point(center), r, self.color(color), self.int_(thickness)))

    def rectangle(self, img, pt1, pt2, color, thickness=1, lineType=8, shift=0):
        return self.put(img, ("rectangle", self.point(pt1), self.point(pt2), self.color(color), self.int_(thickness)))

    def line(self, img, pt1, pt2, color, thickness=1, lineType=8, shift=0):
        if bool(thickness <= 0):
            raise self.error("0 < thickness && thickness <= MAX_THICKNESS")
        return self.put(img, ("line", self.point(pt1), self.point(pt2), self.color(color), self.int_(thickness)))

    def text(self, img, text, org, fontFace, fontScale, color, thickness=1, lineType=8, bottomLeftOrigin=False):
        if not isinstance(text, str):
            raise self.error("Can't convert object to 'str'")
        return self.put(img, ("text", self.point(org), text, fontScale, self.color(color), self.int_(thickness)))

    def blend(self, src1, alpha, src2, beta, gamma, dst=None, dtype=-1):
        return self.module.blend(src1, alpha, src2, beta, gamma)

    def of(self, kind):
        return [c for c in self.calls if c[1] == kind]


def world(env):
    cv = CV()
    env.fresh_world(modules={"cv2": cv.module})
    env.nf
    return cv


def same_color(env, a, b):
    return env.And(len(a) == len(b), *[x == y for x, y in zip(a, b)])


def same_call(env, a, b):
    """two recorded calls, but for the canvas"""
    if len(a) != len(b) or a[1] != b[1]:
        return False
    out = []
    for x, y in zip(a[2:], b[2:]):
        if isinstance(x, tuple) or isinstance(y, tuple):
            out.append(same_color(env, x, y))
        elif isinstance(x, str) and isinstance(y, str):
            out.append(x == y)
        else:
            out.append(x == y)
    return env.And(*out)


def cut(env, x):
    """towards zero"""
    return env.mod("norfair").__dict__["__builtins__"]["int"](x)


def is_cut(env, i, x, eps=1e-6):
    """i is x without its fraction"""
    return env.And(env.Implies(x >= eps, env.And(i <= x + eps, x - i < 1 + eps)), env.Implies(x <= -eps, env.And(i >= x - eps, i - x < 1 + eps)),
                   env.Implies(env.And(x < eps, x > -eps), i == 0))


def options(env, which):
    """how the objects are coloured: (argument, function from (id, label) to the expected colour)"""
    P = env.nf.Palette
    if which == "tuple":
        c = tuple(env.int(f"color{k}", 0, 255) for k in range(3))
        return c, lambda i, l: c
    if which == "hex":
        return "#FF8000", lambda i, l: (0, 128, 255)
    if which == "name":
        return "red", lambda i, l: (0, 0, 255)
    if which == "by_label":
        return which, lambda i, l: P.choose_color(l)
    if which in ("by_id", "none"):
        return None if which == "none" else which, lambda i, l: P.choose_color(i)
    return "random", None
