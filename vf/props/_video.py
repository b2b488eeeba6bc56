"""Stands in for the video part of OpenCV (and for the clock)."""
import os
import types

from ._draw import integer, number


class Frame:
    """an image of any size, known by itself"""

    def __init__(self, h, w, name="frame"):
        self.shape = (h, w, 3)
        self.ndim = 3
        self.name = name


class Capture:
    def __init__(self, cv, source, *a):
        self.cv, self.source, self.released, self.reads = cv, source, 0, 0
        cv.captures.append(self)

    def read(self, *a):
        if self.released:
            return False, None
        self.reads += 1
        return self.cv.read(self)

    def get(self, prop):
        if not integer(prop):
            raise self.cv.error("Can't parse 'propId'")
        return self.cv.props[prop]

    def isOpened(self):
        return not self.released

    def release(self):
        self.released += 1


class Writer:
    def __init__(self, cv, *a, **k):
        if len(a) == 1 or not a:
            raise cv.error("arguments")
        names = ["filename", "fourcc", "fps", "frameSize", "isColor"]
        kw = dict(zip(names, a), **k)
        if not isinstance(kw["filename"], str) or not integer(kw["fourcc"]) or not number(kw["fps"]):
            raise cv.error("Can't parse an argument")
        size = kw["frameSize"]
        if len(size) != 2 or not all(integer(x) for x in size):
            raise cv.error("Can't parse 'frameSize'")
        self.args, self.frames, self.released, self.cv = kw, [], 0, cv
        cv.writers.append(self)

    def write(self, frame):
        if self.released:
            self.cv.late += 1
        self.frames.append(frame)

    def isOpened(self):
        return not self.released

    def release(self):
        self.released += 1


class CV:
    def __init__(self, env):
        m = self.module = types.ModuleType("cv2")

        class error(Exception):
            pass

        self.env = env
        self.error = m.error = error
        m.CAP_PROP_FRAME_WIDTH, m.CAP_PROP_FRAME_HEIGHT, m.CAP_PROP_FPS, m.CAP_PROP_FRAME_COUNT = 3, 4, 5, 7
        m.VideoCapture = lambda *a: Capture(self, *a)
        m.VideoWriter = lambda *a, **k: Writer(self, *a, **k)
        m.VideoWriter.fourcc = m.VideoWriter_fourcc = self.fourcc
        m.waitKey, m.imshow, m.resize, m.destroyAllWindows, m.imread = self.wait, self.show, self.resize, self.destroy, self.imread
        m.INTER_LINEAR, m.INTER_AREA, m.INTER_NEAREST, m.INTER_CUBIC = 1, 3, 0, 2
        m.IMREAD_COLOR = 1
        m.__getattr__ = self._missing
        self.captures, self.writers, self.shown, self.codes, self.waits = [], [], [], {}, 0
        self.destroyed, self.late = 0, 0
        self.props = {}
        self.images = {}

    def _missing(self, n):
        raise AttributeError(n)

    def fourcc(self, *c):
        if len(c) != 4:
            raise self.error("four characters")
        k = 1000 + len(self.codes)
        self.codes[k] = "".join(c)
        return k

    def wait(self, delay=0):
        self.waits += 1
        return self.env.int(f"key{self.waits}", -1, 255)

    def show(self, name, frame):
        if not hasattr(frame, "shape"):
            raise self.error("mat is not a numpy array")
        self.shown.append(frame)

    def resize(self, src, dsize, dst=None, fx=0, fy=0, interpolation=1):
        if len(dsize) != 2 or not all(integer(x) for x in dsize):
            raise self.error("Can't parse 'dsize'. Sequence item with index 0 has a wrong type")
        if bool(self.env.Or(dsize[0] <= 0, dsize[1] <= 0)):
            raise self.error("inv_scale_x > 0")
        r = Frame(dsize[1], dsize[0], src.name + " resized")
        r.of = src
        return r

    def destroy(self):
        self.destroyed += 1

    def imread(self, path, flags=1):
        r = Frame(4, 5, path)
        self.images.setdefault(path, []).append(r)
        return r


def clock(env, ticks=False):
    """a clock that never goes back (and may stand still)"""
    m = types.ModuleType("time")
    now = [env.dyadic("t0", 0, 1000)]
    n = [0]

    def time():
        n[0] += 1
        now[0] = now[0] + env.dyadic(f"tick{n[0]}", 0, 10)
        return now[0]

    m.time = m.perf_counter = m.monotonic = m.process_time = time
    m.sleep = lambda s: None
    return m


def bars():
    """records progress bars"""
    prog = types.ModuleType("rich.progress")
    made = []

    class Progress:
        def __init__(self, *a, **k):
            self.tasks, self.done = [], 0
            made.append(self)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def add_task(self, description, start=True, total=100.0, completed=0, visible=True, **fields):
            self.tasks.append((description, total, fields))
            return len(self.tasks) - 1

        def update(self, task, *, total=None, completed=None, advance=None, description=None, visible=None, refresh=False, **f):
            if advance is not None:
                self.done = self.done + advance
            if completed is not None:
                self.done = completed

        def advance(self, task, advance=1):
            self.done = self.done + advance

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda *a, **k: None

    prog.Progress = Progress

    class Column:
        def __init__(self, *a, **k):
            pass

    prog.__getattr__ = lambda n: Column
    prog.track = lambda it, *a, **k: (x for x in it)
    prog.made = made
    return prog
