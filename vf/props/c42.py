"""Video: every frame once and in order, written as given."""
import os

from ..runner import Case
from ._video import CV, Frame, bars, clock

BOUNDS = "videos and cameras with up to 3 (4 thorough) frames, ending in any of the ways OpenCV ends; symbolic frame sizes, frame rates, frame counts, clock (which may stand still), downsampling ratio; any subset of the frames written; cv2 is a stand-in that records the calls and refuses what OpenCV refuses; and larger: 14 frames (60 thorough) with fixed contents"
OUTSIDE = "leaving the loop early; decoding and encoding"


def make(env, source, fps_given=False, **kw):
    cv, prog = CV(env), bars()
    env.fresh_world(modules={"cv2": cv.module, "time": clock(env), "rich.progress": prog})
    V = env.mod("norfair.video")
    root = env.scratch()
    fps, total = env.dyadic("fps", 0, 240), env.int("frames", 1, 10 ** 6)
    cv.props = {3: env.int("width", 1, 4000) * 1.0, 4: env.int("height", 1, 4000) * 1.0, 5: fps * 1.0, 7: total * 1.0}
    if fps_given:
        kw["output_fps"] = fps = env.dyadic("output fps", 0, 240)
    if source == "file":
        kw["input_path"] = os.path.join(root, "clip.mp4")
        with open(kw["input_path"], "w") as f:
            f.write("x")
    else:
        kw["camera"] = source
    kw.setdefault("output_path", os.path.join(root, "result.avi"))
    v = V.Video(**kw)
    env.check(len(cv.captures) == 1, "one source")
    env.check(cv.captures[0].source == (kw["input_path"] if source == "file" else source), "the source asked for")
    return v, cv, prog, fps, total, kw


def iterate(env, n, source="file", write=True, fps_given=False, twice=False):
    v, cv, prog, fps, total, kw = make(env, source, fps_given)
    given = [Frame(env.int(f"h{i}", 1, 4000), env.int(f"w{i}", 1, 4000), f"frame {i}") for i in range(n)]
    end = env.choice("end", [(False, None), (True, None), (False, Frame(1, 1, "late"))])
    cv.read = lambda c: (True, given[c.reads - 1]) if c.reads <= n else end
    got, written, keys = [], [], []
    for frame in v:
        got.append(frame)
        if len(got) > n:
            break
        i = len(got) - 1
        for k in range(2 if twice else 1):
            free = n < 10 or i in (0, n - 1)  # of many frames only two are decided anew
            if write and (env.split(env.bool(f"write{i}_{k}")) if free else i % 4):
                out = frame
                if free and env.split(env.bool(f"changed{i}_{k}")):
                    out = Frame(env.int(f"oh{i}", 1, 4000), env.int(f"ow{i}", 1, 4000), "changed")
                before = cv.waits
                key = v.write(out)
                env.check(cv.waits == before + 1, "waits for a key")
                env.check(key == env.int(f"key{cv.waits}", -1, 255), "which is returned")
                written.append(out)
    env.check(len(got) == n and all(a is b for a, b in zip(got, given)), "every frame once, in order, as it was read")
    env.check(cv.captures[0].released >= 1, "the source is released")
    env.check(cv.destroyed >= 1, "windows are closed")
    if written:
        env.check(len(cv.writers) == 1, "one output")
        w = cv.writers[0]
        env.check(w.args["filename"] == kw["output_path"], "where it was asked for")
        env.check_close(w.args["fps"], fps, "with the frames per second of the source, or those asked for")
        env.check(cv.codes.get(w.args["fourcc"]) == "XVID", "the codec of the extension")
        size = w.args["frameSize"]
        env.check(env.And(size[0] == written[0].shape[1], size[1] == written[0].shape[0]), "of the size of the first frame written")
        env.check(len(w.frames) == len(written) and all(a is b for a, b in zip(w.frames, written)), "the frames written, each once and in order")
        env.check(cv.late == 0, "while it is open")
        env.check(w.released >= 1, "which is closed at the end")
        env.reach("written")
    else:
        env.check(not cv.writers, "no output without frames")
        env.reach("nothing written")
    bar = prog.made[-1]
    env.check(bar.done == n, "the progress bar counts the frames")
    if source == "file":
        env.check(bar.tasks[0][1] == total, "out of all")
    env.observe("n", [len(got), len(written)])


def show(env, ratio):
    v, cv, prog, *_ = make(env, 0)
    f = Frame(env.int("h", 1, 4000), env.int("w", 1, 4000))
    kw = {}
    r = None
    if ratio == "real":
        r = kw["downsample_ratio"] = env.dyadic("ratio", 1, 16)
        env.assume(r <= f.shape[0], r <= f.shape[1])
    elif ratio is not None:
        r = kw["downsample_ratio"] = ratio
        env.assume(r <= f.shape[0], r <= f.shape[1])
    key = v.show(f, **kw)
    env.check(cv.waits == 1 and key == env.int("key1", -1, 255), "the key pressed is returned")
    env.check(len(cv.shown) == 1, "one frame shown")
    s = cv.shown[0]
    if s is f:
        env.check(r is None or r == 1, "the frame itself only at its full size")
        env.reach("full size")
    else:
        env.check(getattr(s, "of", None) is f, "the frame, smaller")
        for a, b in zip(s.shape[:2], f.shape[:2]):
            env.check(env.And(a * r - b < r, b - a * r < r), "by the ratio")
        env.reach("smaller")
    env.check(not cv.writers, "nothing is written")


def refused(env):
    cv = CV(env)
    env.fresh_world(modules={"cv2": cv.module})
    V = env.mod("norfair.video")
    root = env.scratch()
    there, gone = os.path.join(root, "clip.mp4"), os.path.join(root, "gone.mp4")
    with open(there, "w") as f:
        f.write("x")
    cv.props = {3: 640.0, 4: 480.0, 5: 25.0, 7: env.int("frames", 0, 5) * 1.0}
    camera = env.choice("camera", [None, 0, 3, "0", 1.0, True])
    path = env.choice("path", [None, there, gone, root])
    kw = {k: x for k, x in (("camera", camera), ("input_path", path)) if x is not None}
    v, e = env.trial(V.Video, **kw)
    if (camera is None) == (path is None):
        env.check(isinstance(e, ValueError), "neither or both of camera and input_path is a ValueError")
        env.reach("neither or both")
    elif camera is not None:
        if camera in ("0", 1.0) and camera is not True:
            env.check(isinstance(e, ValueError) , "a camera is a number")
            env.reach("no number")
        elif camera is not True:
            env.check(e is None, "a camera")
            env.reach("camera")
    elif path != there:
        env.check(isinstance(e, RuntimeError), "a file that is not there is a RuntimeError")
        env.reach("gone")
    elif env.split(cv.props[7] == 0):
        env.check(isinstance(e, RuntimeError), "a file without frames is a RuntimeError")
        env.reach("no frames")
    else:
        env.check(e is None, "a video")
        env.reach("video")


def home(env):
    cv = CV(env)
    cv.props = {3: 640.0, 4: 480.0, 5: 25.0, 7: 10.0}
    env.fresh_world(modules={"cv2": cv.module})
    V = env.mod("norfair.video")
    root = env.scratch()
    with open(os.path.join(root, "clip.mp4"), "w") as f:
        f.write("x")
    old = os.environ.get("HOME")
    os.environ["HOME"] = root
    try:
        V.Video(input_path="~/clip.mp4")
    finally:
        if old is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = old
    env.check(cv.captures[0].source == os.path.join(root, "clip.mp4"), "~ is the home directory")
    env.reach("home")


def cases(tier):
    q = tier == "quick"
    both = ("written", "nothing written")
    cs = [
        Case("file", iterate, dict(n=2 if q else 3), expect=both),
        Case("file-fps", iterate, dict(n=1, fps_given=True), expect=both),
        Case("camera", iterate, dict(n=1, source=0, fps_given=True), expect=both),
        Case("file-many", iterate, dict(n=14 if q else 60), expect=("written",)),
        Case("camera-many", iterate, dict(n=14 if q else 60, source=1), expect=("written",)),
        Case("camera-three", iterate, dict(n=3, source=2, write=False), expect=("nothing written",)),
        Case("empty", iterate, dict(n=0), expect=("nothing written",)),
        Case("twice", iterate, dict(n=1, twice=True), expect=both),
        Case("show", show, dict(ratio=None), expect=("full size",)),
        Case("show-ratio", show, dict(ratio="real"), expect=("full size", "smaller")),
        Case("show-2", show, dict(ratio=2), expect=("smaller",)),
        Case("show-larger", show, dict(ratio=0.5), expect=("smaller",)),
        Case("refused", refused, {}, expect=("neither or both", "no number", "camera", "gone", "no frames", "video")),
        Case("home", home, {}, expect=("home",)),
    ]
    if not q:
        cs.append(Case("camera-long", iterate, dict(n=4, source=1), expect=both))
    return cs
