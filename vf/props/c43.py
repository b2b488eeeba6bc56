"""Where a video goes, how it is encoded and what the progress bar says."""
import os
import types

from ..runner import Case
from ._video import CV, bars, clock

BOUNDS = "input names with stems of 1..4 (6 thorough) symbolic characters, with or without further parts after a dot, symbolic extensions of 2..4 letters, any camera number, any file name of 0..6 symbolic characters for the codec; descriptions of up to 30 symbolic characters in terminals of 0..90 columns, of 110 in terminals of 125..160"
OUTSIDE = "file names that end in mp4 or avi without a dot"


def system(env, files, dirs, columns=None):
    """os with files and directories of the harness's choosing, some of them with symbolic names"""
    m = types.ModuleType("os")
    m.__dict__.update({k: v for k, v in os.__dict__.items() if not k.startswith("__")})
    p = m.path = types.ModuleType("os.path")
    p.__dict__.update({k: v for k, v in os.path.__dict__.items() if not k.startswith("__")})
    is_in = lambda x, xs: bool(env.Or(False, *[x == y for y in xs]))
    p.isfile = lambda x: is_in(x, files)
    p.isdir = lambda x: is_in(x, dirs)
    p.exists = lambda x: is_in(x, files + dirs)
    if columns is not None:
        def size(fd=1):
            c = columns(fd)
            if c is None:
                raise OSError(25, "Inappropriate ioctl for device")
            return os.terminal_size((c, 24)) if isinstance(c, int) and not env.sym else (c, 24)

        m.get_terminal_size = size
    return m


def letters(env, name, n, also=""):
    t = env.text(name, n, 33, 126)
    for c in t:
        env.assume(env.Not(env.Or(c == "/", c == "~", c == ".", c == "\\")))
    return t


def make(env, files=(), dirs=(), columns=None, **kw):
    cv, prog = CV(env), bars()
    cv.props = {3: 640.0, 4: 480.0, 5: 25.0, 7: 10.0}
    os_ = system(env, list(files), list(dirs), columns)
    env.fresh_world(modules={"cv2": cv.module, "rich.progress": prog, "os": os_, "os.path": os_.path, "time": clock(env)})
    return env.mod("norfair.video").Video(**kw), cv, prog


def output(env, stem, depth, camera=False, dotted=0):
    ext = {}
    e = "mp4"
    if env.split(env.bool("extension given")):
        e = ext["output_extension"] = letters(env, "ext", env.choice("ext length", [2, 3, 4]))
        env.reach("extension")
    folder = "/out/there"
    if camera:
        cam = env.int("camera", 0, 99)
        name = f"camera_{cam}"
        src = dict(camera=cam)
        files = []
    else:
        name = letters(env, "stem", stem)
        rest = "." + letters(env, "rest", dotted) if dotted else ""
        src = dict(input_path=["", "/in/", "in/some.dir/"][depth] + name + rest + ".mp4")
        files = [src["input_path"]]
    kind = env.choice("output", ["folder", "file", "default"])
    if kind == "default":
        v, *_ = make(env, files, ["."], **src, **ext)
        env.check(env.expand(v.get_output_file_path()) == env.expand(f"./{name}_out.{e}"), "by default in the current folder")
    elif kind == "folder":
        v, *_ = make(env, files, [folder], output_path=folder, **src, **ext)
        env.check(env.expand(v.get_output_file_path()) == env.expand(f"{folder}/{name}_out.{e}"), "in the folder, named after the source")
    else:
        p = "/out/" + letters(env, "given", 3) + ".avi"
        v, *_ = make(env, files, [folder], output_path=p, **src, **ext)
        env.check(env.expand(v.get_output_file_path()) == p, "the path given")
    env.reach(kind)


def codec(env, n):
    v, *_ = make(env, camera=0)
    name = env.text("name", n, 33, 126)
    got, e = env.trial(v.get_codec_fourcc, name)
    low = name.lower()
    if env.split(low.endswith(".mp4")):
        env.check(e is None and got == "mp4v", "mp4v for .mp4")
        env.reach("mp4")
    elif env.split(low.endswith(".avi")):
        env.check(e is None and got == "XVID", "XVID for .avi")
        env.reach("avi")
    elif not env.split(env.Or(low.endswith("mp4"), low.endswith("avi"))):
        env.check(isinstance(e, RuntimeError), "a RuntimeError for anything else")
        env.reach("unknown")
    w, *_ = make(env, camera=0, output_fourcc="avc1")
    env.check(w.get_codec_fourcc(name) == "avc1", "the codec given")


def description(env, n, lo, hi, label=False):
    cols = env.int("columns", lo, hi)
    answers = env.choice("terminal", [0, 1, 2, None])
    if answers is None:
        cols = 80
    text = letters(env, "text", n)
    lab = {"label": "some label"} if label else {}
    full = text + ".mp4" + (" | some label" if label else "")
    v, cv, prog = make(env, [text + ".mp4"], [], columns=lambda fd: cols if fd == answers else None, input_path=text + ".mp4", **lab)
    got = env.expand(prog.made[-1].tasks[0][0])
    space = cols - 25
    if env.split(len(full) < space):
        env.check(got == full, "what fits is shown as it is")
        env.reach("as it is")
    else:
        env.check(env.Or(len(got) < space, len(got) <= 6), "what does not fit is made to fit, as far as possible")
        i = len(got)
        mid = [k for k in range(i - 4) if env.split(got[k:k + 5] == " ... ")]
        env.check(bool(mid), "with an ellipsis")
        env.check(env.Or(*[env.And(got[:k] == full[:k], got[k + 5:] == full[len(full) - (i - k - 5):]) for k in mid]), "between its beginning and its end")
        env.check(env.Implies(space >= 10, env.Or(*[k >= 1 and k + 5 < i for k in mid])), "both of them shown")
        env.reach("shortened")


def cases(tier):
    q = tier == "quick"
    ks = ("folder", "file", "default", "extension")
    cs = [Case(f"path-{s}-{d}", output, dict(stem=s, depth=d), expect=ks) for s, d in (((1, 0), (4, 1), (2, 2)) if q else ((1, 0), (4, 1), (2, 2), (6, 1), (6, 2)))]
    cs += [Case(f"path-dotted-{d}", output, dict(stem=2, depth=d, dotted=2), expect=ks) for d in (0, 2)]
    cs.append(Case("path-camera", output, dict(stem=0, depth=0, camera=True), expect=ks))
    for n in range(0, 7 if q else 9):
        cs.append(Case(f"codec-{n}", codec, dict(n=n), expect=("unknown",) + (("mp4", "avi") if n >= 4 else ())))
    cs.append(Case("description", description, dict(n=8, lo=25, hi=45), expect=("as it is", "shortened")))
    cs.append(Case("description-wide", description, dict(n=110, lo=125, hi=160), expect=("as it is", "shortened")))
    cs.append(Case("description-label", description, dict(n=3, lo=30, hi=60, label=True), expect=("as it is", "shortened")))
    cs.append(Case("description-narrow", description, dict(n=20, lo=0, hi=34), expect=("shortened",)))
    if not q:
        cs.append(Case("description-long", description, dict(n=30, lo=0, hi=90), expect=("as it is", "shortened")))
    return cs
