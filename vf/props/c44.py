"""A video made of the frames of a sequence."""
import os

from ..runner import Case
from ._mot import sequence
from ._video import CV, Frame, clock

BOUNDS = "sequences of 0..4 frames (12 thorough), with and without making a video, symbolic frame rate and size; iterated and updated in any interleaving that updates each frame after reading it; and larger: 31 and 120 frames (1001 and 1200 thorough)"
OUTSIDE = "decoding and encoding"


def frames(env, length, make=True, own_info=False, save=True, folder=False, slash=False, name="SEQ-11", ext=".jpg", directory="img1"):
    cv = CV(env)
    env.fresh_world(modules={"cv2": cv.module})
    V = env.mod("norfair.video")
    M = env.mod("norfair.metrics")
    root = env.scratch()
    path = os.path.join(root, "train", name)
    os.makedirs(path)
    digits = lambda name, n: env.text(name, n, 48, 57)
    num = lambda t: sum((c - 48) * 10 ** k for k, c in enumerate(reversed(t.codes))) if env.sym else int(t)
    rate, w, h = digits("rate", 2), digits("w", 3), digits("h", 3)
    with open(os.path.join(path, "seqinfo.ini"), "w") as f:
        f.write(f"[Sequence]\nname={name}\nimDir={directory}\nframeRate={rate}\nseqLength={length}\nimWidth={w}\nimHeight={h}\nimExt={ext}\n")
    kw = {}
    out = root
    if save:
        out = kw["save_path"] = os.path.join(root, "saved")
    if folder:
        os.makedirs(os.path.join(out, "videos"))
    if own_info:
        kw["information_file"] = M.InformationFile(os.path.join(path, "seqinfo.ini"))
        os.remove(os.path.join(path, "seqinfo.ini"))
    if not make:
        kw["make_video"] = False
    v = V.VideoFromFrames(path + "/" if slash else path, **kw)
    want = [os.path.join(path, directory, "%06d" % (i + 1) + ext) for i in range(length)]
    for turn in range(1 if make else 2):
        got, given = [], []
        for frame in v:
            got.append(frame)
            env.check(len(got) <= length, "no more frames than there are")
            env.check(os.path.normpath(frame.name) == want[len(got) - 1], "the frames of the sequence, in order")
            if make:
                env.check(cv.writers[0].released == 0, "the output is open until the last frame")
                o = frame
                if env.split(env.bool(f"changed{len(got)}")) if length < 10 or len(got) in (1, length) else len(got) % 3:
                    o = Frame(4, 5, "changed")
                v.update(o)
                given.append(o)
        env.check(len(got) == length, "every frame of the sequence")
        env.reach("iterated")
    if not make and length > 1:
        k = env.choice("left after", range(1, length) if length < 20 else (1, length - 1))
        for frame in v:
            k -= 1
            if not k:
                break
        again = [os.path.normpath(frame.name) for frame in v]
        env.check(again == want, "iterating again starts again")
        env.reach("left early")
    if make:
        env.check(len(cv.writers) == 1, "one output")
        wr = cv.writers[0]
        env.check(os.path.abspath(wr.args["filename"]) == os.path.join(out, "videos", name + ".mp4"), "videos/<sequence>.mp4 in the save path")
        env.check(os.path.isdir(os.path.join(out, "videos")), "in a folder that is there")
        env.check(cv.codes[wr.args["fourcc"]] == "mp4v", "as mp4v")
        env.check(wr.args["fps"] == num(rate), "with the frame rate of the sequence")
        size = wr.args["frameSize"]
        env.check(env.And(size[0] == num(w), size[1] == num(h)), "and its size")
        env.check(len(wr.frames) == length and all(a is b for a, b in zip(wr.frames, given)), "every frame it was updated with, in order")
        env.check(cv.late == 0, "while it is open")
        if length:
            env.check(wr.released >= 1, "closed after the last frame")
        env.reach("video")
    else:
        env.check(not cv.writers, "no video")


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("three", frames, dict(length=3), expect=("iterated", "video")),
        Case("one", frames, dict(length=1, own_info=True, folder=True), expect=("iterated", "video")),
        Case("none", frames, dict(length=0), expect=("iterated", "video")),
        Case("two-here", frames, dict(length=2, save=False), expect=("iterated", "video")),
        Case("slash", frames, dict(length=1, slash=True), expect=("iterated", "video")),
        Case("dots", frames, dict(length=2, name="SEQ.11.a", ext=".JPEG", directory="Images/a.b"), expect=("iterated", "video")),
        Case("many", frames, dict(length=31 if q else 1001), expect=("iterated", "video")),
        Case("many-only-read", frames, dict(length=120 if q else 1200, make=False), expect=("iterated", "left early")),
        Case("four-only-read", frames, dict(length=4, make=False), expect=("iterated", "left early")),
    ]
    if not q:
        cs.append(Case("six", frames, dict(length=6), expect=("iterated", "video")))
    return cs
