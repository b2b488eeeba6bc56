"""The predictions file holds every prediction, in the MOTChallenge format."""
import os

from ..runner import Case
from ._mot import frame, given_information, read, sequence, tracker

BOUNDS = "sequences of 1..4 frames with up to 2 tracked objects, seen or not in each frame, at symbolic positions; frame numbers counted or given (symbolic); folders there or not, files of an earlier run there or not; and larger: 25 frames or 30 objects (1001, 120 thorough), mostly fixed, or ids beyond 1000 (10000)"
OUTSIDE = "rounding of decimal text (numbers are compared as the values they stand for)"


def predictions(env, length, n, given=False, own_info=False, stale=False, save="out/deep", slash=False, used=0):
    nf = env.nf
    M = env.mod("norfair.metrics")
    root = env.scratch()
    path = sequence(env, "SEQ-07.v2", length)
    kw = {}
    out = os.path.join(root, save) if save else root
    if save:
        kw["save_path"] = out
    if stale:
        os.makedirs(os.path.join(out, "predictions"))
        with open(os.path.join(out, "predictions", "SEQ-07.v2.txt"), "w") as f:
            f.write("9,9,9,9,9,9,-1,-1,-1,-1\n")
        env.reach("stale")
    if own_info:
        kw["information_file"] = given_information(env, M, path)
    p = M.PredictionsTextFile(path + "/" if slash else path, **kw)
    t = tracker(env, used)
    want = []
    for f in range(1, length + 1):
        objs, rows = frame(env, t, f, n, free=length < 10 or f in (1, length))
        num = env.int(f"number{f}", 0, 10000) if given else f
        if given:
            p.update(predictions=objs, frame_number=num)
        else:
            p.update(predictions=objs)
        want += [(num,) + r for r in rows]
        if len(rows) != n:
            env.reach("unseen")
    where = os.path.join(out, "predictions", "SEQ-07.v2.txt")
    env.check(os.path.isfile(where), "the file is predictions/<sequence>.txt in the save path")
    lines = read(where).splitlines()
    env.check(len(lines) == len(want), "one line per prediction, all on disk after the last frame")
    for ln, w in zip(lines, want):
        parts = ln.split(",")
        env.check(len(parts) == 10, "ten fields")
        env.check(all(env.token_spec(x) in (None, "", "d") for x in parts), "to full precision")
        got = [env.token_value(x) for x in parts]
        env.check(env.And(got[0] == w[0], got[1] == w[1]), "frame and id")
        for a, b in zip(got[2:6], w[2:]):
            env.check_close(a, b, "left, top, width and height", tol=1e-10)
        env.check(env.And(*[x == -1 for x in got[6:]]), "-1 in the other fields")
        env.reach("line")
    env.observe("n", len(lines))


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("counted", predictions, dict(length=3, n=1), expect=("line", "unseen")),
        Case("two-objects", predictions, dict(length=2, n=2), expect=("line", "unseen")),
        Case("given", predictions, dict(length=2, n=1, given=True), expect=("line",)),
        Case("information", predictions, dict(length=1, n=1, own_info=True, save=""), expect=("line",)),
        Case("slash", predictions, dict(length=1, n=1, slash=True), expect=("line",)),
        Case("many-frames", predictions, dict(length=25 if q else 1001, n=1), expect=("line", "unseen")),
        Case("many-objects", predictions, dict(length=3, n=30 if q else 120), expect=("line", "unseen")),
        Case("high-ids", predictions, dict(length=2, n=2, used=1022 if q else 10010), expect=("line", "unseen")),
        Case("stale", predictions, dict(length=2, n=1, stale=True), expect=("line", "stale")),
    ]
    if not q:
        cs.append(Case("long", predictions, dict(length=4, n=2), expect=("line", "unseen")))
        cs.append(Case("given-two", predictions, dict(length=3, n=2, given=True, stale=True), expect=("line", "unseen")))
    return cs
