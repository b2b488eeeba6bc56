"""Detections read from a MOTChallenge file: every row in its frame, once."""
import os

from ..runner import Case
from ._mot import given_information, sequence

BOUNDS = "files of 0..4 rows (5 thorough) with symbolic frame numbers (inside and outside the sequence, in any order), boxes and scores; sequences of 1..3 frames; and larger: 30 rows (150 thorough), mostly fixed"
OUTSIDE = "the order of the detections within a frame; rounding to float32 (values exactly representable)"


def parser(env, rows, length, columns=10, own_info=False):
    from ._many import fixed

    nf = env.nf
    M = env.mod("norfair.metrics")
    path = sequence(env, "SEQ-03", length)
    want, lines = [], []
    for r in range(rows):
        free = rows < 10 or r in (2, rows - 1)  # of many rows only two are symbolic
        f = env.int(f"frame{r}", 0, length + 1) if free else r * r * 7 % length + 1
        box = [env.dyadic(f"box{r}_{k}", -20, 500) if free else int(fixed(f"box{r}_{k}", -160, 4000)) / 8 for k in range(4)]
        # the score tells the rows apart
        score = (r - 2 + (env.dyadic(f"score{r}", 0, 0.5) if free else 0.25)) / 8
        want.append((f, box, score))
        lines.append(",".join([str(f), "-1"] + [str(b) for b in box] + [str(score)] + ["-1"] * (columns - 7)))
    with open(os.path.join(path, "det", "det.txt"), "w") as f:
        f.write("".join(ln + "\n" for ln in lines))
    kw = {}
    if own_info:
        kw["information_file"] = given_information(env, M, path)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = M.DetectionFileParser(path, **kw)
    for turn in range(2):
        frames = list(p)
        env.check(len(frames) == length, "one list per frame of the sequence, every time it is iterated")
        seen = [0] * rows
        for k, dets in enumerate(frames):
            for d in dets:
                env.check(isinstance(d, nf.Detection), "a detection")
                env.check(tuple(d.points.shape) == (2, 2), "two corners")
                s = env.flat(d.scores)
                env.check(len(s) == 2, "a score per corner")
                hit = False
                for r, (f, box, score) in enumerate(want):
                    if env.split(env.And(s[0] >= score, s[0] <= score)):
                        hit = True
                        seen[r] += 1
                        env.check(f == k + 1, "in its frame")
                        env.check_close(s[1], score, "the score of the row")
                        x = env.flat(d.points)
                        for a, b in zip(x, (box[0], box[1], box[0] + box[2], box[1] + box[3])):
                            env.check_close(a, b, "from left, top to left + width, top + height")
                        env.reach("row")
                        break
                env.check(hit, "every detection is a row")
        for r, (f, box, score) in enumerate(want):
            env.check(env.Iff(env.And(f >= 1, f <= length), seen[r] == 1), "every row of a frame of the sequence is read once")
            env.check(seen[r] <= 1, "no row is read twice")
            if seen[r] == 0:
                env.reach("outside")
    if any(len(x) == 0 for x in frames):
        env.reach("empty frame")
    if any(len(x) > 1 for x in frames):
        env.reach("two in a frame")
    env.observe("n", [len(x) for x in frames])


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("none", parser, dict(rows=0, length=2), expect=("empty frame",)),
        Case("one", parser, dict(rows=1, length=2), expect=("row", "outside", "empty frame")),
        Case("two", parser, dict(rows=2, length=2, own_info=True), expect=("row", "outside", "empty frame", "two in a frame")),
        Case("three", parser, dict(rows=3, length=2, columns=7), expect=("row", "outside", "empty frame", "two in a frame")),
        Case("four", parser, dict(rows=4, length=1), expect=("row", "outside", "empty frame", "two in a frame")),
    ]
    cs.append(Case("many", parser, dict(rows=30 if q else 150, length=13), expect=("row", "outside", "empty frame", "two in a frame")))
    if not q:
        cs.append(Case("four-frames", parser, dict(rows=4, length=3), expect=("row", "outside", "empty frame", "two in a frame")))
        cs.append(Case("five", parser, dict(rows=5, length=2), expect=("row", "outside", "empty frame", "two in a frame")))
    return cs
