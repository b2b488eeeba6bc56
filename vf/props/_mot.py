"""Sequences on disk and trackers over them, shared by the harnesses of the MOTChallenge tools."""
import os

from ._many import fixed


def sequence(env, name="SEQ-01", length=3, extra="", root=None):
    """a directory with a seqinfo.ini; returns its path"""
    path = os.path.join(root or env.scratch(), "train", name)
    os.makedirs(os.path.join(path, "gt"))
    os.makedirs(os.path.join(path, "det"))
    with open(os.path.join(path, "seqinfo.ini"), "w") as f:
        f.write(f"[Sequence]\nname={name}\nimDir=img1\nframeRate=25\nseqLength={length}\nimWidth=640\nimHeight=480\nimExt=.jpg\n{extra}\n")
    return path


def given_information(env, M, path):
    """the information of a sequence from a file elsewhere; the sequence's own one is of another length"""
    ini = os.path.join(path, "seqinfo.ini")
    other = os.path.join(env.scratch(), "info.txt")
    text = read(ini)
    with open(other, "w") as f:
        f.write(text)
    with open(ini, "w") as f:
        f.write("[Sequence]\nseqLength=7\n")
    return M.InformationFile(other)


def tracker(env, used=0):
    """used: how many objects it has seen before"""
    nf = env.nf
    t = nf.Tracker(lambda d, o: 0.0 if d.data == o.last_detection.data else 9.0, distance_threshold=0.5, hit_counter_max=2, initialization_delay=0, filter_factory=nf.NoFilterFactory())
    if used:
        t.update([nf.Detection(env.arr([[0.0, 0.0], [1.0, 1.0]]), data=-1) for _ in range(used)])
        while t.tracked_objects:
            t.update()
    return t


def frame(env, t, f, n, prefix="", scores=False, free=True):
    """one frame of tracking: objects seen or not, anywhere (unless free, only in ways of their own); the objects returned (in the other order in every second frame) and their boxes"""
    dets = []
    for i in range(n):
        sym = free and (n < 4 or i == n - 1)
        if env.split(env.bool(f"{prefix}seen{f}_{i}")) if sym else (i + f) % 4:
            box = [[env.dyadic(f"{prefix}b{f}_{i}_{j}_{k}", -50, 500) if sym else int(fixed(f"{prefix}b{f}_{i}_{j}_{k}", -400, 4000)) / 8 for k in range(2)] for j in range(2)]
            # more digits than single precision or a few decimals can hold
            box = [[v + (1 + j) * 2.0 ** -21 for j, v in enumerate(p)] for p in box]
            dets.append(env.nf.Detection(env.arr(box), data=i, scores=env.arr([env.real(f"{prefix}score{f}_{i}", -9, 9)] * 2) if scores else None))
    objs = t.update(dets)[:: -1 if f % 2 == 0 else 1]
    rows = []
    for o in objs:
        e = o.estimate
        rows.append((o.id, e[0, 0], e[0, 1], e[1, 0] - e[0, 0], e[1, 1] - e[0, 1]))
    return objs, rows


def read(path):
    with open(path) as f:
        return f.read()
