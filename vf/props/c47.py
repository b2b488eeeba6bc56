"""The information file of a sequence: name=value lines, looked up by their whole name."""
import os

from ..runner import Case

BOUNDS = "files of up to 3 lines `name=value` with symbolic names of 1..3 letters and symbolic values of 0..3 (4 thorough) printable characters (spaces anywhere among them, names too), and lines that are no such pair; any symbolic name of 1..3 letters searched"
OUTSIDE = "the same name twice; other separators than ="


def information(env, shape, header=True, spaces=False):
    """shape: (length of the name, length of the value) of each line"""
    M = env.mod("norfair.metrics")

    def letters(name, n):
        t = env.text(name, n, 32 if spaces else 65, 122)
        for c in t:
            if spaces:
                env.assume(env.Not(c == "="))
            else:
                env.assume(env.Or(c == "_", env.Not(env.Or(c == "[", c == "\\", c == "]", c == "^", c == "`"))))
        return t

    name = letters("name", env.choice("length", [1, 2, 3]))
    lines = ["[Sequence]"] if header else []
    entries = []
    for i, (a, b) in enumerate(shape):
        k, v = letters(f"key{i}", a), env.text(f"value{i}", b, 32, 126)
        entries.append((k, v))
        lines.append(f"{k}={v}")
    same = [k == name for k, _ in entries]
    for i in range(len(same)):
        for j in range(i):
            env.assume(env.Not(env.And(same[i], same[j])))
    path = os.path.join(env.scratch(), "seqinfo.ini")
    with open(path, "w") as f:
        f.write("\n".join(lines) + ("\n" if env.split(env.bool("newline at the end")) else ""))
    info = M.InformationFile(path)
    for turn in range(2):
        got, e = env.trial(info.search, name)
        for (k, v), s in zip(entries, same):
            if env.split(s):
                env.check(e is None, "the name is found")
                if len(v) and v.isdigit():
                    env.check(not isinstance(got, str), "digits are a number")
                    env.check(got == number(env, v), "the number they denote")
                    env.reach("number")
                else:
                    env.check(isinstance(got, str), "other values are text")
                    env.check(got == v, "the whole value, unchanged")
                    env.reach("text")
                break
        else:
            env.check(isinstance(e, ValueError), "a name that is not there is a ValueError")
            env.reach("missing")
    env.observe("found", e is None)


def number(env, v):
    n = 0
    if not env.sym:
        return int(v)
    for c in v.codes:
        n = n * 10 + (c - 48)
    return n


def keyword(env):
    """the names a sequence has, by keyword"""
    from ._mot import sequence

    M = env.mod("norfair.metrics")
    n, w = env.int("n", 0, 99999), env.text("w", 2, 97, 122)
    path = sequence(env, "SEQ-04", n, extra="note=" + w)
    info = M.InformationFile(file_path=os.path.join(path, "seqinfo.ini"))
    got = info.search(variable_name="seqLength")
    env.check(not isinstance(got, str) or "⟦" in got, "a number")
    env.check(info.search(variable_name="imExt") == ".jpg" and info.search("imDir") == "img1" and info.search("frameRate") == 25, "text and numbers")
    env.check(info.search("note") == w, "text")
    env.reach("keyword")


def cases(tier):
    q = tier == "quick"
    ex = ("text", "missing")
    cs = [
        Case("one", information, dict(shape=[(2, 2)]), expect=ex + ("number",)),
        Case("one-empty", information, dict(shape=[(1, 0)], header=False), expect=ex),
        Case("two", information, dict(shape=[(3, 1), (2, 1)]), expect=ex + ("number",)),
        Case("two-growing", information, dict(shape=[(1, 1), (2, 2)], header=False), expect=ex + ("number",)),
        Case("spaces", information, dict(shape=[(2, 1), (1, 1)], spaces=True), expect=ex + ("number",)),
        Case("keyword", keyword, {}, expect=("keyword",)),
    ]
    if not q:
        cs.append(Case("three", information, dict(shape=[(3, 1), (2, 1), (1, 1)]), expect=ex + ("number",)))
        cs.append(Case("long", information, dict(shape=[(3, 4)]), expect=ex + ("number",)))
    return cs
