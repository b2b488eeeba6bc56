"""What is shown of objects for debugging is what they are."""
import re

from ..runner import Case

BOUNDS = "up to 2 objects over up to 4 frames (6 thorough), seen or not, confirmed or not, matched before or not, with symbolic distances; all filters of hit counters; and larger: 14 objects or 15 frames (40, 120 thorough), mostly fixed"
OUTSIDE = "the layout of the table (drawn by rich)"


def life(env, frames, n, delay, period=1):
    nf = env.nf
    dist = {}
    t = nf.Tracker(lambda d, o: dist[d.data] if d.data == o.last_detection.data else 1000.0, distance_threshold=100, hit_counter_max=3, initialization_delay=delay, filter_factory=nf.NoFilterFactory())
    Table = env.world.modules["rich.table"].Table
    age, last, inits = {}, {}, {}
    made = 0
    for f in range(frames):
        dets = []
        for i in range(n):
            free = n < 4 and frames < 10 or i == n - 1 and f in (0, 1, frames - 1)  # of many only some are symbolic
            dist[i] = env.real(f"d{f}_{i}", 0, 99) if free else 0.5 * i + f % 4
            if env.split(env.bool(f"seen{f}_{i}")) if free else (i + f) % 3:
                dets.append(nf.Detection(env.arr([[0.0 + i, 1.0]]), data=i))
        held = set(map(id, t.tracked_objects))
        seen = {d.data for d in dets}
        active = t.update(dets, period=period)
        for o in t.tracked_objects:
            k = o.initializing_id
            if id(o) in held:
                age[k] += 1
                if o.last_detection.data in seen and o.last_detection in dets:
                    last[k] = dist[o.last_detection.data]
            else:
                env.check(k not in inits, "every object has its own initializing id")
                inits[k] = o
                age[k], last[k] = o.age, None
                env.check(o.age >= 0, "no age before it exists")
            env.check(inits[k] is o, "which it keeps")
            env.check(o.age == age[k], "one older with every frame")
            env.check((o.last_distance is None) == (last[k] is None), "a last distance once it has been matched")
            if last[k] is not None:
                env.check_close(o.last_distance, last[k], "the distance of the last match")
        for which in (t.tracked_objects, active):
            before = len(Table.made)
            _, e = env.trial(nf.print_objects_as_table, which)
            env.check(e is None, "any objects can be printed")
            env.check(len(Table.made) == before + 1, "one table")
            tab = Table.made[-1]
            env.check(sum(x is tab for x in env.world.modules["rich"].printed) == 1, "which is printed")
            env.check([str(c[0]).lower() for c in tab.columns] == ["id", "age", "hit counter", "last distance", "init id"], "its columns")
            env.check(len(tab.rows) == len(which), "one row per object")
            for row, o in zip(tab.rows, which):
                env.check(all(isinstance(x, str) for x in row), "of text")
                env.check(row[0] == str(o.id) and row[1] == str(o.age) and row[2] == str(o.hit_counter) and row[4] == str(o.initializing_id), "id, age, hit counter and initializing id")
                if o.last_distance is None:
                    env.check(not any(c.isdigit() for c in row[3]), "no distance where there is none")
                    env.reach("no distance")
                else:
                    env.check(shown(env, row[3], o.last_distance, 4), "the last distance to four digits")
                    env.reach("distance")
        for o in t.tracked_objects:
            s, e = env.trial(repr, o)
            env.check(e is None, "any object can be shown")
            m = re.search(r"Object_(\S+?)\x1b\[0m\(age: (.*), hit_counter: (.*), last_distance: (.*), init_id: (.*)\)$", s)
            env.check(m is not None, "an object is shown with its fields")
            env.check(m.group(1) == str(o.id) and m.group(2) == str(o.age) and m.group(3) == str(o.hit_counter) and m.group(5) == str(o.initializing_id), "its fields")
            if o.last_distance is None:
                env.check(m.group(4) == "None", "no distance")
            else:
                env.check(shown(env, m.group(4), o.last_distance, 2), "its distance to two digits")
            if o.id is None:
                env.reach("tentative")
    env.observe("n", len(t.tracked_objects))


def shown(env, text, value, digits):
    if env.sym:
        spec = env.token_spec(text)
        if spec is not None:
            got = env.token_value(text)
            return env.And(spec in (f".{digits}f", f"0.{digits}f"), got >= value, got <= value)
    return abs(float(text) - float(value)) <= 0.5000001 * 10 ** -digits and len(text.partition(".")[2]) == digits


def cases(tier):
    q = tier == "quick"
    cs = [
        Case("direct", life, dict(frames=3, n=1, delay=0), expect=("distance", "no distance")),
        Case("delayed", life, dict(frames=4, n=1, delay=1), expect=("distance", "no distance", "tentative")),
        Case("many", life, dict(frames=2, n=14 if q else 40, delay=0), expect=("distance", "no distance")),
        Case("many-frames", life, dict(frames=15 if q else 120, n=1, delay=1), expect=("distance", "no distance", "tentative")),
        Case("two", life, dict(frames=2, n=2, delay=1), expect=("distance", "no distance", "tentative")),
    ]
    if not q:
        cs.append(Case("long", life, dict(frames=6, n=1, delay=2), expect=("distance", "no distance", "tentative")))
        cs.append(Case("two-long", life, dict(frames=3, n=2, delay=0, period=2), expect=("distance", "no distance")))
    return cs
