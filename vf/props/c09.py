"""Re-identification restores the old identity."""
from ..runner import Case
from ._trk import Bench

BOUNDS = "one or two lost/unmatched confirmed objects and one or two candidates in one update, every ReID distance in [0, 2] (multiples of 1/8), threshold 1, symbolic moment of loss, symbolic candidate position (one or two points), then two more frames; one among up to 2 (3) matched objects, created and listed in every order that puts it anywhere"
BUSY = "all"


def tagged(d, o):
    return 0.0 if d.data[0] == o.last_detection.data[0] else 9.0


def restored(env, olds, news, gap, shared_memory=2, pts=1):
    T = 1
    live = [False]
    rd = {}

    def reid(n, o):
        if not live[0]:
            return 7.0
        k = f"rd_{names[id(n)]}_{names[id(o)]}"
        if k not in rd:
            rd[k] = env.dyadic(k, 0, 2)
        return rd[k]

    names = {}
    H = 6
    b = Bench(env, distance=tagged, reid=reid, hit_counter_max=H, initialization_delay=3, reid_hit_counter_max=8,
              reid_distance_threshold=T, past_detections_length=shared_memory)
    O = "ABC"[:olds]
    N = "XYZ"[:news]
    b.update([b.det(s + "0", points=[(10.0 * i, 1.0 + 7 * j) for j in range(pts)]) for i, s in enumerate(O)], period=4)
    old = b.objects
    idents = [(o.id, o.global_id) for o in old]
    ages = [o.age for o in old]
    env.check(len(old) == olds and all(i is not None for i, _ in idents), "confirmed at once")
    for k in range(gap):
        b.update()
    env.check(all(any(o is x for x in b.objects) for o in old), "lost objects are kept while they can be re-identified")
    env.reach("lost" if bool(old[0].hit_counter < 0) else "still alive")
    b.update([b.det(s + "0", points=[(200.0, 100.0 + 40 * j) for j in range(pts)]) for s in N])
    new = [o for o in b.objects if all(o is not x for x in old)]
    for s, o in zip(O, old):
        names[id(o)] = s
    for s, o in zip(N, new):
        names[id(o)] = s
    env.check(len(new) == news, "candidates")
    total = b.tracker.total_object_count
    live[0] = True
    pos = {s: [(env.real(f"x{s}{j}", 150, 250), env.real(f"y{s}{j}", 50, 150)) for j in range(pts)] for s in N}
    dets = {s: b.det(s + "1", points=pos[s]) for s in N}
    out = b.update([dets[s] for s in N])
    after = b.objects
    alone = Bench(env, distance=tagged, hit_counter_max=H, initialization_delay=3, name="alone")
    alone.update([alone.det(s + "0", points=[(200.0, 100.0 + 40 * j) for j in range(pts)]) for s in N])
    alone.update([alone.det(s + "1", points=pos[s]) for s in N])
    twin = dict(zip(N, alone.objects))
    merged = {}
    for o in old:
        for s in N:
            if o.last_detection is dets[s]:
                merged[id(o)] = s
    env.check(len(set(merged.values())) == len(merged), "a candidate is merged into one object only")
    env.check([(o.id, o.global_id) for o in old] == idents, "identities are kept")
    env.check([o.age for o in old] == [a + gap + 2 for a in ages], "every object is as old as it has been there")
    for s, n in zip(N, new):
        held = any(x is n for x in after)
        env.check(held == (s not in merged.values()), "a merged candidate is gone, the others stay")
    for o in old:
        s = merged.get(id(o))
        if s is None:
            env.reach("not merged")
            continue
        env.reach("merged")
        env.check(rd[f"rd_{s}_{names[id(o)]}"] < T, "below the ReID threshold")
        env.check(any(x is o for x in out), "the old object is visible again")
        env.check(o.hit_counter >= 1, "and alive")
        env.check(o.hit_counter <= H, "hit counter within its maximum")
        src = new[N.index(s)]
        env.check_all_close(o.estimate, src.estimate, "it stands where the candidate stood")
        env.check_all_close(o.estimate_velocity, src.estimate_velocity, "and moves like it")
        env.check_all_close(o.estimate, twin[s].estimate, "as it would without re-identification")
        env.check_all_close(o.estimate_velocity, twin[s].estimate_velocity, "as it would without re-identification")
        env.check([bool(x) for x in o.live_points] == [bool(x) for x in src.live_points], "with the same points live")
        env.check(o.last_distance == src.last_distance, "and has its last distance")
        env.check(all(x.last_detection is not dets[s] for x in after if x is not o), "nothing else holds the detection")
    # closest first, nothing left over
    for o in old:
        for s in N:
            if merged.get(id(o)) == s:
                continue
            d = rd.get(f"rd_{s}_{names[id(o)]}")
            if d is None:
                env.fail("every lost object is compared with every candidate")
            ok = [d >= T]
            if id(o) in merged:
                ok.append(rd[f"rd_{merged[id(o)]}_{names[id(o)]}"] <= d)
            for o2 in old:
                if merged.get(id(o2)) == s:
                    ok.append(rd[f"rd_{s}_{names[id(o2)]}"] <= d)
            env.check(env.Or(ok), "an unmerged pair has a side merged at least as close")
    env.check(len(out) == len({o.id for o in out}), "distinct ids")
    # the restored object goes on
    live[0] = False
    dets2 = [b.det(s + "2", points=pos[s]) for s in N]
    out = b.update(dets2)
    for o in old:
        if id(o) in merged:
            env.check(sum(1 for x in out if x is o) == 1, "the restored object stays visible")
            env.check(o.last_detection is dets2[N.index(merged[id(o)])], "and takes the next detection")
    env.observe("merged", [[str(o.id), merged.get(id(o))] for o in old])


def among(env, others, gap):
    """among objects that are matched all the while"""
    live = [False]
    rd = {}

    def reid(n, o):
        k = f"rd_{n.last_detection.data[0]}_{o.last_detection.data[0]}"
        if k not in rd:
            rd[k] = env.dyadic(k, 0, 2)
        return rd[k] if live[0] else 7.0

    b = Bench(env, distance=tagged, reid=reid, hit_counter_max=6, initialization_delay=3, reid_hit_counter_max=8, reid_distance_threshold=1)
    P = "PQRS"[:others]
    at = env.choice("created", list(range(others + 1)))
    b.update([b.det(s + "0") for s in P[:at] + "A" + P[at:]], period=4)
    who = {o.last_detection.data[0]: o for o in b.objects}
    idents = {s: (o.id, o.global_id) for s, o in who.items()}
    for f in range(gap):
        b.update([b.det(f"{s}{f + 1}") for s in P])
    at = env.choice("appears", list(range(others + 1)))
    b.update([b.det(s + "7") for s in P[:at] + "X" + P[at:]])
    new = [o for o in b.objects if o.last_detection.data == "X7"]
    env.check(len(new) == 1, "a candidate")
    live[0] = True
    rev = env.split(env.bool("reversed"))
    dets = {s: b.det(s + "8") for s in P + "X"}
    line = P[::-1] if rev else P
    at = env.choice("listed", list(range(others + 1)))
    out = b.update([dets[s] for s in line[:at] + "X" + line[at:]])
    for s in P:
        env.check(who[s].last_detection is dets[s] and any(o is who[s] for o in out), "a matched object has its own detection")
        env.check((who[s].id, who[s].global_id) == idents[s], "and its id")
    env.check("rd_X_A" in rd, "the lost object is compared with the candidate")
    if bool(rd["rd_X_A"] < 1):
        env.check(any(o is who["A"] for o in out) and who["A"].last_detection is dets["X"], "the lost object is re-identified")
        env.check((who["A"].id, who["A"].global_id) == idents["A"], "under its id")
        env.check(all(o is not new[0] for o in b.objects), "and the candidate is gone")
        env.reach("merged")
    else:
        env.check(who["A"].last_detection.data == "A0", "the lost object is not")
        env.check(any(o is new[0] for o in b.objects) and new[0].last_detection is dets["X"], "and the candidate stays")
        env.reach("not merged")
    env.observe("n", len(b.objects))


def parts(env, pts, gap):
    """the old object and the new one have detected different points"""
    b = Bench(env, distance=tagged, reid=lambda n, o: 0.0, hit_counter_max=6, initialization_delay=3, reid_hit_counter_max=8, reid_distance_threshold=1, pointwise_hit_counter_max=20)
    at = [(10.0, 1.0 + 7 * j) for j in range(pts)]
    conf = lambda tag: [env.split(env.bool(f"{tag}{p}")) for p in range(pts)]
    num = lambda seen: [1.0 if x else 0.0 for x in seen]
    was = conf("was")
    b.update([b.det("O0", points=at, scores=num(was))], period=4)
    o = b.objects[0]
    for f in range(2):
        b.update([b.det(f"O{f + 1}", points=at, scores=num(was))])
    for _ in range(gap):
        b.update()
    live = [False] * pts
    for f in range(4):
        seen = conf("seen") if f < 1 else [not s for s in first] if f == 1 else [False] * pts
        first = seen if f == 0 else first
        if f == 1 and not env.split(env.bool("others")):
            seen = [False] * pts
        d = b.det(f"N{f}", points=[(200.0, 100.0 + 40 * j) for j in range(pts)], scores=num(seen))
        b.update([d])
        live = [x or y for x, y in zip(live, seen)]
        if o.last_detection is d:
            env.reach("merged")
            got = [bool(x) for x in o.live_points]
            for p in range(pts):
                if seen[p]:
                    env.check(got[p], "points detected in this frame are live")
                if not live[p]:
                    env.check(not got[p], "points the new object never detected are not live")
            env.observe("live", got)
            break
    env.check(o.last_detection.data[0] == "N", "re-identified")


def ghosts(env, frames):
    """objects that were never confirmed are never candidates for re-identification"""
    H = 4
    b = Bench(env, distance=tagged, reid=lambda n, o: 0.0, hit_counter_max=H, initialization_delay=3, reid_hit_counter_max=6,
              reid_distance_threshold=1)
    b.update([b.det("G0")])
    for f in range(frames):
        seen = env.split(env.bool(f"seen{f}"))
        out = b.update([b.det(f"N{f}")] if seen else [])
        for o, old, _ in [(c[1], c[0], 0) for c in b.reid_calls]:
            env.check(o.id is not None, "only confirmed objects are re-identified")
        for o in b.objects:
            if bool(o.hit_counter > 3):
                env.check(o.id is not None, "an object whose counter exceeds the delay is confirmed")
        env.reach("shown" if out else "none")
    env.observe("n", len(b.objects))


def cases(tier):
    q = tier == "quick"
    cs = []
    for olds, news in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)]:
        for gap in (0, 1, 3, 5, 7) if (q and olds + news < 4) or not q else (0, 5):
            cs.append(Case(f"restored-{olds}-{news}-{gap}", restored, dict(olds=olds, news=news, gap=gap), expect=("merged", "not merged")))
    for gap in (1, 7):
        cs.append(Case(f"restored-points-{gap}", restored, dict(olds=1, news=1, gap=gap, pts=2), expect=("merged", "not merged")))
    for gap in (0, 1, 7):
        cs.append(Case(f"parts-{gap}", parts, dict(pts=2 if q else 3, gap=gap), expect=("merged",)))
    for n in (1, 2) if q else (1, 2, 3):
        cs.append(Case(f"among-{n}", among, dict(others=n, gap=5), expect=("merged", "not merged")))
    cs.append(Case("among-alive", among, dict(others=2, gap=1), expect=("merged", "not merged")))
    cs.append(Case("ghosts", ghosts, dict(frames=6 if q else 9), expect=("shown", "none")))
    return cs
