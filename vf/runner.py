"""Explores the cases of a property in parallel, confirms counterexamples on the real code, writes the evidence."""
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

from . import core, env as envmod, loader
from .core import (
    Control, Engine, PathInfeasible, PathTimeout, PathTooDeep, Stats, Unsupported, Violation, set_engine,
)

z3 = core.z3
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", ROOT)  # where evidence and replays go
REPLAYS = os.path.join(OUT, "replays")


class Case:
    """one harness with fixed structural parameters"""

    def __init__(self, name, fn, params=None, *, path_s=20, replay_s=20, timeout_ms=20000, branch_ms=3000, max_depth=3000,
                 witness=2, witness_alarm=True, expect=(), nice=None, known=None, max_paths=None, may_hang=False, crowd=None):
        self.name, self.fn, self.params = name, fn, params or {}
        self.path_s, self.replay_s, self.timeout_ms, self.branch_ms = path_s, replay_s, timeout_ms, branch_ms
        self.max_depth, self.witness, self.witness_alarm = max_depth, witness, witness_alarm
        self.expect = tuple(expect)
        self.max_paths = max_paths
        self.crowd = crowd  # trackers are busy with other objects too (vf/crowd.py)
        self.may_hang = may_hang  # a path that never ends is itself a violation


    def busy(self, mode="both", name=None):
        """the same case with trackers that see other objects as well"""
        c = copy.copy(self)
        c.name, c.crowd = name or self.name + "-busy", mode
        return c


# --------------------------------------------------------------------------------------------------------------
# which functions of the code under test were executed symbolically
# --------------------------------------------------------------------------------------------------------------
_funcs = set()


def _monitor_on():
    m = sys.monitoring
    try:
        m.use_tool_id(3, "vf")
    except ValueError:
        return
    prefix = os.path.join(loader.REPO, "norfair") + "/"
    fprefix = os.path.join(loader.SITE, "filterpy") + "/"

    def start(code, off):
        f = code.co_filename
        if f.startswith(prefix) and not code.co_name.startswith("<"):
            _funcs.add("norfair/" + f[len(prefix):] + ":" + code.co_qualname)
        elif f.startswith(fprefix) and not code.co_name.startswith("<"):
            _funcs.add("filterpy/" + f[len(fprefix):] + ":" + code.co_qualname)
        return m.DISABLE

    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)


# --------------------------------------------------------------------------------------------------------------
# concrete execution
# --------------------------------------------------------------------------------------------------------------
class _Hang(BaseException):
    pass


def _alarm(*a):
    raise _Hang()


def run_concrete(case, values, seconds):
    """in this process; returns (status, label, detail, observations)"""
    e = envmod.ConcEnv(values)
    e.crowd = case.crowd
    set_engine(None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    import warnings

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            case.fn(e, **case.params)
        r = ("ok", "", "", e.observations)
    except envmod.ConcreteViolation as v:
        r = ("violation", v.label, v.detail, e.observations)
    except envmod.ConcreteInfeasible:
        r = ("infeasible", "", "", [])
    except _Hang:
        r = ("violation", "does not terminate", f"no result within {seconds} s", [])
    except RecursionError as x:
        r = ("violation", "unexpected exception", repr(x), [])
    except Exception as x:  # noqa: BLE001
        r = ("violation", "unexpected exception", "".join(traceback.format_exception_only(type(x), x)).strip()
             + " @ " + _where(x), e.observations)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        e.cleanup()
    return r[:3] + ([(k, envmod.plain(v)) for k, v in r[3]],)


def _where(x):
    tb = traceback.extract_tb(x.__traceback__)
    for f in reversed(tb):
        if "/norfair/" in f.filename:
            return f"{f.filename}:{f.lineno} in {f.name}"
    return f"{tb[-1].filename}:{tb[-1].lineno}" if tb else "?"


def forked_concrete(case, values, seconds):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            out = run_concrete(case, values, seconds)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:  # noqa: BLE001
            code = 3
        os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + seconds + 3
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hang = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if hang:
        return ("violation", "does not terminate", f"no result within {seconds} s", [])
    try:
        return pickle.loads(buf)
    except Exception:  # noqa: BLE001
        return ("error", "replay died", "", [])


# --------------------------------------------------------------------------------------------------------------
# symbolic execution of one path
# --------------------------------------------------------------------------------------------------------------
def _path_alarm(*a):
    raise PathTimeout()


class PathResult:
    __slots__ = "status label detail values obs incomplete".split()


def run_path(case, eng, prefix, deadline):
    """Execute one path; returns (status, label, detail, env)"""
    eng.begin(prefix)
    set_engine(eng)
    e = envmod.SymEnv(eng)
    e.crowd = case.crowd
    signal.signal(signal.SIGALRM, _path_alarm)
    left = min(case.path_s, max(1.0, deadline - time.time()))
    signal.setitimer(signal.ITIMER_REAL, left)
    try:
        case.fn(e, **case.params)
        return "completed", "", "", None, e
    except Violation as v:
        return "violation", v.label, v.detail, v.values, e
    except PathInfeasible:
        return "infeasible", "", "", None, e
    except PathTooDeep:
        return "too_deep", "", "", None, e
    except PathTimeout:
        return "timeout" if time.time() < deadline - 0.5 else "cut", "", "", None, e
    except Unsupported as u:
        return "unsupported", str(u), _where(u), None, e
    except z3.Z3Exception as x:
        return "unsupported", "z3: " + str(x), _where(x), None, e
    except Exception as x:  # noqa: BLE001 - raised by the code under test (or by the encoding)
        return "exception", "unexpected exception", repr(x) + " @ " + _where(x), None, e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        e.cleanup()


def nice_models(eng, e, neg=None):
    """models of the current path condition, the ones with simple values first"""
    reals = [v for (k, v, _, _) in e.decl.values() if k == "real"]
    extra = [] if neg is None else [neg]
    if reals:
        for den, lim in ((1, 64), (8, 1024), (64, 4096)):
            eng.nfresh += 1
            cs = list(extra)
            for i, v in enumerate(reals):
                k = z3.Int(f"nice!{den}!{eng.nfresh}!{i}")
                cs += [v == z3.ToReal(k) * z3.Q(1, den), k <= lim * den, k >= -lim * den]
            r, m = eng._check(*cs, timeout=3000)
            if r == z3.sat:
                yield m
    r, m = eng._check(*extra, timeout=eng.timeout_ms)
    if r == z3.sat:
        yield m
    elif extra:
        r, m = eng.decide(neg)
        if r == z3.sat:
            yield m


def explore(case_id, prefixes, slice_s, deadline, seed, want_witness):
    """Worker: explore from the given prefixes for a while."""
    case = _cases[case_id]
    eng = Engine(timeout_ms=case.timeout_ms, max_depth=case.max_depth, branch_timeout_ms=case.branch_ms)
    st = eng.stats
    stack = list(prefixes)
    out = dict(case=case_id, violations=[], unconfirmed=[], notes={}, samples=[], incomplete=[], obs_diverged=[])
    t_end = min(time.time() + slice_s, deadline)
    rng = random.Random(seed)
    first = True
    npaths = 0
    tries = 4
    while stack and (first or time.time() < t_end):
        first = False
        prefix = stack.pop()
        status, label, detail, model, e = run_path(case, eng, prefix, deadline)
        if status == "cut":
            stack.append(prefix)
            break
        npaths += 1
        st.paths += 1
        stack.extend(reversed(eng.pending))
        try:
            signal.signal(signal.SIGALRM, _path_alarm)
            signal.setitimer(signal.ITIMER_REAL, 120)
            if status in ("violation", "exception", "too_deep", "timeout"):
                if status == "too_deep":
                    st.too_deep += 1
                _candidate(case, eng, e, status, label, detail, model, out)
            elif status == "infeasible":
                st.infeasible += 1
            elif status == "unsupported":
                st.unsupported += 1
                out["incomplete"].append(f"unsupported: {label} at {detail}")
                if tries > 0 and case.witness_alarm:
                    tries -= 1
                    _fallback(case, eng, e, label, detail, out)
            else:
                st.completed += 1
                if eng.path_incomplete:
                    out["incomplete"].append(eng.path_incomplete)
                if want_witness > 0 and (npaths == 1 or rng.random() < 0.15):
                    want_witness -= 1
                    _witness(case, eng, e, out)
        except PathTimeout:
            out["incomplete"].append("witness/counterexample handling timed out")
        except Control as x:
            out["incomplete"].append("control " + repr(x))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if out["violations"]:
            break
    out["notes"] = {k: sorted(map(str, v)) for k, v in eng.notes.items()}
    out["reached"] = sorted(eng.reached)
    out["stats"] = st
    out["pending"] = stack
    out["funcs"] = sorted(_funcs)
    return out


def _candidate(case, eng, e, status, label, detail, model, out):
    """a counterexample of the encoding: it counts only when the real code shows it"""
    tried = []
    models = []
    if status == "violation":
        models.append(model)
        neg = getattr(eng, "last_neg", None)
        gen = nice_models(eng, e, neg)
    else:
        gen = nice_models(eng, e)
    n = 0
    import itertools

    for m in itertools.chain(gen, models):
        n += 1
        if n > 5:
            break
        vals = e.values(m)
        if vals in tried:
            continue
        tried.append(vals)
        secs = case.replay_s if status in ("too_deep", "timeout") else min(case.replay_s, 20)
        r = forked_concrete(case, vals, secs)
        if r[0] == "violation":
            out["violations"].append(dict(label=r[1], detail=r[2], found=label or status, symbolic=detail, values=vals))
            return
    out["unconfirmed"].append(dict(label=label or status, detail=str(detail)[:400], values=tried[:1]))
    out["incomplete"].append(f"unconfirmed counterexample: {label or status} {str(detail)[:200]}")


def _fallback(case, eng, e, label, detail, out):
    """the encoding ends in the middle of a path: inputs that lead there are run on the real code; nothing is concluded
    from a run that shows nothing"""
    for n, m in enumerate(nice_models(eng, e)):
        if n == 2:
            break
        vals = e.values(m)
        r = forked_concrete(case, vals, min(case.replay_s, 20))
        if r[0] == "violation":
            out["violations"].append(dict(label=r[1], detail=r[2], found=f"the path leads to what is not encoded ({label} at {detail})", symbolic="", values=vals))
            return


def _witness(case, eng, e, out):
    m = None
    for m in nice_models(eng, e):
        break
    if m is None:
        return
    vals = e.values(m)
    r = forked_concrete(case, vals, case.replay_s)
    if r[0] == "violation":
        if case.witness_alarm:
            out["violations"].append(
                dict(label=r[1], detail=r[2], found="witness of an explored path", symbolic="", values=vals)
            )
        else:
            eng.stats.diverged += 1
            out["obs_diverged"].append(f"{r[1]} {r[2]} {vals}")
        return
    if r[0] != "ok":
        eng.stats.diverged += 1
        out["obs_diverged"].append(f"{r[0]} {r[1]} {vals}")
        return
    exp = []
    for k, v in eng.observations:
        try:
            exp.append((k, envmod.eval_obs(v, m)))
        except (ValueError, z3.Z3Exception) as x:
            exp.append((k, "?" + repr(x)))
    got = r[3]
    ok = len(exp) == len(got) and all(
        a[0] == b[0] and (isinstance(a[1], str) and a[1].startswith("?") or envmod.same(a[1], b[1])) for a, b in zip(exp, got)
    )
    if ok:
        eng.stats.validated += 1
    else:
        eng.stats.diverged += 1
        out["obs_diverged"].append(f"expected {exp} got {got} for {vals}"[:2000])
    if len(out["samples"]) < 2:
        out["samples"].append(dict(case=case.name, inputs=vals, observed=got[:12], agrees=ok))


_cases = []


def _init_worker(mem_gb):
    resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _monitor_on()
    sys.setrecursionlimit(20000)
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    except OSError:
        pass


# --------------------------------------------------------------------------------------------------------------
# master
# --------------------------------------------------------------------------------------------------------------
def load_module(pid):
    return importlib.import_module("vf.props." + pid.lower())


def all_cases(mod, tier):
    """the cases of a property; those BUSY names (all of them in the thorough tier, but for NOT_BUSY) also with trackers
    that see other objects as well"""
    cs = list(mod.cases(tier))
    busy, no = getattr(mod, "BUSY", ()), getattr(mod, "NOT_BUSY", ())
    return cs + [c.busy() for c in cs if busy and c.name not in no and (busy == "all" or tier != "quick" or c.name in busy)]


def known_findings():
    out = []
    p = os.path.join(ROOT, "known-findings.json")
    if os.path.exists(p):
        out = json.load(open(p)).get("findings", [])
    return out


def run(pid, tier, seed, budget=None, only=None, jobs=None, verbose=False):
    global _cases
    t0 = time.time()
    mod = load_module(pid)
    _cases = all_cases(mod, tier)
    if only:
        _cases = [c for c in _cases if only in c.name]
    budget = budget or getattr(mod, "BUDGET", {}).get(tier, 150 if tier == "quick" else 800)
    deadline = t0 + budget
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    # warm up, so that forked workers and their forked replays share the imports
    err = None
    try:
        loader.World(True).load("norfair")
        loader.World(False).load("norfair")
    except Exception as x:  # noqa: BLE001
        err = x
    rng = random.Random(seed)
    total = Stats()
    per_case = {i: Stats() for i in range(len(_cases))}
    reached = {i: set() for i in range(len(_cases))}
    funcs, notes, samples, violations, unconfirmed, incomplete, diverged = set(), {}, [], [], [], {}, []
    queue = [(i, [[]]) for i in range(len(_cases))]
    witness_left = {i: c.witness for i, c in enumerate(_cases)}
    unexplored = {}
    if err is not None:
        print(f"cannot import the package: {err!r}", flush=True)
        return 2
    ctx = mp.get_context("fork")
    ex = ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker, initargs=(6,))
    running = {}
    died = None
    kf = [k for k in known_findings() if k.get("property") == pid and not k.get("fixed")]
    known_hit = []
    try:
        while queue or running:
            while queue and len(running) < jobs:
                i, prefixes = queue.pop(0)
                if time.time() >= deadline:
                    unexplored[i] = unexplored.get(i, 0) + len(prefixes)
                    continue
                sl = 1.0 if (len(running) + len(queue) < jobs) else 4.0
                f = ex.submit(explore, i, prefixes, sl, deadline, rng.randrange(1 << 30), witness_left[i])
                witness_left[i] = max(0, witness_left[i] - 1)
                running[f] = i
            if not running:
                continue
            done, _ = wait(list(running), return_when=FIRST_COMPLETED, timeout=5)
            if not done and time.time() > deadline + 90:  # a solver call that does not come back
                for i in running.values():
                    unexplored[i] = unexplored.get(i, 0) + 1
                break
            for f in done:
                i = running.pop(f)
                r = f.result()
                total.add(r["stats"])
                per_case[i].add(r["stats"])
                reached[i].update(r["reached"])
                funcs.update(r["funcs"])
                for k, v in r["notes"].items():
                    notes.setdefault(k, set()).update(v)
                samples.extend(r["samples"])
                unconfirmed.extend(dict(u, case=_cases[i].name) for u in r["unconfirmed"])
                for s in r["incomplete"]:
                    incomplete[s] = incomplete.get(s, 0) + 1
                diverged.extend((_cases[i].name, d) for d in r["obs_diverged"])
                for v in r["violations"]:
                    v["case"] = _cases[i].name
                    v["tier"] = tier
                    hit = next((k for k in kf if _matches(k, v)), None)
                    if hit is not None:
                        known_hit.append((hit, v))
                    else:
                        violations.append(v)
                if verbose:
                    print(f"[{time.time()-t0:6.1f}] {_cases[i].name}: +{r['stats'].paths} paths, pending {len(r['pending'])}", flush=True)
                p = r["pending"]
                if p and _cases[i].max_paths and per_case[i].paths > _cases[i].max_paths:
                    unexplored[i] = unexplored.get(i, 0) + len(p)
                    p = []
                if p:
                    n = max(1, min(len(p), 2 * jobs))
                    k = (len(p) + n - 1) // n
                    queue[:0] = [(i, p[j:j + k]) for j in range(0, len(p), k)]
            if violations:
                break
    except BaseException as x:  # noqa: BLE001  (a broken pool: memory limit, ...)
        died = repr(x)
        traceback.print_exc(file=sys.stderr)
    finally:
        for p in list((getattr(ex, "_processes", None) or {}).values()):
            try:
                p.kill()
            except Exception:  # noqa: BLE001
                pass
        ex.shutdown(wait=False, cancel_futures=True)

    # a violation is reported only when a fresh interpreter on the real code shows it again
    confirmed = []
    for v in violations:
        path = write_replay(pid, v)
        ok = confirm(path)
        if ok:
            confirmed.append((v, path))
            break
        unconfirmed.append(dict(label=v["label"], detail="not reproduced in a fresh process", values=[v["values"]], case=v["case"]))
    vac = []
    if not violations and not died:
        for i, c in enumerate(_cases):
            missing = [x for x in c.expect if x not in reached[i]]
            if missing and not unexplored.get(i):
                vac.append((c.name, missing))
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2),
        violations=len(confirmed),
        coverage=dict(
            states=total.paths, transitions=total.branches,
            traces_validated_against_impl=total.validated,
            samples=samples[:6] or [dict(note="no path completed")],
            exhaustive=not (unexplored or incomplete or died or total.undecided),
            cases=[
                dict(name=c.name, params={k: str(v)[:80] for k, v in c.params.items()}, paths=per_case[i].paths,
                     completed=per_case[i].completed, checks_discharged=per_case[i].checks_discharged,
                     reached=sorted(reached[i]), unexplored_branches=unexplored.get(i, 0))
                for i, c in enumerate(_cases)
            ],
            paths_completed=total.completed, paths_infeasible=total.infeasible, paths_unsupported=total.unsupported,
            paths_too_deep=total.too_deep,
            assertions_discharged_by_solver=total.checks_discharged, assertions_trivially_true=total.checks_trivial,
            assertions_undecided=total.undecided, solver_queries=total.queries, solver_seconds=round(total.solver_s, 2),
            solver_unknown_branches=total.unknown, witnesses_diverging=total.diverged,
            functions_encoded=sorted(funcs), bounds=getattr(mod, "BOUNDS", ""), outside_bounds=getattr(mod, "OUTSIDE", ""),
            incomplete=dict(list(incomplete.items())[:20]), unconfirmed=unconfirmed[:5], diverged=[d for d in diverged][:5],
            notes={k: sorted(v)[:20] for k, v in notes.items()}, not_reached=vac,
            encoding="regenerated from the working tree of /repo on this run",
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} {tier}: {total.paths} paths, {total.branches} branches, {total.checks_discharged}+{total.checks_trivial} "
        f"assertions discharged, {total.queries} queries, solver {total.solver_s:.1f} s, validated {total.validated}, "
        f"diverged {total.diverged}, wall {wall:.1f} s", flush=True,
    )
    for n, m in vac:
        print(f"note: case {n} did not reach {m}")
    for k, v in list(incomplete.items())[:8]:
        print(f"note: incomplete x{v}: {k}"[:400])
    for n, d in diverged[:3]:
        print(f"note: diverged {n}: {d}"[:1200])
    for u in unconfirmed[:3]:
        print("note: unconfirmed", json.dumps(u, default=str)[:1200])
    if unexplored:
        print("note: unexplored", {(_cases[i].name): n for i, n in unexplored.items()})
    if total.undecided:
        print("note: undecided assertions", total.undecided, notes.get("undecided"))
    seen = set()
    for k, v in known_hit:
        if k["id"] not in seen:
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if confirmed:
        v, path = confirmed[0]
        print(f"counterexample: case {v['case']}: {v['label']} ({v['detail']}) inputs {json.dumps(v['values'])}"[:3000])
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if died:
        print("error: the exploration ended abnormally: " + died)
        return 2
    if total.completed == 0 and not known_hit:
        print("error: no path completed")
        return 2
    return 0


def _matches(k, v):
    return k.get("case", v["case"]) == v["case"] and k.get("label", v["label"]) == v["label"] and all(
        v["values"].get(n) == x for n, x in k.get("values", {}).items()
    )


def write_replay(pid, v):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, **v), f, indent=1, default=str)
    return path


def confirm(path):
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(ROOT, "vf", "main.py"), "replay", path], capture_output=True, text=True, timeout=120,
        )
    except subprocess.TimeoutExpired:
        return True
    return p.returncode == 1


def replay(path):
    d = json.load(open(path))
    mod = load_module(d["property"])
    case = None
    for tier in (d.get("tier", "quick"),):
        case = next((c for c in all_cases(mod, tier) if c.name == d["case"]), None)
        if case:
            break
    if case is None:
        print("no such case")
        return 2
    r = run_concrete(case, d["values"], case.replay_s)
    print(r[0], r[1], r[2])
    return 1 if r[0] == "violation" else 0
