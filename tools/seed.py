"""seed.py NAME PROPERTY: reads edits from a python file (EDITS, DEMO, NEEDS, BREAKS), makes seeded/NAME and verifies it."""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(name, prop, edits, demo, needs, breaks, checks=None):
    tmp = f"/tmp/seed-{name}"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(REPO, tmp, symlinks=True)
    try:
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            assert s.count(old) == 1, (name, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = sh("git diff", cwd=tmp).stdout
        out = os.path.join(ROOT, "seeded", name)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        open(out + "/demo.py", "w").write(demo.lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# run in /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
        r0 = sh(f"bash {out}/demo.sh", cwd=REPO)
        r1 = sh(f"bash {out}/demo.sh", cwd=tmp)
        env = dict(os.environ, PYTHONPATH=tmp, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --disable-warnings tests 2>&1 | tail -15", cwd=tmp, env=env)
        base = json.load(open("/opt/vp/BASELINE.json"))
        print(f"{name}: demo clean rc={r0.returncode} patched rc={r1.returncode}; tests: {t.stdout.strip().splitlines()[-1]}")
        if r0.returncode:
            print("  CLEAN DEMO FAILS", (r0.stdout + r0.stderr)[-600:])
        if not r1.returncode:
            print("  PATCHED DEMO PASSES")
        else:
            print("  ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
        for l in t.stdout.splitlines():
            if l.startswith(("FAILED", "ERROR")):
                print("  ", l[:150])
        for c in checks or [prop]:
            r = sh(f"VERIF_REPO={tmp} {ROOT}/check {c} quick", cwd=ROOT)
            v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "counterexample", "note", "error"))]
            print(f"   check {c}: rc={r.returncode}", (v[0][:230] if v else ""))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if not only or s["name"] in only:
            make(**s)


if __name__ == "__main__":
    main()
