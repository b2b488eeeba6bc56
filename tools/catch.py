"""which check catches which planted bug: runs each one's check on a copy of /repo with the patch applied and writes tools/catches.json
(python3-vt tools/catch.py [names]); not part of any check"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "tools", "catches.json")


def go(name):
    d = f"{ROOT}/seeded/{name}"
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = f"/tmp/catch-{name}"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree("/repo", tmp, symlinks=True)
    try:
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            return name, prop, "does not apply"
        r = subprocess.run([ROOT + "/check", prop, "quick"], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=tmp, VERIF_OUT=tmp + "/out", VERIF_JOBS="2"))
        c = [l for l in r.stdout.splitlines() if l.startswith("counterexample: ")]
        if r.returncode == 1 and c:
            return name, prop, c[0][len("counterexample: "):].split(" inputs ")[0].removesuffix(" ()")
        return name, prop, f"not caught (exit {r.returncode})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


got = json.load(open(OUT)) if os.path.exists(OUT) else {}
names = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
with ThreadPoolExecutor(4) as ex:
    for name, prop, text in ex.map(go, names):
        print(name, prop, text, flush=True)
        got[name] = text
got = {k: v for k, v in sorted(got.items()) if os.path.isdir(f"{ROOT}/seeded/{k}")}
json.dump(got, open(OUT, "w"), indent=1)
