"""Development tool: run the check of every seeded change against a scratch copy and write the table of DESIGN.md.

python3 tools/catch.py OUT.json [--jobs N] [ID ...]
"""

import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", VERIF + "/seeded")
PY = "/opt/venv/bin/python"


def one(name):
    copy = f"/tmp/catch/{name}"
    meta = json.load(open(f"{SEEDED}/{name}/meta.json"))
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(copy)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {copy}", shell=True, check=True)
    r = subprocess.run(["git", "apply", f"{SEEDED}/{name}/patch.diff"], cwd=copy, capture_output=True, text=True)
    if r.returncode:
        out = dict(result="patch " + r.stderr[-200:])
    else:
        env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        r = subprocess.run([PY, "-B", "-m", "pbt.run", meta["property"], "--jobs", "4"], cwd=VERIF, env=env, capture_output=True, text=True)
        text = r.stdout + r.stderr
        hit = [v.split("replays/")[1] for v in text.splitlines() if v.startswith("VIOLATION")]
        out = dict(result="caught" if r.returncode == 1 and hit else "missed" if r.returncode == 0 else "error " + text[-300:], facets=sorted(h.split("-", 1)[1].rsplit(".", 1)[0] for h in hit))
    shutil.rmtree(copy, ignore_errors=True)
    out.update(property=meta["property"], needs=meta["needs"], breaks=meta["what_it_breaks"])
    print(name, meta["property"], out["result"], out.get("facets"), flush=True)
    return name, out


def main():
    args = sys.argv[2:]
    jobs = int(args.pop(args.index("--jobs") + 1)) if "--jobs" in args else 2
    names = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(jobs) as pool:
        res = dict(pool.map(one, names))
    json.dump(res, open(sys.argv[1], "w"), indent=1)


main()
