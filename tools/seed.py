"""Development tool: build seeded changes from specifications (not a check, and not used by any).

python3 tools/seed.py SPEC.py [ID ...]

SPEC.py defines SEEDS, a list of dict(id, property, file, edits=[(old, new), ...], demo, needs, breaks[, also=[(file, old, new)]]).
For each: patch in a scratch copy of /repo, run the stable tests, run the demonstration clean and patched, write seeded/<id>/, and
run the check of the property (and those in 'others') against the scratch copy.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
W = os.environ.get("SEED_DIR", "/tmp/seed")
OUT = os.environ.get("SEED_OUT", "/verif/seeded")
HEAD = '''#!/bin/bash
# cwd: /repo.  Exit 0 when the property holds, 1 when it is broken.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def tests(copy):
    rc, out = sh(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "--ignore=tests/unit/commons/test_rest_client.py", "tests"],
        cwd=copy,
        env=dict(PYTHONPATH=f"{copy}:/opt/vp-support", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1"),
    )
    return rc == 0, out[-600:]


def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    copy = f"{W}/repo"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh(["cp", "-a", "/repo", copy])
    for s in spec:
        if want and s["id"] not in want:
            continue
        sh("git checkout -q -- .", cwd=copy)
        d = f"{W}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        for f, old, new in [(s["file"], a, b) for a, b in s["edits"]] + list(s.get("also", [])):
            p = f"{copy}/diamondback/{f}.py"
            t = open(p).read()
            if t.count(old) != s.get("n", 1):
                print(s["id"], "EDIT", t.count(old), repr(old))
                break
            open(p, "w").write(t.replace(old, new))
        else:
            rc, diff = sh("git diff", cwd=copy)
            open(f"{d}/patch.diff", "w").write(diff)
            open(f"{d}/demo.py", "w").write(s["demo"].strip("\n") + "\n")
            open(f"{d}/demo.sh", "w").write(HEAD)
            os.chmod(f"{d}/demo.sh", 0o755)
            meta = dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"])
            open(f"{d}/meta.json", "w").write(json.dumps(meta, indent=1) + "\n")
            c, co = sh(["bash", f"{d}/demo.sh"], cwd="/repo")
            p, po = sh(["bash", f"{d}/demo.sh"], cwd=copy)
            ok, out = tests(copy)
            if c or not p or not ok:
                print(s["id"], f"REJECTED demo clean {c} patched {p} tests {ok}", co[-300:] if c else "", out if not ok else "", flush=True)
                continue
            shutil.rmtree(f"{OUT}/{s['id']}", ignore_errors=True)
            shutil.copytree(d, f"{OUT}/{s['id']}")
            res = []
            for q in [s["property"]] + list(s.get("others", [])):
                rc, out = sh([PY, "-B", "-m", "pbt.run", q, "--jobs", "4"], cwd=os.environ.get("SEED_VERIF", "/verif"), env=dict(VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
                line = [v for v in out.splitlines() if v.startswith("VIOLATION") or "Error" in v or "expected" in v][:1]
                res.append(f"{q}={'CAUGHT' if rc == 1 and 'VIOLATION property=' + q in out else 'MISSED' if rc == 0 else 'BROKEN ' + out[-300:]}")
            print(s["id"], *res, "|", po.strip().splitlines()[-1][:120] if po.strip() else "", flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
