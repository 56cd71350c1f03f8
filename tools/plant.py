#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: confirm planted bugs and keep them under /verif/seeded/<id>/.
SPEC defines BUGS = [dict(id, property, file, old, new, needs, breaks, demo=python source (exit code / assert), modes=("numba","numpy"))].
Each is applied to /repo, built, tested, demonstrated, checked and undone."""
import json
import os
import subprocess
import sys
import runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = '''#!/bin/sh
# exit 0 on the unchanged tree, nonzero with the change
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
rc=0
for use in {uses}; do
    XDG_CACHE_HOME="$scratch/$use" NPP_USE_NUMBA=$use PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python "$here/demo.py" || rc=1
done
exit $rc
'''
HEAD = '''"""demonstration; exits nonzero when the behaviour is broken"""
import importlib.resources as _r
_read = _r.read_text
# resources/encount/la/spawner_names.json is not part of the repository
_r.read_text = lambda *a, **k: "{}" if "spawner_names.json" in a else _read(*a, **k)
import numpy as np
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("git", "-C", REPO, "checkout", "--", ".")


def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        clean()
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        try:
            for fn, old, new in edits:
                p = os.path.join(REPO, fn)
                s = open(p).read()
                assert s.count(old) == b.get("count", 1), (b["id"], fn, s.count(old))
                open(p, "w").write(s.replace(old, new))
            diff = sh("git", "-C", REPO, "diff").stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].lstrip("\n"))
            uses = " ".join({"numba": "TRUE", "numpy": "FALSE"}[m] for m in b.get("modes", ("numba", "numpy")))
            open(os.path.join(d, "demo.sh"), "w").write(SH.replace("{uses}", uses))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            build = sh("bash", "/opt/vp/build.sh")
            test = sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
            t = json.load(open("/tmp/plant.json"))
            dem = sh("sh", os.path.join(d, "demo.sh"), cwd=REPO)
            chk = sh("/opt/venv/bin/python", "check.py", b["property"], cwd=VERIF)
        finally:
            clean()
        dem0 = sh("sh", os.path.join(d, "demo.sh"), cwd=REPO)
        ok = build.returncode == 0 and not t.get("failed") and dem.returncode != 0 and dem0.returncode == 0
        print(b["id"], b["property"], "VALID" if ok else f"INVALID build={build.returncode} failed={t.get('failed')} demo={dem.returncode} clean={dem0.returncode}",
              "| caught" if chk.returncode == 1 else f"| MISSED rc={chk.returncode}", [x for x in chk.stdout.splitlines() if "VIOLATION" in x or "failed obl" in x][-3:], flush=True)
        if not ok:
            print(dem.stdout[-500:], dem.stderr[-800:], dem0.stderr[-800:], build.stdout[-500:])


main()
