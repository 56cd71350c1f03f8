"""Run one property: generate and discharge every obligation of its contracts from /repo's current source, cross-check
the executable reference on the real code in both modes, replay counterexamples, write the evidence."""
import os
import re
import sys
import json
import time
import shutil
import argparse
import importlib
import subprocess
import tempfile
import traceback
from . import boot

OUT = os.path.join(boot.VERIF, "evidence")
KNOWN = os.path.join(boot.VERIF, "known-findings.txt")
DEADLINE = {"quick": 690, "thorough": 3300}
CASES = {"quick": 25, "thorough": 400}


class Concrete:
    """a run of cases in one mode, in a subprocess"""

    def __init__(self, mode, job):
        self.mode, self.job = mode, job
        env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "XDG_CACHE_HOME": job["cache"], "PYTHONPATH": boot.VERIF}
        env.pop("NUMBA_OPT", None)
        self.f = tempfile.TemporaryFile("w+")
        self.f.write(json.dumps(job))
        self.f.seek(0)
        self.o = tempfile.TemporaryFile("w+")
        self.p = subprocess.Popen([boot.PY, "-m", "npv.concrete", mode], stdin=self.f, stdout=self.o, stderr=subprocess.STDOUT,
                                  cwd=boot.VERIF, env=env, text=True, start_new_session=True)

    def result(self, timeout):
        try:
            self.p.wait(max(1, timeout))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, 9)
            self.p.wait()
        self.o.seek(0)
        txt = self.o.read()
        for line in txt.splitlines():
            if line.startswith("@@RESULT@@"):
                return json.loads(line[10:])
        return {"replayed": [], "fails": [], "evaluations": 0, "distinct": 0, "error": txt[-1500:]}


def known(prop):
    """[(regex over the failure's text, description)] of the findings recorded and not repaired"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def case_of(r):
    """concrete case suggested by a solver model"""
    h, m = r.get("hint"), r.get("model")
    if not h:
        return None
    c = dict(h)
    for k, v in (m or {}).items():
        if not isinstance(v, str):
            c[k] = v
    return c


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        boot.setup()
        import z3
        x = z3.BitVec("x", 8)
        s = z3.Solver()
        s.add(x & 1 == 2)
        ok = s.check() == z3.unsat
        os.makedirs(OUT, exist_ok=True)
        print("selftest", "ok" if ok else "FAILED", z3.get_version_string())
        return 0 if ok else 2
    os.environ["VERIF_TIER"] = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    boot.setup()
    cache = os.environ["XDG_CACHE_HOME"]
    from . import core
    from .props import PROPS
    P = PROPS[a.prop]
    deadline = t0 + DEADLINE[a.tier]
    modes = ("numpy", "numba")
    job = {"types": P.get("cases", []), "n": P.get("n", CASES[a.tier]) if a.tier == "quick" else CASES[a.tier], "seed": seed,
           "only": P.get("only"), "seconds": 120 if a.tier == "quick" else 600, "modules": P.get("modules", []), "stop": 2}
    runs = {}
    if P.get("cases"):
        for m in modes:
            d = os.path.join(cache, m)
            os.makedirs(d, exist_ok=True)
            runs[m] = Concrete(m, {**job, "cache": d})
    jobs = []
    err = []
    for mod, sel, *names in P["units"]:
        try:
            u = importlib.import_module(f"npv.units.{mod}")
            found = [j for j in u.units(sel) if not names or any(n in j[0] for n in names)]
            if not found:
                raise LookupError(f"no unit {mod} {sel} {names}")
            jobs += found
        except Exception as ex:  # noqa
            err.append("".join(traceback.format_exception(ex))[-1500:])
    units = core.run_pool(jobs, deadline=deadline)
    conc = {m: r.result(deadline + 60 - time.time()) for m, r in runs.items()}
    results = [x for u in units for x in u["results"]]
    for e in err:
        results.append({"name": f"{a.prop}: obligations", "status": "unknown", "backend": "vcgen", "time": 0, "model": None, "kind": "goal", "note": e, "hint": None})
    bad = [r for r in results if r["status"] != "proved"]
    fails = []       # concrete failing inputs
    for m, r in conc.items():
        for f in r["fails"]:
            fails.append({"mode": m, **f})
        if r.get("error") and not r["fails"]:
            fails_note = {"name": f"{a.prop}: {m} cross-check did not run", "status": "unknown", "backend": "concrete", "time": 0, "model": None,
                          "kind": "goal", "note": r["error"], "hint": None}
            bad.append(fails_note)
            results.append(fails_note)
    if bad and not fails:
        rep = []
        for r in bad[:60]:
            c = case_of(r)
            if c and c not in rep:
                rep.append(c)
        types = sorted({c["t"] for c in rep}) or P.get("cases", [])
        more = []
        for m in modes:
            d = os.path.join(cache, m)
            os.makedirs(d, exist_ok=True)
            more.append((m, Concrete(m, {"replay": rep[:40], "types": types, "n": 300, "seed": seed + 1, "only": P.get("only"), "seconds": 80,
                                         "modules": P.get("modules", []), "cache": d, "stop": 1})))
        for m, r in more:
            q = r.result(150)
            for x in q["replayed"]:
                if not x["ok"]:
                    fails.append({"mode": m, **x})
            for x in q["fails"]:
                fails.append({"mode": m, **x})
    # report
    rc = 0
    kn = known(a.prop)
    hit = set()
    vio = []
    for f in fails:
        s = f["mode"] + " " + json.dumps(f["case"])
        k = [d for rx, d in kn if re.search(rx, s)]
        if k:
            hit.add(k[0])
            continue
        vio.append(f)
    for d in sorted(hit):
        print(f"KNOWN-FINDING: property={a.prop} {d}")
    wall = time.time() - t0
    os.makedirs(OUT, exist_ok=True)
    backends = {}
    for r in results:
        if r["status"] == "proved":
            backends[r["backend"]] = backends.get(r["backend"], 0) + 1
    goals = [r for r in results]
    functions = {}
    trusted = set(P.get("trusted", []))
    for u in units:
        functions.update(u["functions"])
        trusted.update(u["trusted"])
    from .trusted import BASE
    bounded = [u["unit"] for u in units if u.get("bounded")]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "proof", "wall_s": round(wall, 2),
        "violations": len(vio) if vio else (1 if bad and not hit else 0),
        "assumptions": BASE + sorted(trusted),
        "coverage": {
            "obligations": len(goals), "discharged": sum(1 for r in goals if r["status"] == "proved"),
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py {a.prop} --tier {a.tier}",
            "trusted_base": BASE + sorted(trusted),
            "backends": backends, "solver_s": round(sum(r["time"] for r in results), 2),
            "units": [{"unit": u["unit"], "obligations": len(u["results"]), "discharged": sum(1 for r in u["results"] if r["status"] == "proved"),
                       "seconds": round(u["time"], 2)} for u in units],
            "functions_under_contract": dict(sorted((k, v.replace(boot.REPO + "/", "")) for k, v in functions.items())),
            "evaluations": sum(r["evaluations"] for r in conc.values()),
            "distinct_nontrivial": sum(r["distinct"] for r in conc.values()),
            "rule": "bounded cross-check of the real code against the executable reference, both execution modes; inputs drawn with a bias to the corners of their width; distinct by case (never counted as proved)",
            "bounded_modes": {m: r["evaluations"] for m, r in conc.items()},
            "undischarged": [{"name": r["name"], "status": r["status"], "note": r.get("note")} for r in bad[:20]],
        },
    }
    with open(os.path.join(OUT, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    if vio:
        path = os.path.join(rdir, f"{a.prop}.json")
        json.dump({"property": a.prop, "mode": vio[0]["mode"], "case": vio[0]["case"], "expected": vio[0]["expected"], "got": vio[0]["got"],
                   "replay_with": f"/opt/venv/bin/python -m npv.replay {path}   (in {boot.VERIF})", "modules": P.get("modules", []),
                   "failed_obligations": [{"name": r["name"], "status": r["status"], "backend": r["backend"], "model": r.get("model"), "note": r.get("note")} for r in bad[:20]],
                   "other_failures": vio[1:5]}, open(path, "w"), indent=1, default=str)
        for r in bad[:5]:
            print("failed obligation:", r["name"], f"[{r['status']}]", (r.get("note") or "")[:200])
        print(f"VIOLATION property={a.prop} replay={path}")
        rc = 1
    elif bad and not (hit and not vio):
        path = os.path.join(rdir, f"{a.prop}.json")
        json.dump({"property": a.prop, "failed_obligations": [{k: r.get(k) for k in ("name", "status", "backend", "model", "note", "hint", "time")} for r in bad[:40]],
                   "note": "the verifier did not accept these obligations; no failing input was found"}, open(path, "w"), indent=1, default=str)
        for r in bad[:8]:
            print("failed obligation:", r["name"], f"[{r['status']}]", (r.get("note") or "")[:300])
        print(f"VIOLATION property={a.prop} replay={path} no-failing-input-found")
        rc = 1
    else:
        print(f"{a.prop}: {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations discharged, "
              f"{ev['coverage']['evaluations']} cross-check cases, {wall:.1f}s")
    shutil.rmtree(cache, True)
    return rc
