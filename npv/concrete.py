"""python -m npv.concrete MODE < job.json > result.json : run cases / campaigns in one execution mode"""
import sys
import json
import time
from . import boot


def jd(x):
    return json.loads(json.dumps(x, default=str))


def main():
    mode = sys.argv[1]
    job = json.load(sys.stdin)
    boot.setup(mode, ir=False)
    boot.stub_missing_resources()
    from . import cases
    import importlib
    for m in job.get("modules", []):
        importlib.import_module(m)
    out = {"replayed": [], "fails": [], "evaluations": 0, "distinct": 0}
    for c in job.get("replay", []):
        ok, e, g = cases.run(c)
        out["replayed"].append({"case": c, "ok": ok, "expected": jd(e), "got": jd(g)})
    if job.get("types"):
        n, d, fails = cases.campaign(job["types"], job["n"], job["seed"], deadline=time.time() + job.get("seconds", 60),
                                        stop=job.get("stop", 3), only=job.get("only"))
        out["evaluations"], out["distinct"] = n, d
        out["fails"] = [{"case": c, "expected": jd(e), "got": jd(g)} for c, e, g in fails]
    print("@@RESULT@@" + json.dumps(out))


if __name__ == "__main__":
    main()
