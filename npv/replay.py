"""python -m npv.replay FILE : run the recorded failing input on the real code again (exit 1 while it still fails)"""
import sys
import json
from . import boot


def main():
    d = json.load(open(sys.argv[1]))
    if "case" not in d:
        print(json.dumps(d["failed_obligations"], indent=1)[:4000])
        print("no failing input recorded; re-run the check to re-derive the obligation")
        return 2
    boot.setup(d["mode"], ir=False)
    boot.stub_missing_resources()
    import importlib
    for m in d.get("modules", []):
        importlib.import_module(m)
    from . import cases
    ok, e, g = cases.run(d["case"])
    print("mode", d["mode"], "case", str(d["case"])[:2000])
    print("expected", str(e)[:1500])
    print("got     ", str(g)[:1500])
    print("agrees" if ok else "FAILS")
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
