"""Obligations, their discharge, and the parallel runner."""
import os
import ctypes
import sys
import time
import json
import signal
import pickle
import traceback
import subprocess
import tempfile
import z3
from .sym import Unsupported, PathEnd, narrow_divisions
from .nl import unsat_abstract
from .sweep import equal

TIMEOUT = {"quick": 60000, "thorough": 300000}
TIER = os.environ.get("VERIF_TIER", "quick")


class Obl:
    __slots__ = ("name", "hyps", "goal", "inputs", "hint", "kind")

    def __init__(self, name, hyps, goal, inputs=None, hint=None, kind="goal"):
        self.name, self.hyps, self.goal = name, list(hyps), goal
        self.inputs = inputs or {}
        self.hint = hint      # case description used to replay a counterexample on the real code
        self.kind = kind      # goal | cover


class Result(dict):
    pass


def _cvc5(smt2, timeout_ms):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt2)
        name = f.name
    try:
        out = subprocess.run(["/usr/local/bin/cvc5" if os.path.exists("/usr/local/bin/cvc5") else "cvc5", f"--tlimit={timeout_ms}", name],
                             capture_output=True, text=True, timeout=timeout_ms / 1000 + 20).stdout.split("\n")[0].strip()
    except Exception as ex:
        out = f"error {ex}"
    finally:
        os.unlink(name)
    return out


def dag_size(t, limit):
    seen, stack = set(), [t]
    while stack and len(seen) < limit:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack += x.children()
    return len(seen)


def discharge(o, timeout=None):
    """-> dict(name, status: proved|refuted|unknown, backend, time, model)"""
    timeout = timeout or TIMEOUT.get(TIER, 60000)
    t0 = time.time()
    r = {"name": o.name, "backend": "z3 (simplifier)", "status": None, "model": None, "kind": o.kind}
    if o.kind == "cover":
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*o.hyps)
        c = s.check()
        # a cover that the solver cannot decide is no evidence of vacuity
        r["status"] = "refuted" if c == z3.unsat else "proved"
        r["backend"] = "z3 (reachability)"
        r["note"] = str(c)
        r["time"] = time.time() - t0
        return r
    g = z3.simplify(o.goal) if z3.is_expr(o.goal) else z3.BoolVal(bool(o.goal))
    if z3.is_true(g):
        r["status"] = "proved"
        r["time"] = time.time() - t0
        return r
    key = (g.get_id(), tuple(h.get_id() for h in o.hyps))
    if key in _PROVED:          # the same obligation, already discharged in this unit
        r.update(status="proved", backend=_PROVED[key][1], time=time.time() - t0)
        return r
    keep = (g, o.hyps)
    r = _discharge(o, g, r, t0, timeout)
    if r["status"] == "proved":
        _PROVED[key] = (keep, r["backend"])
    return r


_PROVED = {}


def _discharge(o, g, r, t0, timeout):
    g = narrow_divisions(g)
    o.hyps = [narrow_divisions(h) for h in o.hyps]
    if z3.is_true(g):
        r["status"] = "proved"
        r["time"] = time.time() - t0
        return r
    q = z3.Solver()
    q.set("timeout", 1500)
    q.add(*o.hyps)
    q.add(z3.Not(g))
    c = q.check()
    if c != z3.unknown:
        r["backend"] = "z3"
        r["status"] = "proved" if c == z3.unsat else "refuted"
        if c == z3.sat:
            m = q.model()
            r["model"] = {k: _val(m, t) for k, t in o.inputs.items()}
        r["time"] = time.time() - t0
        return r
    big = z3.is_eq(g) and z3.is_bv(g.arg(0)) and dag_size(g, 120) >= 120
    if big and equal(g.arg(0), g.arg(1)):
        r["backend"] = "z3 (equivalence sweep)"
        r["status"] = "proved"
        r["time"] = time.time() - t0
        return r
    if unsat_abstract([*o.hyps, z3.Not(g)], timeout=3000, levels=(False, (False, True), (True, True), (False, False, True))):
        r["backend"] = "z3 (nonlinear terms abstracted)"
        r["status"] = "proved"
        r["time"] = time.time() - t0
        return r
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*o.hyps)
    s.add(z3.Not(g))
    c = s.check()
    r["backend"] = "z3"
    if c == z3.unsat:
        r["status"] = "proved"
    elif c == z3.sat:
        r["status"] = "refuted"
        m = s.model()
        r["model"] = {k: _val(m, t) for k, t in o.inputs.items()}
    elif unsat_abstract([*o.hyps, z3.Not(g)], levels=(True,)):
        r["backend"] = "z3 (nonlinear terms abstracted)"
        r["status"] = "proved"
    else:
        smt = s.to_smt2()
        for n in ("bvudiv", "bvurem", "bvsdiv", "bvsrem"):
            smt = smt.replace(f"({n}_i ", f"({n} ")
        out = _cvc5("(set-logic ALL)\n" + smt, timeout)
        r["backend"] = "cvc5"
        if out == "unsat":
            r["status"] = "proved"
        elif out == "sat":
            r["status"] = "refuted"
        else:
            r["status"] = "unknown"
            r["note"] = f"z3: {s.reason_unknown()}; cvc5: {out}"
    r["time"] = time.time() - t0
    return r


def _val(m, t):
    if isinstance(t, (list, tuple)):
        return [_val(m, x) for x in t]
    v = m.eval(t, model_completion=True)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    return str(v)


class Ctx:
    """collects and discharges the obligations of one unit"""

    def __init__(self, unit):
        self.unit = unit
        self.results = []
        self.functions = {}
        self.trusted = set()
        self.notes = []
        self.inputs = {}
        self.hint = None

    def prove(self, name, goal, hyps=(), inputs=None, hint=None, timeout=None):
        o = Obl(f"{self.unit}: {name}", hyps, goal, inputs if inputs is not None else self.inputs,
                hint if hint is not None else self.hint)
        r = discharge(o, timeout)
        if r["status"] != "proved":
            r["hint"] = o.hint
        self.results.append(r)
        return r["status"] == "proved"

    def cover(self, name, hyps):
        r = discharge(Obl(f"{self.unit}: reachable: {name}", hyps, None, kind="cover"))
        self.results.append(r)

    def concrete(self, name, ok, detail=""):
        """ground obligation decided by evaluation"""
        self.results.append({"name": f"{self.unit}: {name}", "status": "proved" if ok else "refuted",
                             "backend": "ground evaluation", "time": 0.0, "model": None, "kind": "goal",
                             "hint": self.hint, "note": str(detail)[:500]})
        return ok

    def engine_side(self, eng, name="", inputs=None):
        """obligations raised by the engine itself: callee preconditions, absence of exceptions"""
        for i, (n, c, hy) in enumerate(eng.requires):
            self.prove(f"{name} requires {n} #{i}", c, hyps=hy)
        for c, w, n in eng.raises:
            if z3.is_false(z3.simplify(c)):
                continue
            # only what was known when the operation was reached: later facts assume it succeeded
            self.prove(f"{name} no exception: {w}", z3.Not(c), hyps=eng.facts[:n])
        self.functions.update({k: v for k, v in eng.functions.items()})


def run_unit(uid, fn):
    """run one unit in this process -> picklable dict"""
    t0 = time.time()
    ctx = Ctx(uid)
    err = None
    try:
        fn(ctx)
    except Unsupported as ex:
        err = f"outside the verified subset: {ex}"
    except PathEnd:
        err = "every path raises an exception"
    except Exception as ex:  # noqa
        err = "verifier error: " + "".join(traceback.format_exception(ex))[-1500:]
    if err:
        ctx.results.append({"name": f"{uid}: verification condition generation", "status": "unknown",
                            "backend": "vcgen", "time": 0.0, "model": None, "kind": "goal", "note": err, "hint": ctx.hint})
    if not ctx.results:
        ctx.results.append({"name": f"{uid}: zero obligations", "status": "unknown", "backend": "vcgen", "time": 0.0,
                            "model": None, "kind": "goal", "note": "vacuous", "hint": None})
    return {"unit": uid, "results": ctx.results, "functions": ctx.functions, "trusted": sorted(ctx.trusted),
            "notes": ctx.notes, "time": time.time() - t0}


def run_pool(jobs, workers=8, deadline=None):
    """jobs: [(uid, mode, callable(ctx))] ; each job runs in a forked child; returns the unit dicts in order.
    The child imports the package in its mode, so the parent must not have imported it."""
    deadline = deadline or (time.time() + 780)
    pending = list(enumerate(jobs))
    running = {}
    out = [None] * len(jobs)
    while pending or running:
        while pending and len(running) < workers:
            i, (uid, mode, fn) = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    ctypes.CDLL(None).prctl(1, 9)       # end with the parent
                    from . import boot
                    boot.setup(mode)
                    res = run_unit(uid, fn)
                    data = pickle.dumps(res)
                except BaseException as ex:  # noqa
                    data = pickle.dumps({"unit": uid, "results": [{"name": f"{uid}: unit", "status": "unknown", "backend": "vcgen",
                                         "time": 0.0, "model": None, "kind": "goal", "note": repr(ex)[:800], "hint": None}],
                                         "functions": {}, "trusted": [], "notes": [], "time": 0})
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                sys.stdout.flush()
                os._exit(0)
            os.close(w)
            running[pid] = (i, r, b"", time.time())
            os.set_blocking(r, False)
        for pid in list(running):
            i, r, buf, t = running[pid]
            done = False
            while True:
                try:
                    b = os.read(r, 1 << 16)
                except BlockingIOError:
                    break
                if not b:
                    done = True
                    break
                buf += b
            running[pid] = (i, r, buf, t)
            if not done and time.time() > deadline:
                os.kill(pid, signal.SIGKILL)
                done = True
                buf = b""
            if done:
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    out[i] = pickle.loads(buf)
                except Exception:
                    uid = jobs[i][0]
                    out[i] = {"unit": uid, "results": [{"name": f"{uid}: unit", "status": "unknown", "backend": "vcgen", "time": 0.0,
                              "model": None, "kind": "goal", "note": "killed or died (deadline or memory)", "hint": None}],
                              "functions": {}, "trusted": [], "notes": [], "time": time.time() - t}
                del running[pid]
        time.sleep(0.01)
    return out
