"""Explore harness cases, replay counterexamples, write evidence."""

import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
REALPY = next((p for p in ("/opt/venv/bin/python", sys.executable) if os.path.exists(p)), sys.executable)
HANG_S = 20


# ---------------------------------------------------------------- replay client


class Replayer:
    """Talks to a server process that forks one child per concrete run."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen(
            [REALPY, os.path.join(VERIF, "replay.py"), "--server"], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=VERIF, encoding="utf-8")

    def run(self, module, fn, params, inputs, timeout=HANG_S):
        if self.p is None or self.p.poll() is not None:
            self.start()
        req = json.dumps(dict(module=module, fn=fn, params=params, inputs=inputs, timeout=timeout))
        self.p.stdin.write(req + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return dict(status="server-died")
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


# ---------------------------------------------------------------- model -> inputs


def frac_of(v):
    import z3
    if z3.is_algebraic_value(v):
        v = v.approx(40)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def extract(ctx, model):
    out = {}
    for name, (kind, t) in ctx.inputs.items():
        if kind in ("bytes", "str"):
            out[name] = [model.eval(x, model_completion=True).as_long() for x in t]
            continue
        v = model.eval(t, model_completion=True)
        if kind == "bool":
            out[name] = str(v) == "True"
        elif kind == "int":
            out[name] = v.as_long()
        else:
            f = frac_of(v)
            out[name] = "%d/%d" % (f.numerator, f.denominator)
    return out


def nice_constraints(ctx, den):
    import z3
    cs = []
    for name, (kind, t) in ctx.inputs.items():
        if kind == "real":
            k = z3.Int("nice!" + name)
            cs.append(t * den == z3.ToReal(k))
            cs.append(z3.And(t <= 10 ** 6, t >= -10 ** 6))
    return cs


def models_for(ctx, prefer=(), limit=4, timeout=4000, samples=None):
    """Input assignments satisfying the current path condition, friendliest first."""
    import z3
    if getattr(ctx, "trig", None) is not None:
        return ctx.trig.models(limit, samples)
    has_real = any(k == "real" for k, _ in ctx.inputs.values())
    attempts = []
    if has_real:
        for p in list(prefer):
            attempts.append([p] + nice_constraints(ctx, 8))
            attempts.append([p])
        attempts.append(nice_constraints(ctx, 2))
        attempts.append(nice_constraints(ctx, 64))
    else:
        attempts.extend([[p] for p in prefer])
    attempts.append([])
    seen = []
    ctx.solver.set("timeout", timeout)
    try:
        for extra in attempts:
            if len(seen) >= limit:
                break
            ctx.solver.push()
            try:
                ctx.solver.add(*extra)
                t = time.perf_counter()
                r = ctx.solver.check()
                ctx.stats["solver_s"] += time.perf_counter() - t
                ctx.stats["queries"] += 1
                if r == z3.sat:
                    m = ctx.solver.model()
                    inp = extract(ctx, m)
                    if inp not in [s for s, _ in seen]:
                        seen.append((inp, m))
            finally:
                ctx.solver.pop()
    finally:
        ctx.solver.set("timeout", ctx.timeout_ms)
    return seen


# ---------------------------------------------------------------- observed values


def ev(x, model):
    """Evaluate an observed value under a model into JSON-able form."""
    import z3
    from . import core, seqs
    if isinstance(x, core.SYM_SCALAR if hasattr(core, "SYM_SCALAR") else (core.SymNum, core.SymBool)) and hasattr(model, "trig"):
        return model.trig.value(x, model)
    if isinstance(x, core.SymBool):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, core.SymNum):
        v = model.eval(x.e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return float(frac_of(v))
    if isinstance(x, seqs.SymSeq):
        return [ev(seqs.norm_el(e), model) for e in x.d]
    if isinstance(x, str):
        out = []
        for ch in x:
            if core.is_token_char(ch) and core.has_token(ch):
                v = ev(core.token_value(ch), model)
                out.extend(map(ord, str(v)))
            else:
                out.append(ord(ch))
        return out
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    return plain(x, lambda y: ev(y, model))


def plain(x, rec=None):
    rec = rec or plain
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, dict):
        return {str(k): rec(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [rec(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return "set%d" % len(x)
    if hasattr(x, "tolist"):
        return [rec(v) for v in x.tolist()]
    return type(x).__name__


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        try:
            return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        except OverflowError:
            return False
    return a == b


# ---------------------------------------------------------------- one job


def run_job(spec):
    """spec: dict(module, fn, prop, params, opts, deadline, seed, validate)."""
    try:
        return _run_job(spec)
    except Exception as e:
        return dict(spec=spec, error="".join(traceback.format_exception(e))[-4000:])


def _run_job(spec):
    import z3
    sys.setrecursionlimit(5000)
    from . import core, env as envm, shims
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    opts = spec["opts"]
    t0 = time.time()
    if os.environ.get("SYMX_TRACE"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["SYMX_TRACE"]), file=open("/tmp/symx_trace.%d" % os.getpid(), "w"))
    z3.set_param("smt.random_seed", spec["seed"])
    ctx = core.Ctx(timeout_ms=opts.get("timeout", 20000), max_ticks=opts.get("ticks", 4000),
                   nl=opts.get("nl", False), deadline=spec["deadline"])
    rp = Replayer()
    res = dict(spec={k: spec[k] for k in ("module", "fn", "params")}, paths=0, complete=True,
               partial={}, exceptions={}, traces=0, trace_mismatch=[], unresolved=[], samples=[],
               violation=None, infeasible=0, has_real=False)
    max_paths = opts.get("max_paths", 100000)
    validate = opts.get("validate", spec["validate"])
    unconfirmed = {}
    # workers run several jobs
    shims.TRIG = shims.SQRT_HOOK = shims.POW_HOOK = None
    if opts.get("trig"):
        from . import trig
        trig.install(ctx)
    rng = random.Random(spec["seed"])

    def try_replay(label, kind, models):
        for inp, m in models:
            r = rp.run(spec["module"], spec["fn"], spec["params"], inp)
            if r["status"] in ("check-failed", "exception", "hang"):
                res["violation"] = dict(
                    module=spec["module"], fn=spec["fn"], params=spec["params"], inputs=inp,
                    label=label, kind=kind, concrete=r, path_decisions=len(ctx.events))
                return True
        return False

    def bump(d, k):
        d[k] = d.get(k, 0) + 1

    try:
        while True:
            ctx._begin()
            env = envm.SymEnv(ctx)
            outcome = "ok"
            core.set_ctx(ctx)
            if opts.get("trig"):
                trig.begin()
            try:
                try:
                    fn = getattr(env.loader.load(spec["module"]), spec["fn"])
                    fn(env, **spec["params"])
                except core.PathAbort:
                    outcome = "infeasible"
                    res["infeasible"] += 1
                except core.CheckFailed as e:
                    outcome = "check"
                    bump(unconfirmed, e.label)
                    n = unconfirmed[e.label]
                    if n <= 6:
                        ms = models_for(ctx, e.prefer, samples=getattr(e, "samples", None))
                        if try_replay(e.label, "assertion", ms):
                            return finish(ctx, res, t0, rp)
                        res["unresolved"].append(dict(label=e.label, inputs=[i for i, _ in ms][:2]))
                    else:
                        res["unresolved"].append(dict(label=e.label))
                    if e.pushed:
                        ctx.solver.pop()
                        ctx.model = None
                except core.Unsupported as e:
                    outcome = "partial"
                    why = str(e)
                    bump(res["partial"], why)
                    ctx.stats["unsupported"] += 1
                    if res["partial"][why] <= 12:
                        if try_replay("(partial) " + why, "witness", models_for(ctx, limit=2)):
                            return finish(ctx, res, t0, rp)
                except core.BoundExceeded as e:
                    outcome = "bound"
                    why = "step bound " + str(e)
                    bump(res["partial"], why)
                    ctx.stats["bound_exceeded"] += 1
                    if res["partial"][why] <= 4:
                        if try_replay("termination within the step bound", "hang", models_for(ctx, limit=2)):
                            return finish(ctx, res, t0, rp)
                except core.OutOfTime:
                    res["complete"] = False
                    break
                except (core.EngineError, z3.Z3Exception):
                    raise
                except Exception as e:
                    outcome = "exception"
                    why = "%s: %s" % (type(e).__name__, str(e)[:200])
                    tb = traceback.extract_tb(e.__traceback__)
                    if tb and "/symx/" in tb[-1].filename and tb[-1].name not in ("<lambda>",):
                        why += " @%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
                    bump(res["exceptions"], why)
                    if res["exceptions"][why] <= 6:
                        if try_replay("no exception (%s)" % why, "exception", models_for(ctx, limit=3)):
                            return finish(ctx, res, t0, rp)
                        bump(res["partial"], "unconfirmed exception " + why)
                    else:
                        bump(res["partial"], "unconfirmed exception " + why)
                if outcome == "ok":
                    res["paths"] += 1
                    ctx.stats["paths"] += 1
                    res["has_real"] = res["has_real"] or env.has_real
                    k = res["paths"]
                    if res["traces"] < validate and (k <= validate // 2 or rng.random() < 0.1):
                        ms = models_for(ctx, limit=4 if opts.get("trig") else 1, timeout=2000)
                        for inp, m in ms:
                            obs = [(n, ev(v, m)) for n, v in ctx.observed]
                            r = rp.run(spec["module"], spec["fn"], spec["params"], inp)
                            good = r["status"] == "ok" and len(r["observed"]) == len(obs) and \
                                all(n1 == n2 and same(v1, v2) for (n1, v1), (n2, v2) in zip(obs, r["observed"]))
                            if good:
                                res["traces"] += 1
                                if len(res["samples"]) < 2:
                                    res["samples"].append(dict(case=spec["fn"], params=spec["params"], inputs=inp))
                            else:
                                bad = [(n1, v1, v2) for (n1, v1), (n2, v2) in zip(obs, r.get("observed", [])) if not same(v1, v2)]
                                res["trace_mismatch"].append(dict(inputs=inp, status=r["status"], detail=r.get("detail", ""), differ=str(bad[:2])[:600], label=r.get("label")))
                                if r["status"] in ("check-failed", "exception", "hang") and not env.has_real:
                                    res["violation"] = dict(
                                        module=spec["module"], fn=spec["fn"], params=spec["params"], inputs=inp,
                                        label=r.get("label") or r["status"], kind="path witness", concrete=r, path_decisions=len(ctx.events))
                                    return finish(ctx, res, t0, rp)
            finally:
                core.set_ctx(None)
            if ctx.deadline is not None and time.time() > ctx.deadline:
                res["complete"] = False
                break
            if res["paths"] + res["infeasible"] >= max_paths:
                res["complete"] = False
                break
            core.set_ctx(ctx)
            try:
                if not ctx.backtrack():
                    break
            finally:
                core.set_ctx(None)
    finally:
        rp.close()
    return finish(ctx, res, t0, rp)


def finish(ctx, res, t0, rp):
    rp.close()
    res["stats"] = dict(ctx.stats)
    res["functions"] = dict(ctx.functions)
    res["reached"] = dict(ctx.reached)
    res["unknown_labels"] = sorted(set(getattr(ctx, "unknown_labels", [])))
    res["wall"] = time.time() - t0
    return res


# ---------------------------------------------------------------- a check


def harness_modules(prop):
    out = []
    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            src = open(os.path.join(d, f)).read()
            if '"%s"' % prop in src:
                out.append("harness." + f[:-3])
    return out


def jobs_for(prop, tier):
    sys.path.insert(0, VERIF)
    from . import cases
    for m in harness_modules(prop):
        importlib.import_module(m)
    jobs = []
    for (mod, fn, p), c in sorted(cases.CASES.items()):
        if p != prop:
            continue
        for params in (c.quick if tier == "quick" else c.thorough):
            jobs.append(dict(module="harness." + mod, fn=fn, prop=prop, params=params, opts=c.opts))
    return jobs


def die_with_parent():
    """A worker ends when the check that started it does."""
    import ctypes
    import signal
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:
        pass


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(line)
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    budget = a.budget or (600 if tier == "quick" else 3600 * 3)
    jobs = jobs_for(a.prop, tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j["fn"]]
    if not jobs:
        print("no cases for", a.prop)
        return 2
    for j in jobs:
        j["deadline"] = t0 + budget
        j["seed"] = seed
        j["validate"] = 12 if tier == "quick" else 60
    results = []
    violation = None
    errors = []
    mp = multiprocessing.get_context("spawn")
    ex = cf.ProcessPoolExecutor(max_workers=min(a.jobs, len(jobs)), mp_context=mp, initializer=die_with_parent)
    try:
        futs = {ex.submit(run_job, j): j for j in jobs}
        for f in cf.as_completed(futs, timeout=budget + 120):
            try:
                r = f.result()
            except Exception as e:
                errors.append("%s: %r" % (futs[f]["fn"], e))
                continue
            if "error" in r:
                errors.append(r["error"])
                continue
            results.append(r)
            if a.v:
                print("  %-40s %-30s paths %d inf %d traces %d/%d partial %s exc %s unres %d unk %d %s q %d %.1fs solver, %.1fs" % (
                    r["spec"]["fn"], json.dumps(r["spec"]["params"])[:60], r["paths"], r["infeasible"], r["traces"], r["traces"] + len(r["trace_mismatch"]),
                    r["partial"], r["exceptions"], len(r["unresolved"]), r["stats"]["unknown"], "" if r["complete"] else "INCOMPLETE",
                    r["stats"]["queries"], r["stats"]["solver_s"], r["wall"]), flush=True)
                for m in r["trace_mismatch"][:2]:
                    print("      mismatch", m)
                for u in r["unresolved"][:3]:
                    print("      unresolved", u)
                if r["unknown_labels"]:
                    print("      unknown", r["unknown_labels"])
            if r["violation"]:
                violation = r["violation"]
                break
    except cf.TimeoutError:
        stuck = len(futs) - len(results) - len(errors)
        print("note: %d cases did not stop at the time bound" % stuck, flush=True)
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:         # every result that counts has been read: leave no process behind
            try:
                p.kill()
            except Exception:
                pass
    write_evidence(a.prop, tier, seed, jobs, results, violation, errors, time.time() - t0)
    if violation:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        h = hashlib.sha1(json.dumps(violation, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "out", "%s-%s.json" % (a.prop, h))
        violation["property"] = a.prop
        json.dump(violation, open(path, "w"), indent=1)
        print("counterexample: %s %s label=%s inputs=%s concrete=%s" % (
            violation["fn"], violation["params"], violation["label"],
            json.dumps(violation["inputs"])[:800], json.dumps(violation["concrete"])[:800]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path), flush=True)
        return 1
    if errors:
        for e in errors:
            print("ERROR", e, flush=True)
        return 2
    if not sum(r["paths"] for r in results):
        print("ERROR %s: no path of the code under test could be explored: %s" % (
            a.prop, json.dumps([r["partial"] for r in results])[:600]), flush=True)
        return 2
    un = [u for r in results for u in r["unresolved"]]
    for u in un[:5]:
        print("UNRESOLVED (counterexample of the encoding that the real code does not show):", json.dumps(u)[:500])
    for k in known_findings():
        if "property=%s " % a.prop in k:
            print("KNOWN-FINDING: " + k[len("finding:"):].strip())
    tot = lambda k: sum(r["stats"][k] for r in results)
    print("%s held: %d cases, %d paths, %d queries, %d assertions proved (+%d trivial), %d unknown, %d partial, %.1f s solver, %.1f s" % (
        a.prop, len(results), sum(r["paths"] for r in results), tot("queries"), tot("checks_proved"), tot("trivially_true"),
        tot("unknown"), sum(sum(r["partial"].values()) for r in results), tot("solver_s"), time.time() - t0))
    incomplete = [r["spec"] for r in results if not r["complete"]]
    if incomplete:
        print("note: time bound reached in", json.dumps(incomplete)[:300])
    return 0


def write_evidence(prop, tier, seed, jobs, results, violation, errors, wall):
    tot = lambda k: sum(r["stats"][k] for r in results)
    merge = lambda key: {}
    funcs, reached, partial = {}, {}, {}
    for r in results:
        for k, v in r["functions"].items():
            funcs[k] = funcs.get(k, 0) + v
        for k, v in r["reached"].items():
            lab = "%s: %s" % (r["spec"]["fn"], k)
            reached[lab] = reached.get(lab, 0) + v
        for k, v in r["partial"].items():
            partial[k] = partial.get(k, 0) + v
    samples = [s for r in results for s in r["samples"]][:6]
    cov = dict(
        states=sum(r["paths"] for r in results),
        transitions=tot("decisions"),
        traces_validated_against_impl=sum(r["traces"] for r in results),
        samples=samples or [dict(case=j["fn"], params=j["params"]) for j in jobs[:3]],
        exhaustive=bool(results) and all(r["complete"] and not r["partial"] for r in results) and not errors and not violation and len(results) == len(jobs),
        functions_encoded=dict(sorted(funcs.items())),
        bounds=[dict(case=r["spec"]["fn"], params=r["spec"]["params"], paths=r["paths"], complete=r["complete"]) for r in results],
        queries=tot("queries"),
        solver_s=round(tot("solver_s"), 3),
        assertions=tot("checks"),
        assertions_proved_by_solver=tot("checks_proved"),
        assertions_true_by_evaluation=tot("trivially_true"),
        assertion_reach=dict(sorted(reached.items())),
        assertions_unknown=tot("unknown"),
        paths_outside_model=partial,
        infeasible_paths=sum(r["infeasible"] for r in results),
        unresolved_counterexamples=[u for r in results for u in r["unresolved"]][:10],
        trace_mismatches=[m for r in results for m in r["trace_mismatch"]][:10],
        cases=len(results), cases_planned=len(jobs),
        explanation="states = feasible execution paths of the real source explored symbolically; transitions = solver-decided branch points",
        errors=errors[:3],
    )
    e = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
             assumptions=[
                 "real arithmetic in place of IEEE doubles (float rounding is outside the model) wherever inputs are real-valued",
                 "library calls (struct, math, json, array, io) behave as their models in symx/shims.py; validated by concrete replays",
                 "bounds on sizes and shapes as listed under coverage.bounds and in DESIGN.md"],
             wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
