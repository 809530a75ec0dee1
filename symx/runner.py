"""
symx.runner - runs one property check: explores all its cases in parallel, replays counterexamples
concretely, validates sampled traces, writes the evidence file, prints the verdict.
"""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

_worlds = {}


def get_world(platform="unix", backend="ctypes"):
    from .world import World

    k = (platform, backend)
    if k not in _worlds:
        _worlds[k] = World(platform, backend)
    return _worlds[k]


def make_run(mod, case):
    w = get_world(case.get("platform", "unix"), case.get("backend", "ctypes"))
    params = dict(case.get("params", {}))
    harness = getattr(mod, case.get("harness", "harness"))

    def run(eng):
        from .engine import EngineError, PropertyViolated, Stop

        w.begin(eng)
        try:
            harness(eng, w, **params)
        except Stop:
            raise
        except Exception as e:
            # an exception the harness did not expect: a violation if the concrete replay confirms it
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]
            msg = "unexpected %s: %s" % (type(e).__name__, e)
            if eng.aborting is not None:
                raise eng.aborting
            del tb
            e.__traceback__ = None
            eng.fail("unexpected exception " + type(e).__name__, {"error": msg, "where": where})
        finally:
            w.end()

    return run, w


def replay_concrete(mod, case, model):
    """run the harness on concrete values, on the real code; returns (violation or None, world)"""
    from .engine import Engine

    run, w = make_run(mod, case)
    eng = Engine(concrete=model)
    v = eng.run_concrete(run)
    return v, eng, w


def explore_case(args):
    modname, case, tier, deadline, seed = args
    t0 = time.monotonic()
    from .engine import Engine, EngineError

    mod = importlib.import_module(modname)
    out = dict(case=case["name"], violation=None, error=None, samples=[], validated=0, traces=0)
    eng = None

    def late(_signum, _frame):
        raise EngineError("time budget exhausted inside of a path")

    signal.signal(signal.SIGALRM, late)
    try:
        signal.setitimer(signal.ITIMER_REAL, max(1, deadline - t0 + 10), 5)
        run, w = make_run(mod, case)
        eng = Engine(max_concretize=case.get("max_concretize", 64))
        eng.range_limit = case.get("range_limit", 8)
        want = case.get("samples", 2)
        rnd = random.Random(seed)
        models = []
        count = [0]

        def on_path(e):
            # reservoir sample of feasible paths (their models are replayed afterwards)
            count[0] += 1
            if len(models) < want:
                m = e.path_model()
                if m is not None:
                    models.append(m)
            elif rnd.random() < want / float(count[0]):
                m = e.path_model()
                if m is not None:
                    models[rnd.randrange(want)] = m

        v = eng.explore(run, deadline=deadline, max_paths=case.get("max_paths", 400000), on_path=on_path)
        if v is not None:
            rv, ceng, w = replay_concrete(mod, case, v.model)
            if rv is None:
                out["error"] = "counterexample not reproduced on the concrete code: %s %r %r" % (
                    v.message, v.details, v.model)
            else:
                out["violation"] = dict(
                    message=rv.message, symbolic_message=v.message, model=v.model, details=_j(rv.details or v.details),
                    log=_log(w),
                )
        else:
            for m in models:
                rv, ceng, w = replay_concrete(mod, case, m)
                if rv is not None:
                    out["error"] = "sampled passing path violates concretely: %s %r (model/real mismatch)" % (rv.message, m)
                    break
                out["traces"] += 1
                if case.get("platform", "unix") == "unix" and case.get("conform", True):
                    from . import conform  # noqa

                    r = conform.validate(w.kernel)
                    if r is True:
                        out["validated"] += 1
                    elif isinstance(r, str):
                        out["error"] = "kernel model disagrees with the real kernel: %s (model %r)" % (r, m)
                        break
                if len(out["samples"]) < 1:
                    out["samples"].append(dict(case=case["name"], values=_j(m), calls=_log(w)[:12]))
    except EngineError as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
    except BaseException as e:
        out["error"] = "internal %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    signal.setitimer(signal.ITIMER_REAL, 0)
    out["most_steps"] = eng.most_steps if eng is not None else 0
    out["stats"] = eng.stats if eng is not None else None
    out["wall"] = time.monotonic() - t0
    return out


def _j(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): _j(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [_j(v) for v in x]
        return repr(x)


def _log(w):
    out = []
    for name, args, res in getattr(w.kernel, "log", [])[-60:]:
        out.append("%s%s -> %s" % (name, _short(args), _short(res[1:])))
    return out


def _short(args):
    r = []
    for a in args:
        s = repr(a)
        r.append(s if len(s) < 60 else s[:57] + "...")
    return "(" + ", ".join(r) + ")"


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                # KNOWN-FINDING: property=C00 key=<key> <text>
                rest = line.split(" ", 2)[2]
                key = None
                if rest.startswith("key="):
                    key, _, rest = rest[4:].partition(" ")
                out.append((key, rest, line))
    return out


def functions_encoded(mod):
    return list(getattr(mod, "ENCODED", []))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "0")) or (os.cpu_count() or 4))
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    pid = a.property
    modname = "checks.%s" % pid.lower()
    mod = importlib.import_module(modname)

    if a.replay:
        return do_replay(mod, a.replay)

    t0 = time.monotonic()
    budget = a.budget or (780.0 if tier == "quick" else 6 * 3600.0)
    deadline = t0 + budget
    known = known_findings(pid)
    known_keys = [k for k, _t, _l in known if k]
    os.environ["SYMX_KNOWN"] = ",".join(known_keys)
    cases = mod.cases(tier)
    if a.case:
        cases = [c for c in cases if a.case in c["name"]]
    names = [c["name"] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    # longest first when the module gives weights; otherwise the given order
    cases.sort(key=lambda c: -c.get("weight", 1))
    jobs = [(modname, c, tier, deadline, seed) for c in cases]
    results = []
    # import the code under test once, before forking
    try:
        for p, b in sorted(set((c.get("platform", "unix"), c.get("backend", "ctypes")) for c in cases)):
            get_world(p, b)
    except Exception:
        print("ERROR: cannot load the code under test over the models")
        traceback.print_exc()
        return 2
    if a.jobs == 1 or len(jobs) == 1:
        for j in jobs:
            results.append(explore_case(j))
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(a.jobs, len(jobs))) as pool:
            for r in pool.imap_unordered(explore_case, jobs, chunksize=1):
                results.append(r)
                if r["violation"] is not None and not a.v:
                    pool.terminate()
                    break
    from .engine import Stats

    st = Stats()
    for r in results:
        if r["stats"] is not None:
            st.merge(r["stats"])
    violations = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]
    wall = time.monotonic() - t0
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"])[:25]:
            s = r["stats"]
            print("  %-50s %.1fs paths=%s ended=%s q=%s" % (r["case"], r["wall"], s.paths, s.ended, s.queries))
        print("  most steps of a path", max([r["most_steps"] for r in results] + [0]))
        print("  reached", st.reached, "ended", st.end_reasons)

    missing = [t for t in getattr(mod, "REQUIRED", []) if not st.reached.get(t)]
    samples = []
    for r in sorted(results, key=lambda r: r["case"]):
        samples.extend(r["samples"])
    bounds = getattr(mod, "BOUNDS", {})
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(
        states=st.paths,
        transitions=st.transitions,
        traces_validated_against_impl=sum(r["traces"] for r in results),
        samples=samples[:4] or ["(no completed path)"],
        cases=len(results),
        symbolic_paths=st.paths,
        paths_cut_by_assumption_or_bound=st.end_reasons,
        symbolic_decisions=st.decisions,
        assertions_evaluated=st.assertions,
        assertion_queries_discharged=st.assert_queries,
        solver_queries=st.queries,
        solver_seconds=round(st.solver_s, 2),
        value_forks=st.concretizations,
        real_kernel_traces_validated=sum(r["validated"] for r in results),
        reached=st.reached,
        functions_encoded=functions_encoded(mod),
        bounds=bounds.get(tier, bounds) if isinstance(bounds, dict) else bounds,
        outside_bounds=getattr(mod, "OUTSIDE", ""),
        exhaustive=not errors and not violations,
    )
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(violations),
    )
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        cov["samples"] = [json.dumps(x)[:2000] for x in samples[:2]] or ["-"]
        s = json.dumps(ev, indent=1)
    if not a.case:
        evdir = os.environ.get("SYMX_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            f.write(s + "\n")

    print("%s: %d cases, %d paths, %d solver queries (%d assertion queries), %.1fs solver, %.1fs wall" % (
        pid, len(results), st.paths, st.queries, st.assert_queries, st.solver_s, wall))
    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        for i, r in enumerate(violations):
            path = os.path.join(REPLAYS, "%s-%d.json" % (pid, i))
            case = [c for c in cases if c["name"] == r["case"]][0]
            with open(path, "w") as f:
                json.dump(dict(property=pid, case=case, **r["violation"]), f, indent=1, default=repr)
            if i >= 3 and not a.v:
                continue
            print("counterexample in case %s: %s" % (r["case"], r["violation"]["message"]))
            print("  details: %s" % (r["violation"]["details"],))
            print("  values : %s" % (r["violation"]["model"],))
            for l in r["violation"]["log"][-12:]:
                print("    " + l)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for r in errors:
            print("ERROR in case %s: %s" % (r["case"], r["error"]))
        return 2
    if missing and not a.case:
        print("ERROR: vacuous exploration, never reached: %s" % ", ".join(missing))
        return 2
    for key, text, line in known:
        if st.reached.get("known:" + str(key)):
            print(line)
        else:
            print("note: known finding %s was not observed on this tree" % key)
    return 0


COMMON_ASSUMPTIONS = [
    "operating system, clock and thread library are the models in symx/ (validated on sampled traces against the real kernel)",
    "CPython executes the code under test as it does natively; z3 is trusted",
]


def do_replay(mod, path):
    d = json.load(open(path))
    v, eng, w = replay_concrete(mod, d["case"], d["model"])
    for l in _log(w):
        print("  " + l)
    if v is None:
        print("not reproduced")
        return 0
    print("reproduced: %s %r" % (v.message, v.details))
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
