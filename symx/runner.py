"""Runs the harnesses of a check: exploration, replay of counterexamples, evidence.

    python -m symx.runner C14            # decide a property (VERIF_TIER, VERIF_SEED)
    python -m symx.runner --replay FILE  # run recorded inputs against the real code
"""
import importlib
import json
import logging
import multiprocessing as mp
import os
import queue as _queue
import random
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_PY = os.path.join(REPO, "src", "python")
sys.path[:0] = [p for p in (VERIF, REPO_PY) if p not in sys.path]
sys.dont_write_bytecode = True

from symx import core  # noqa: E402

logging.disable(logging.CRITICAL)
sys.unraisablehook = lambda *a: None
warnings.simplefilter("ignore")

HANG_S = float(os.environ.get("VERIF_HANG", "30"))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class Harness:
    """One symbolic experiment: fn(ctx, bounds) plus its bounds per tier."""

    def __init__(self, name, fn, quick, thorough=None, covers=(), weight=1.0, hang_s=25, max_concretize=400):
        self.name = name
        self.fn = fn
        self.bounds = {"quick": quick, "thorough": thorough or quick}
        self.covers = set(covers)
        self.weight = weight
        self.hang_s = hang_s
        self.max_concretize = max_concretize


def _alarm(*a):
    raise core.Hang("no result (endless loop)")


# ------------------------------------------------------------------ one path
def run_path(h, bounds, prefix, stats, cfg, profile=None):
    """Execute one path. Returns (pending prefixes, failures, model inputs, labels)."""
    ctx = core.SymCtx(prefix, stats, cfg)
    core.set_ctx(ctx)
    failures = []
    inputs = None
    kind = "ok"
    try:
        try:
            if profile is not None:
                profile.start()
            try:
                signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, HANG_S)
                try:
                    h.fn(ctx, bounds)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            finally:
                if profile is not None:
                    profile.stop()
            ctx.flush()
        except core.PathEnd:
            kind = "end"
            ctx.flush()
        except core.Unsupported as e:
            kind = "unsupported"
            if os.environ.get("SYMX_DEBUG"):
                print("unsupported:", str(e)[:200], file=sys.stderr)
            stats.unsupported += 1
            ctx.flush()
            failures.append(("unsupported: %s" % e, ctx.model_inputs(), "unsupported"))
        except Exception as e:
            kind = "exception"
            ctx.flush()
            msg = "%s: %s" % (type(e).__name__, str(e)[:300])
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
            failures.append((msg, ctx.model_inputs(), "exception"))
        if kind == "ok" and ctx.nchecks:
            stats.asserted_paths += 1
        failures.extend((m, i, "assert") for m, i in ctx.failures)
        if kind == "ok":
            inputs = ctx.model_inputs()
        stats.paths += 1
    except core.PathEnd:
        stats.infeasible += 1
    except (core.Unsupported, core.z3.Z3Exception):
        stats.unsupported += 1
    finally:
        core.set_ctx(None)
        ctx.finish()
    return ctx.pending, failures, inputs, ctx.labels


class Profiler:
    """Collects the functions of the repository executed on a path."""

    def __init__(self):
        self.seen = set()

    def _hook(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(REPO_PY):
                self.seen.add((os.path.relpath(co.co_filename, REPO), getattr(co, "co_qualname", co.co_name)))

    def start(self):
        threading.setprofile(self._hook)
        sys.setprofile(self._hook)

    def stop(self):
        sys.setprofile(None)
        threading.setprofile(None)
        native = sys.modules.get("symx.native")
        if native is not None:
            self.seen |= {(native.SRC, n) for n in native.USED}


# ------------------------------------------------------------------ exploration
MAX_PATHS = int(os.environ.get("VERIF_MAX_PATHS", "400000"))


def _worker(wid, h, bounds, work, result, outstanding, stop, seed, cfg):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    rnd = random.Random(seed * 1000 + wid)
    stats = core.Stats()
    labels = set()
    samples = []
    local = []
    nfail = 0
    npath = 0
    prof = Profiler()
    try:
        while not stop.value:
            if not local:
                try:
                    local.append(work.get(timeout=0.05))
                except _queue.Empty:
                    if outstanding.value <= 0:
                        break
                    continue
            prefix = local.pop(rnd.randrange(len(local)) if len(local) < 2000 else -1)
            npath += 1
            p = prof if npath <= 5 else None
            pending, failures, inputs, lab = run_path(h, bounds, prefix, stats, cfg, p)
            with outstanding.get_lock():
                outstanding.value += len(pending) - 1
            labels |= lab
            for f in failures:
                nfail += 1
                if nfail <= 40:
                    result.put(("fail", f))
            if inputs is not None and (len(samples) < 12 or rnd.random() < 0.02):
                if len(samples) < 12:
                    samples.append(inputs)
                else:
                    samples[rnd.randrange(len(samples))] = inputs
            local.extend(pending)
            if len(local) > 1 and work.empty():
                for _ in range(min(len(local) // 2, 8)):
                    work.put(local.pop(0))
    except BaseException as e:  # internal error of the machinery
        result.put(("error", "".join(traceback.format_exception(e))[-3000:]))
    result.put(("done", stats.asdict(), sorted(labels), samples, nfail, sorted(prof.seen), len(local)))
    work.cancel_join_thread()


class Exploration:
    def __init__(self, h, bounds, seed, budget, on_failure):
        self.h, self.bounds, self.seed, self.budget = h, bounds, seed, budget
        self.on_failure = on_failure
        self.stats = core.Stats()
        self.labels = set()
        self.samples = []
        self.nfail = 0
        self.functions = set()
        self.errors = []
        self.complete = False
        self.left = 0
        self.wall = 0.0

    def run(self):
        t0 = time.time()
        cfg = core.Config(max_concretize=self.h.max_concretize)
        mpc = mp.get_context("fork")
        # small explorations are finished in this process
        prof = Profiler()
        frontier = [[]]
        rnd = random.Random(self.seed)
        n = 0
        stopped = False
        while frontier and n < 40 and time.time() - t0 < 3.0:
            prefix = frontier.pop(0)
            n += 1
            pending, failures, inputs, lab = run_path(self.h, self.bounds, prefix, self.stats, cfg, prof if n <= 10 else None)
            frontier.extend(pending)
            self.labels |= lab
            for f in failures:
                self.nfail += 1
                if self.on_failure(f):
                    stopped = True
                    break
            if stopped:
                break
            if inputs is not None and len(self.samples) < 12:
                self.samples.append(inputs)
        self.functions |= prof.seen
        if stopped:
            self.left = len(frontier)
        elif frontier:
            stopped = self._parallel(mpc, frontier, cfg, t0)
        self.complete = not stopped and self.left == 0
        self.wall = time.time() - t0
        return self

    def _parallel(self, mpc, frontier, cfg, t0):
        work = mpc.Queue()
        result = mpc.Queue()
        outstanding = mpc.Value("l", len(frontier))
        stop = mpc.Value("b", 0)
        for p in frontier:
            work.put(p)
        procs = [
            mpc.Process(target=_worker, args=(i, self.h, self.bounds, work, result, outstanding, stop, self.seed, cfg), daemon=True)
            for i in range(NPROC)
        ]
        for p in procs:
            p.start()
        done = 0
        stopped = False
        deadline = None
        last = time.time()
        while done < len(procs):
            try:
                m = result.get(timeout=0.2)
            except _queue.Empty:
                m = None
            if m is not None:
                last = time.time()
                if m[0] == "fail":
                    self.nfail += 1
                    if not stopped and self.on_failure(m[1]):
                        stopped = True
                        stop.value = 1
                elif m[0] == "error":
                    self.errors.append(m[1])
                    stop.value = 1
                    stopped = True
                elif m[0] == "done":
                    done += 1
                    self.stats.add(m[1])
                    self.labels |= set(m[2])
                    self.samples.extend(m[3])
                    self.functions |= {tuple(x) for x in m[5]}
            if time.time() - t0 > self.budget and not stop.value:
                stop.value = 1
            if stop.value:
                deadline = deadline or time.time() + 20
                if time.time() > deadline:
                    break
            elif not any(p.is_alive() for p in procs) and time.time() - last > 5:
                self.errors.append("workers died")
                break
        self.left = max(0, outstanding.value)
        for p in procs:
            if p.is_alive():
                p.terminate()
        for p in procs:
            p.join(2)
        work.cancel_join_thread()
        result.cancel_join_thread()
        return stopped


# ------------------------------------------------------------------ replay
def run_case(h, bounds, inputs):
    """Concrete run: ('pass'|'skip'|'fail', message)."""
    ctx = core.ConcreteCtx(inputs)
    try:
        h.fn(ctx, bounds)
        return ("pass", "") if ctx.checks else ("skip", "no assertion reached")
    except core.PathEnd as e:
        return "skip", str(e)
    except core.PropertyFailure as e:
        return "fail", str(e)
    except core.Unsupported as e:
        return "skip", "unsupported: %s" % e
    except Exception as e:
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
        return "fail", "%s: %s" % (type(e).__name__, str(e)[:500])
    finally:
        ctx.finish()


def replay_cases(prop, harness, tier, cases, hang_s):
    """Run cases in fresh interpreters against the real code; list of (verdict, message)."""
    out = []
    i = 0
    while i < len(cases):
        with tempfile.TemporaryDirectory(prefix="symx-replay-") as d:
            f = os.path.join(d, "cases.json")
            res = os.path.join(d, "out.jsonl")
            with open(f, "w") as fh:
                json.dump({"property": prop, "harness": harness, "tier": tier, "cases": [c for c in cases[i:]], "out": res}, fh)
            env = dict(os.environ)
            env["PYTHONPATH"] = VERIF + ":" + REPO_PY
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["PYTHONHASHSEED"] = "0"
            env["TMPDIR"] = d
            p = subprocess.Popen([sys.executable, "-m", "symx.runner", "--replay", f], cwd=VERIF, env=env, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL if not os.environ.get("SYMX_DEBUG") else None, start_new_session=True)
            seen = 0
            last = time.time()
            hung = False
            while p.poll() is None:
                time.sleep(0.02)
                n = sum(1 for _ in open(res)) if os.path.exists(res) else 0
                if n > seen:
                    seen, last = n, time.time()
                if time.time() - last > hang_s:
                    hung = True
                    break
            if hung or p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            lines = [json.loads(x) for x in open(res)] if os.path.exists(res) else []
            out.extend((x[0], x[1]) for x in lines)
            i += len(lines)
            if i < len(cases) and len(lines) < len(cases):
                out.append(("fail", "no result within %d s (hang)" % hang_s) if hung else ("skip", "replay process ended with code %s" % p.returncode))
                i += 1
    return out


def load_check(prop):
    return importlib.import_module("checks." + prop.lower())


def find_harness(mod, name):
    for h in mod.HARNESSES:
        if h.name == name:
            return h
    raise KeyError(name)


def replay_main(path):
    spec = json.load(open(path))
    mod = load_check(spec["property"])
    h = find_harness(mod, spec["harness"])
    bounds = dict(h.bounds[spec["tier"]])
    bad = 0
    for c in spec["cases"]:
        verdict, msg = run_case(h, bounds, c)
        bad += verdict == "fail"
        if spec.get("out"):
            with open(spec["out"], "a") as f:
                f.write(json.dumps([verdict, msg]) + "\n")
        else:
            print(verdict, msg)
    sys.stdout.flush()
    if "symx.native" in sys.modules:
        sys.modules["symx.native"].discard()
    os._exit(1 if bad else 0)


# ------------------------------------------------------------------ check
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


def matches(k, harness, inputs, msg):
    return k.get("harness") in (None, harness) and k["message"] in msg and all(inputs.get(n) == v for n, v in k.get("inputs", {}).items())


def _readable(functions):
    native = sys.modules.get("symx.native")
    if native is None:
        return functions
    own = {f for f in functions if f[0] == native.SRC}
    return (functions - own) | {(native.SRC, n) for n in native.demangle({n for _, n in own})}


def check_main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    mod = load_check(prop)
    release = mod.prepare() if hasattr(mod, "prepare") else None
    known = known_findings(prop)
    total_budget = float(os.environ.get("VERIF_BUDGET", 0)) or (getattr(mod, "QUICK_BUDGET", 200.0) if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 600.0))
    wsum = sum(h.weight for h in mod.HARNESSES)
    report = []
    violations = []
    known_hits = []
    total = core.Stats()
    functions = set()
    validated = 0
    inconclusive = 0
    unconfirmed = []
    samples = []
    errors = []
    carry = 0.0
    only = os.environ.get("VERIF_HARNESS")
    for h in mod.HARNESSES:
        if only and only != h.name:
            continue
        bounds = dict(h.bounds[tier])
        budget = total_budget * h.weight / wsum + carry
        start = time.time()
        deferred = []
        state = {"confirm": 0}

        def confirm(batch):
            """Replay candidates; True when a new violation is confirmed."""
            nonlocal inconclusive
            verdicts = replay_cases(prop, h.name, tier, [c[1] for c in batch], h.hang_s)
            for (msg, inputs, kind), (v, m) in zip(batch, verdicts):
                if v != "fail":
                    if kind == "unsupported":
                        inconclusive += 1
                    else:
                        unconfirmed.append({"harness": h.name, "symbolic": msg, "replay": [v, m], "inputs": inputs})
                    continue
                k = next((k for k in known if matches(k, h.name, inputs, m)), None)
                if k is not None:
                    known_hits.append((k, h.name, inputs, m))
                    continue
                violations.append((h.name, inputs, m))
                return True
            return False

        def on_failure(f):
            msg, inputs, kind = f
            if kind == "unsupported" or state["confirm"] >= 12:
                if len(deferred) < 400:
                    deferred.append(f)
                return False
            state["confirm"] += 1
            return confirm([f])

        ex = Exploration(h, bounds, seed, budget, on_failure).run()
        if deferred and not violations:
            confirm(deferred)
        # agreement of the encoding with the real code on witnesses of explored paths
        agreed = 0
        if not violations:
            rnd = random.Random(seed)
            pool = ex.samples if len(ex.samples) <= (8 if tier == "quick" else 24) else rnd.sample(ex.samples, 8 if tier == "quick" else 24)
            for inp, (v, m) in zip(pool, replay_cases(prop, h.name, tier, pool, h.hang_s)):
                if v == "pass":
                    agreed += 1
                elif v == "fail":
                    k = next((k for k in known if matches(k, h.name, inp, m)), None)
                    if k is None:
                        violations.append((h.name, inp, m + " (found while validating the encoding)"))
                        break
                    known_hits.append((k, h.name, inp, m))
            samples.extend({"harness": h.name, "witness": s} for s in pool[:2])
        validated += agreed
        carry = max(0.0, budget - (time.time() - start)) if h is not mod.HARNESSES[-1] else 0.0
        total.add(ex.stats)
        functions |= ex.functions
        errors.extend(ex.errors)
        report.append({
            "harness": h.name, "bounds": bounds, "exhausted_within_bounds": ex.complete, "paths_left": ex.left,
            "paths": ex.stats.paths, "paths_reaching_an_assertion": ex.stats.asserted_paths, "queries": ex.stats.queries,
            "solver_s": round(ex.stats.solver_s, 2), "unknown": ex.stats.unknown, "unsupported_paths": ex.stats.unsupported,
            "covered": sorted(ex.labels), "not_covered": sorted(h.covers - ex.labels), "witnesses_replayed": agreed,
            "wall_s": round(ex.wall, 2),
        })
        if violations:
            break
    if release is not None:
        release()
    functions = _readable(functions)
    wall = time.time() - t0
    complete = all(r["exhausted_within_bounds"] for r in report)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total.paths + total.branches,
            "transitions": total.decisions,
            "traces_validated_against_impl": validated,
            "samples": samples[:6],
            "exhaustive": bool(complete and not violations),
            "paths": total.paths, "assertions": total.checks, "queries_discharged": total.queries,
            "solver_s": round(total.solver_s, 2), "solver_unknown": total.unknown,
            "inconclusive_paths": inconclusive, "unconfirmed_counterexamples": len(unconfirmed),
            "unconfirmed_samples": unconfirmed[:3],
            "functions_encoded": ["%s:%s" % f for f in sorted(functions)],
            "harnesses": report, "errors": errors[:3],
            "bounds": getattr(mod, "BOUNDS", ""), "outside_bounds": getattr(mod, "OUTSIDE", ""),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in {json.dumps(k[0], sort_keys=True) for k in known_hits}:
        k = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for r in report:
        print("%s/%s: %d paths, %d queries, %.1fs solver, complete=%s, unsupported=%d, replayed=%d, %.1fs%s" % (
            prop, r["harness"], r["paths"], r["queries"], r["solver_s"], r["exhausted_within_bounds"], r["unsupported_paths"],
            r["witnesses_replayed"], r["wall_s"], (" NOT COVERED " + ",".join(r["not_covered"])) if r["not_covered"] else ""))
    for u in unconfirmed[:2]:
        print("unconfirmed:", json.dumps(u)[:600])
    for e in errors[:2]:
        print("machinery error:", e)
    if violations:
        name, inputs, msg = violations[0]
        path = os.path.join(ev_dir, "replay", "%s-%s.json" % (prop, name))
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": name, "tier": tier, "cases": [inputs], "message": msg}, f, indent=1)
        print("inputs: " + json.dumps(inputs)[:1500])
        print("observed on the real code: " + msg[:1500])
        print("replay: PYTHONPATH=%s:%s %s -m symx.runner --replay %s" % (VERIF, REPO_PY, sys.executable, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(2 if errors else 0)


if __name__ == "__main__":
    # run under the importable module name so that harness classes are shared
    import symx.runner as R

    if sys.argv[1] == "--replay":
        R.replay_main(sys.argv[2])
    try:
        R.check_main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(2)
