"""Bounded-exhaustive exploration engine.

A property module enumerates a finite set of cases (JSON descriptors, simplest first) and executes
each one against the real code in /repo.  The engine runs all of them (in forked workers), treats any
divergence, exception, hang or crash of an explored case as a violation, writes a replayable artefact
for the simplest one, and writes the evidence file from what was actually executed.

Exit status: 0, or 1 after a line "VIOLATION property=<id> replay=<path>".
"""

import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")

CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "150"))
MAX_VIOLATIONS = 12


class Violation(Exception):
    """The explored execution contradicts the property. `key` names the exact failing history."""

    def __init__(self, msg, key=None, data=None):
        super().__init__(msg)
        self.key, self.data = key, data


class CaseTimeout(Exception):
    pass


def setup_process():
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[var] = "1"
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def _alarm(signum, frame):
    raise CaseTimeout("case did not finish within %d s" % CASE_TIMEOUT)


def outcome_hash(obj):
    """Short hash of an observed outcome (floats rounded to 6 significant digits)."""

    def norm(o):
        if isinstance(o, float):
            return "%.5e" % o if o == o else "nan"
        if isinstance(o, dict):
            return {str(k): norm(v) for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))}
        if isinstance(o, (list, tuple)):
            return [norm(v) for v in o]
        if hasattr(o, "tolist"):
            return norm(o.tolist())
        return str(o)

    return hashlib.sha1(json.dumps(norm(obj)).encode()).hexdigest()[:12]


def execute(mod, desc, seed):
    """Run one case; returns (stats, violation-or-None)."""

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            stats = mod.run_case(desc, seed) or {}
        return stats, None
    except Violation as e:
        return {}, {"msg": str(e), "key": e.key, "data": e.data, "kind": "divergence"}
    except CaseTimeout as e:
        return {}, {"msg": str(e), "key": None, "data": None, "kind": "timeout"}
    except BaseException as e:  # an exception in an explored case is a violation
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        tb = traceback.format_exc()
        return {}, {
            "msg": "%s: %s" % (type(e).__name__, str(e)[:500]),
            "key": None,
            "data": {"traceback": tb[-3000:]},
            "kind": "exception",
        }
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(modname, cases, seed, counter, stop, outpath):
    mod = importlib.import_module(modname)
    with open(outpath, "a") as out:
        while not stop.value:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(cases):
                break
            out.write(json.dumps({"start": i}) + "\n")
            out.flush()
            stats, viol = execute(mod, cases[i], seed)
            out.write(json.dumps({"done": i, "stats": stats, "viol": viol}, default=str) + "\n")
            out.flush()
            if viol is not None:
                with stop.get_lock():
                    pass
    os._exit(0)


def _read(path):
    started, done = [], {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "start" in d:
                    started.append(d["start"])
                else:
                    done[d["done"]] = (d["stats"], d["viol"])
    return started, done


def load_known(prop):
    """Known findings of this property: {key: text}. 'fixed:' lines suppress nothing."""
    ret = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                key, text = rest.split(" ", 1)
                assert key.startswith("key=")
                ret[key[4:]] = text.strip()
    return ret


def explore(modname, cases, seed, nproc, budget):
    import tempfile
    import shutil

    tmp = tempfile.mkdtemp(prefix="verif_mc_")
    ctx = mp.get_context("fork")
    counter, stop = ctx.Value("i", 0), ctx.Value("i", 0)
    t0 = time.time()
    procs, results, capped = {}, {}, False
    serial = 0

    def spawn():
        nonlocal serial
        path = os.path.join(tmp, "w%d" % serial)
        serial += 1
        p = ctx.Process(target=_worker, args=(modname, cases, seed, counter, stop, path))
        p.start()
        procs[p] = path

    try:
        for _ in range(min(nproc, max(1, len(cases)))):
            spawn()

        progress = {}
        while procs:
            time.sleep(0.05)
            for p, path in list(procs.items()):
                size = os.path.getsize(path) if os.path.exists(path) else 0
                if progress.get(p, (None, 0))[0] != size:
                    progress[p] = (size, time.time())
                    nviol = 0
                    _, done = _read(path) if size < 5_000_000 else (None, {})
                    for i, (s, v) in done.items():
                        results[i] = (s, v)
                    nviol = sum(1 for s, v in results.values() if v is not None and v.get("key") is None)
                    if nviol >= MAX_VIOLATIONS:
                        stop.value = 1
                elif time.time() - progress[p][1] > 2 * CASE_TIMEOUT + 30:
                    p.kill()
                if not p.is_alive():
                    p.join()
                    started, done = _read(path)
                    results.update(done)
                    lost = [i for i in started if i not in done]
                    for i in lost:
                        results[i] = (
                            {},
                            {
                                "msg": "the process running this case died (exit code %s)" % p.exitcode,
                                "key": None,
                                "data": None,
                                "kind": "crash",
                            },
                        )
                    del procs[p]
                    if lost and not stop.value and serial < 64:
                        spawn()
            if time.time() - t0 > budget and not stop.value:
                stop.value, capped = 1, True
    finally:
        for p in procs:
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    return results, capped


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    t0 = time.time()
    setup_process()
    modname = "mc.props." + prop.lower()

    evidence = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evidence, "replay"), exist_ok=True)
    rpath = os.path.join(evidence, "replay", "%s.json" % prop)

    if replay:
        with open(replay) as f:
            r = json.load(f)
        mod = importlib.import_module(modname)
        stats, viol = execute(mod, r["case"], r["seed"])
        print(json.dumps({"case": r["case"], "stats": stats, "violation": viol}, indent=1, default=str))
        if viol:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0

    violations, cases, results, capped, mod = [], [], {}, False, None
    try:
        mod = importlib.import_module(modname)
        cases = json.loads(json.dumps(list(mod.cases(tier, seed))))
    except Exception:
        violations.append(
            (0, {"import": True}, {"msg": "cannot import or enumerate", "kind": "exception", "key": None,
                                   "data": {"traceback": traceback.format_exc()[-3000:]}})
        )

    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "10000"))
    nproc = int(os.environ.get("VERIF_NPROC", str(os.cpu_count() or 1)))
    if not violations:
        results, capped = explore(modname, cases, seed, nproc, budget)
        for i in sorted(results):
            if results[i][1] is not None:
                violations.append((i, cases[i], results[i][1]))

    known = load_known(prop)
    hit, new = {}, []
    for i, case, v in violations:
        if v["key"] is not None and v["key"] in known:
            hit[v["key"]] = v
        else:
            new.append((i, case, v))

    ok = [i for i in results if results[i][1] is None]
    tot = {"states": 0, "transitions": 0, "evaluations": 0, "traces": 0}
    outcomes, extra = set(), {}
    for i in ok:
        s = results[i][0]
        for k in tot:
            tot[k] += int(s.get(k, 0))
        for o in s.get("outcomes", []):
            outcomes.add(o)
        for k, v in s.get("extra", {}).items():
            extra[k] = extra.get(k, 0) + v

    level = getattr(mod, "LEVEL", "model_checking")
    samples = []
    for i in ok[:: max(1, len(ok) // 4)][:5]:
        samples.append({"case": cases[i], "observed": results[i][0].get("sample")})
    coverage = {
        "cases_enumerated": len(cases),
        "cases_executed": len(results),
        "exhaustive": bool(not capped and len(results) == len(cases) and not new),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "distinct_outcomes": len(outcomes),
        "samples": samples or [{"case": c, "observed": v["msg"]} for _, c, v in violations[:1]],
    }
    if level == "model_checking":
        coverage.update(
            states=tot["states"] or len(ok),
            transitions=tot["transitions"] or tot["evaluations"],
            traces_validated_against_impl=tot["traces"] or len(ok),
        )
    else:
        coverage.update(
            evaluations=tot["evaluations"] or len(results),
            distinct_nontrivial=len(outcomes),
            rule=getattr(mod, "RULE", ""),
        )
    if extra:
        coverage["counts"] = extra
    if capped:
        coverage["capped"] = "time budget of %.0f s reached: %d of %d cases executed" % (budget, len(results), len(cases))

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(evidence, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    if not new and os.path.exists(rpath):
        os.unlink(rpath)
    for key in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    print(
        "%s %s: %d/%d cases, states=%d transitions=%d evaluations=%d outcomes=%d, %.1f s%s"
        % (prop, tier, len(results), len(cases), tot["states"], tot["transitions"], tot["evaluations"],
           len(outcomes), time.time() - t0, " (capped)" if capped else "")
    )
    if new:
        i, case, v = new[0]
        with open(rpath, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "case": case, "violation": v,
                       "others": [{"case": c, "msg": w["msg"]} for _, c, w in new[1:]]}, f, indent=1, default=str)
        print("%d violating case(s); simplest: %s" % (len(new), json.dumps(case)))
        print(v["msg"])
        if v.get("data") and isinstance(v["data"], dict) and "traceback" in v["data"]:
            print(v["data"]["traceback"][-1500:])
        print("replay with: python run.py %s --replay %s" % (prop, rpath))
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    return 0
