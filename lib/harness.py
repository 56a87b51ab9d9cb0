"""Runner shared by all checks: sharded Hypothesis search, shrinking, replay files, evidence, known findings.

A check module (checks/Cxx.py) defines
    ID, RULE, ASSUMPTIONS
    strategy(tier)          -> Hypothesis strategy of JSON-able cases
    run(case)               -> dict(nontrivial=bool, tags=[...]);  raises Violation if the property fails on the case
    EXAMPLES                -> {"quick": n, "thorough": n}  examples per worker
    optional: fixed(tier)   -> list of JSON-able cases always run (spread over the workers)
    optional: WORKERS, BUDGET {"quick": s, "thorough": s}
The verdict is a pure function of (case, code in /repo); Hypothesis only searches and shrinks.
"""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from lib.model import TooLarge

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
SHRINK_BUDGET = {"quick": 60.0, "thorough": 240.0}


class Violation(Exception):
    pass


class _Stop(BaseException):
    pass


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _repo_frame(tb):
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
    return any(os.path.realpath(f.filename).startswith(repo) for f in traceback.extract_tb(tb))


def canon(case):
    return json.dumps(case, sort_keys=True)


def evaluate(mod, case):
    """ -> ("ok", info) | ("violation", message); anything else raises """
    try:
        return "ok", mod.run(case)
    except Violation as e:
        return "violation", str(e)
    except TooLarge:
        return "ok", {"nontrivial": False, "tags": ["too_large"]}
    except RecursionError as e:
        return "violation", f"RecursionError: {e}"
    except Exception as e:  # noqa
        if _repo_frame(e.__traceback__):
            tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
            return "violation", f"unexpected {type(e).__name__} from the code under test: {e}\n{tail}"
        if isinstance(e, (MemoryError, OSError, subprocess.SubprocessError)):
            raise       # the machine, not the code under test
        # the code under test returned what no oracle can read (None for a label, a list for a number ...)
        tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-2:])
        return "violation", f"the result cannot be read: {type(e).__name__}: {e}\n{tail}"


def load_known(pid):
    """ lines 'KNOWN-FINDING: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing """
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={pid} " in line:
                key = line.split("key=")[1].split()[0]
                out[key] = line
    return out


def worker(pid, tier, seed, idx, n_workers, outfile):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    mod = importlib.import_module(f"checks.{pid}")
    stats = {"evaluations": 0, "nontrivial": {}, "samples": [], "tags": {}, "fail": None, "error": None,
             "fixed": 0, "stopped_by_budget": False}
    t0 = time.time()
    budget = getattr(mod, "BUDGET", {}).get(tier, 120.0 if tier == "quick" else 1500.0)
    best = {"case": None, "msg": None, "t": None}

    def record(case, info):
        stats["evaluations"] += 1
        c = canon(case)
        for t in info.get("tags", []):
            stats["tags"][t] = stats["tags"].get(t, 0) + 1
        if info.get("nontrivial"):
            h = hashlib.sha1(c.encode()).hexdigest()[:16]
            stats["nontrivial"][h] = 1
            if len(stats["samples"]) < 3 or (len(stats["samples"]) < 6 and stats["evaluations"] % 17 == 0):
                if len(c) < 3000:
                    stats["samples"].append(case)

    def one(case):
        if best["t"] is not None and time.time() - best["t"] > SHRINK_BUDGET[tier]:
            raise _Stop()
        if best["t"] is None and time.time() - t0 > budget:
            stats["stopped_by_budget"] = True
            raise _Stop()
        verdict, info = evaluate(mod, case)
        if verdict == "ok":
            if best["t"] is None:
                record(case, info)
            return
        if best["case"] is None or len(canon(case)) <= len(canon(best["case"])):
            best["case"], best["msg"] = case, info
        if best["t"] is None:
            best["t"] = time.time()
        raise Violation(info)

    def on_alarm(_sig, _frame):
        # one case that takes very long must not leave the check without an answer
        if best["t"] is not None and time.time() - best["t"] < SHRINK_BUDGET[tier]:
            signal.alarm(10)
            return
        stats["stopped_by_budget"] = True
        signal.alarm(5)      # in case the exception is swallowed (a finalizer, a callback)
        raise _Stop()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(budget + 60))
    try:
        fixed = list(mod.fixed(tier)) if hasattr(mod, "fixed") else []
        for i, case in enumerate(fixed):
            if i % n_workers == idx:
                verdict, info = evaluate(mod, case)
                stats["fixed"] += 1
                if verdict == "ok":
                    record(case, info)
                else:
                    best["case"], best["msg"] = case, info
                    raise Violation(info)
        n = mod.EXAMPLES[tier]

        @hypothesis.seed(seed * 7919 + idx)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False,
                  phases=[Phase.generate, Phase.shrink])
        @given(mod.strategy(tier))
        def prop(case):
            one(case)

        prop()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:  # noqa
        if best["case"] is None:
            stats["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    signal.alarm(0)
    if best["case"] is not None:
        stats["fail"] = {"case": best["case"], "msg": best["msg"]}
    stats["nontrivial"] = sorted(stats["nontrivial"])
    stats["wall"] = time.time() - t0
    with open(outfile, "w") as f:
        json.dump(stats, f)


def replay(pid, path):
    mod = importlib.import_module(f"checks.{pid}")
    d = json.load(open(path))
    verdict, info = evaluate(mod, d["case"])
    if verdict == "violation":
        print(info)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay passes:", json.dumps(info, default=str)[:400])
    return 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, VERIF)
    if "--replay" in argv:
        return replay(pid, argv[argv.index("--replay") + 1])
    if "--worker" in argv:
        idx, n, out = int(argv[argv.index("--worker") + 1]), int(argv[argv.index("--worker") + 2]), \
            argv[argv.index("--worker") + 3]
        worker(pid, tier, seed, idx, n, out)
        return 0

    t0 = time.time()
    mod = importlib.import_module(f"checks.{pid}")
    n_workers = getattr(mod, "WORKERS", 7)
    known_out = []
    if hasattr(mod, "known_findings"):
        listed = load_known(pid)
        for key, case in mod.known_findings().items():
            if key not in listed:
                continue
            verdict, info = evaluate(mod, case)
            if verdict == "violation":
                print(listed[key])
                known_out.append(key)
    with tempfile.TemporaryDirectory(prefix=f"verif_{pid}_") as tmp:
        procs = []
        for i in range(n_workers):
            env = dict(os.environ)
            env.update(PYTHONHASHSEED=str((seed * 101 + i) % 4294967295), PYTHONDONTWRITEBYTECODE="1",
                       OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_TIER=tier,
                       PYTHONWARNINGS="ignore", VERIF_SEED=str(seed))
            out = os.path.join(tmp, f"{i}.json")
            err = open(os.path.join(tmp, f"{i}.err"), "wb")
            p = subprocess.Popen([sys.executable, os.path.join(VERIF, "run.py"), pid, "--worker", str(i),
                                  str(n_workers), out], env=env, stdout=subprocess.DEVNULL, stderr=err,
                                 start_new_session=True)
            procs.append((p, out, err, env["PYTHONHASHSEED"]))
        limit = {"quick": 600.0, "thorough": 6 * 3600.0}[tier]
        results, failed, errors = {}, None, []
        pending = dict(enumerate(procs))
        while pending:
            time.sleep(0.1)
            for i, (p, out, err, hs) in list(pending.items()):
                if p.poll() is None:
                    continue
                del pending[i]
                if os.path.exists(out):
                    r = json.load(open(out))
                    results[i] = r
                    if r["error"]:
                        errors.append(r["error"])
                    if r["fail"] and (failed is None):
                        failed = dict(r["fail"], hashseed=hs, worker=i)
                else:
                    err.flush()
                    errors.append(f"worker {i} died (rc {p.returncode}): " +
                                  open(os.path.join(tmp, f"{i}.err"), errors="replace").read()[-3000:])
            if failed or (time.time() - t0 > limit):
                if not failed:
                    errors.append("time limit")
                for i, (p, *_rest) in pending.items():
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                break
    nontriv = set()
    ev = fixed = 0
    tags, samples, stopped = {}, [], 0
    for i in sorted(results):
        r = results[i]
        nontriv.update(r["nontrivial"])
        ev += r["evaluations"]
        fixed += r["fixed"]
        stopped += bool(r["stopped_by_budget"])
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        samples += r["samples"]
    replay_path = None
    if failed:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(canon(failed["case"]).encode()).hexdigest()[:10]
        replay_path = os.path.join(d, f"{pid}-{h}.json")
        json.dump({"property": pid, "case": failed["case"], "message": failed["msg"], "seed": seed,
                   "pythonhashseed": failed["hashseed"],
                   "how": f"python3-vt run.py {pid} --replay {replay_path}"}, open(replay_path, "w"), indent=1)
    step = max(1, len(samples) // 6)
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": ev, "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
                             "samples": samples[::step][:6], "fixed_cases": fixed, "workers": n_workers,
                             "workers_stopped_by_time_budget": stopped,
                             "case_classes": dict(sorted(tags.items())), "known_findings_seen": known_out},
                "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
                "violations": 1 if failed else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if failed:
        print(f"{pid}: property violated; minimal case: {canon(failed['case'])[:1500]}")
        print(failed["msg"][:3000])
        print(f"VIOLATION property={pid} replay={replay_path}")
        return 1
    if errors:
        print(f"{pid}: harness error\n" + errors[0], file=sys.stderr)
        return 2
    if ev == 0 or not nontriv:
        print(f"{pid}: nothing explored", file=sys.stderr)
        return 2
    print(f"{pid}: held on {ev} cases ({len(nontriv)} distinct non-trivial), {time.time() - t0:.1f} s")
    return 0
