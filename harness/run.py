"""
run.py CXX [quick|thorough]      run the check of a property
run.py --replay FILE             run again the case of a replay file
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from plan import PLAN

KNOWN_FILE = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")


def known_findings():
    """key of findings listed as known: lines 'known: property=<id> key=<key> <text>'"""
    keys = {}
    with open(KNOWN_FILE) as f:
        for line in f:
            if line.startswith("known: "):
                parts = line.split(None, 3)
                keys[(parts[1].split("=")[1], parts[2].split("=")[1])] = parts[3].strip()
    return keys


def replay(path):
    with open(path) as f:
        data = json.load(f)
    keep = core.prepare_process()
    module = core.load(data["property"])
    res = core.run_case(module, data["property"], data["seed"], data["case"], data["tier"])
    os.write(keep, (json.dumps(res, indent=1) + "\n").encode())
    return 1 if "violation" in res else 0


def run(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    total = plan[tier]
    workers = min(plan.get("workers", 8), total)
    cap = plan.get("cap_" + tier, 420 if tier == "quick" else 3600)
    started = time.time()
    deadline = started + cap
    replays = os.path.join(core.VERIF, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    env = dict(
        os.environ,
        PYTHONHASHSEED="0",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),  # never a stale .pyc of /repo
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TMPDIR=scratch,
        VERIF_TIER=tier,
        NO_PROXY="127.0.0.1,localhost",
        no_proxy="127.0.0.1,localhost",
    )
    procs = []
    try:
        for w in range(workers):
            out = os.path.join(scratch, "w%d.jsonl" % w)
            p = subprocess.Popen(
                [core.PYTHON, os.path.join(core.HERE, "worker.py"), prop, tier, str(seed), str(w), str(workers),
                 str(total), str(deadline), out],
                env=env, cwd=scratch, stdin=subprocess.DEVNULL, start_new_session=True,
            )
            procs.append((p, out))
        hard = deadline + 2 * core.CASE_TIMEOUT
        stuck = set()
        while True:
            alive = [p for p, _ in procs if p.poll() is None]
            if not alive:
                break
            if time.time() > hard:
                for p in alive:
                    stuck.add(p.pid)
                    kill_group(p)
                break
            # stop early when a violation is known
            if any(has_violation(out) for _, out in procs):
                time.sleep(0.5)
                for p in alive:
                    kill_group(p)
                for p in alive:
                    p.wait()
                break
            time.sleep(0.2)
        for p, _ in procs:
            kill_group(p)
        return report(prop, tier, seed, plan, total, procs, stuck, replays, started)
    finally:
        for p, _ in procs:
            kill_group(p)
        shutil.rmtree(scratch, ignore_errors=True)


def kill_group(p):
    import signal

    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def has_violation(path):
    try:
        with open(path) as f:
            return '"violation":' in f.read()
    except OSError:
        return False


def report(prop, tier, seed, plan, total, procs, stuck, replays, started):
    counters, maxima, nontrivial = {}, {}, set()
    evals = done = 0
    violations, errors, known, samples, cut, signatures = [], [], [], [], [], set()
    stopped = False
    for p, out in procs:
        begun = None
        lines = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        lines.append(json.loads(line))
                    except ValueError:
                        pass
        for r in lines:
            if "fatal" in r:
                # the library can't even be imported by a user
                violations.append(dict(index=-1, violation=dict(message="cannot use the library: " + r["fatal"], detail=dict(traceback=r["tb"]))))
                begun = None
                continue
            if "start" in r:
                begun = r["start"]
                continue
            if "stopped" in r:
                stopped = True
                continue
            begun = None
            done += 1
            evals += r["evals"]
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in r["maxima"].items():
                maxima[k] = max(v, maxima.get(k, float("-inf")))
            nontrivial.update(r["nontrivial"])
            if r["nontrivial"]:
                signatures.add(tuple(r["nontrivial"]))
            known += r["known"]
            if r.get("note") and len(samples) < 5 and "violation" not in r:
                samples.append(dict(case=r["index"], **r["note"]))
            if "violation" in r:
                violations.append(r)
            if "harness_error" in r:
                errors.append(r["harness_error"])
        if begun is not None:
            cut.append((begun, p))
    if not violations:  # else they were cut because another worker found a violation
        for begun, p in cut:
            if p.pid in stuck:
                violations.append(dict(index=begun, violation=dict(message="case never ends", detail={})))
            elif p.returncode == -9:
                errors.append("worker killed from outside (memory?) during case %d" % begun)
            else:
                violations.append(dict(index=begun, violation=dict(message="process died (exit %s) during the case" % p.returncode, detail={})))
    wall = time.time() - started
    listed = known_findings()
    known_lines = []
    for k in known:
        key = (prop, k["key"])
        if key in listed:
            line = "KNOWN-FINDING: property=%s %s: %s" % (prop, k["key"], k["text"])
            if line not in known_lines:
                known_lines.append(line)
        else:
            violations.append(dict(index=k["case"], violation=dict(message="%s: %s" % (k["key"], k["text"]), detail={})))

    observed = sum(counters.values())
    vacuous = [k for k in plan["require"] if not counters.get(k)]
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=plan.get("level", "exploration"),
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len(signatures),
            rule=plan["rule"],
            samples=samples,
            oracle_evaluations=evals,
            distinct_situations_judged=len(nontrivial),
            cases_planned=total,
            time_cap_reached=stopped,
            events_observed=observed,
            events=dict(sorted(counters.items())),
            maxima=dict(sorted(maxima.items())),
            known_findings=known_lines,
        ),
        wall_s=round(wall, 2),
        violations=len(violations),
        violation_messages=[dict(case=v["index"], message=v["violation"]["message"]) for v in violations[:10]],
    )
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print("%s %s: %d cases, %d oracle evaluations, %d distinct non trivial situations, %d events, %.1f s"
          % (prop, tier, done, evals, len(nontrivial), observed, wall))
    for line in known_lines:
        print(line)
    if violations:
        for n, v in enumerate(violations[:3]):
            path = os.path.join(replays, "%s-%d-%d.json" % (prop, seed, v["index"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, case=v["index"], **v["violation"]), f, indent=1)
            print("  case %s: %s" % (v["index"], v["violation"]["message"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS ERROR %s" % errors[0])
        return 3
    if vacuous or done == 0:
        print("INCONCLUSIVE nothing observed for %s" % vacuous)
        return 3
    return 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run(prop, tier)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
