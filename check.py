#!/usr/bin/env python3
"""
Decides one property by deterministic simulation of the code in /repo.

  check.py C01                 search (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py --replay FILE       run a replay file again

Exit 0: no violation in what was explored; 1: violation (line VIOLATION property=... replay=...); 2: error of the check.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")
HASH_SEEDS = ["0", "1", "2", "3", "77", "1234", "4242", "31337"]

# quick: (number of runs, wall seconds of the search); the search ends with whichever comes first
QUICK = (8000, 60)
THOROUGH = (400000, 2400)
QUICK_OVER = {}

REAL = ["mlmc.sampler", "mlmc.sampling_pool", "mlmc.sampling_pool_pbs", "mlmc.tool.pbs_job (run as the script of each simulated job)",
        "mlmc.sample_storage", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.level_simulation", "mlmc.quantity.*", "mlmc.moments",
        "mlmc.estimator", "mlmc.tool.flow_mc", "mlmc.tool.gmsh_io", "mlmc.random.correlated_field", "gstools", "h5py and HDF5 library on real files", "ruamel.yaml", "shutil, os on a scratch directory", "queue.Queue"]
STUB = ["multiprocessing pool and thread pool (model: FIFO task queue, workers, result handler thread running the callbacks, pickling)",
        "thread scheduling, locks and clocks (simulator)", "PBS server, qsub and qstat (model)",
        "gmsh and flow123d (models, C18)", "the simulation calculating samples (exact function of seed and level parameters)",
        "HDF5 durability: a file session killed before its close leaves the file as before"]


def child_env(hashseed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=hashseed, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", MPLBACKEND="agg",
             PYTHONDONTWRITEBYTECODE="1")
    e.pop("PYTHONPATH", None)
    return e


class CheckError(Exception):
    pass


class Plain(Exception):
    """The plain reference run of the code under test failed"""


def table_for(hashseed):
    p = subprocess.run([PY, os.path.join(HERE, "sim", "canonical.py")], env=child_env(hashseed), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd="/tmp", timeout=120)
    if p.returncode != 0:
        err = p.stderr.decode("utf-8", "replace")
        if "/mlmc/" in err:
            raise Plain(err[-3000:])
        raise CheckError("reference run failed: " + err[-2000:])
    return json.loads(p.stdout.decode())


def start(task, hashseed, log):
    p = subprocess.Popen([PY, os.path.join(HERE, "sim", "worker.py")], env=child_env(hashseed), stdin=subprocess.PIPE,
                         stdout=subprocess.DEVNULL, stderr=open(log, "wb"), cwd="/tmp", start_new_session=True)
    p.stdin.write(json.dumps(task).encode())
    p.stdin.close()
    return p


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def call(task, hashseed, scratch, name, limit):
    """Run one worker to its end; None if it gave no answer"""
    out = os.path.join(scratch, name + ".json")
    if os.path.exists(out):
        os.remove(out)
    p = start(dict(task, out=out), hashseed, os.path.join(scratch, name + ".log"))
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        stop(p)
        return None
    if p.returncode != 0 or not os.path.exists(out):
        return None
    with open(out) as f:
        return json.load(f)


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def write_replay(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, data["name"]))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def report(prop, path, text):
    print(text[:3000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f) if k["property"] == prop and k["status"] == "known"]


def evidence(prop, tier, seed, cov, wall, violations, assumptions):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
                   "wall_s": round(wall, 3), "violations": violations}, f, indent=1)


ASSUME = ["the model of the multiprocessing pools and of the PBS server covers what the real ones do as far as mlmc can see it",
          "threads interleave at the lines of mlmc code and at intercepted calls",
          "search by seeded sampling of scenarios, schedules and faults, not exhaustive",
          "HDF5 sessions are atomic with respect to a crash of the process"]


def merge(results, wall, prop):
    s = {}
    scheds, digests, samples = set(), set(), []
    for r in results:
        st = r["stats"]
        for k, v in st.items():
            if k == "scheds":
                scheds.update(v)
            elif k == "digests":
                digests.update(v)
            elif k == "samples":
                samples += v
            elif isinstance(v, dict):
                d = s.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            else:
                s[k] = s.get(k, 0) + v
    runs = s.get("runs", 0)
    return {
        "evaluations": runs,
        "distinct_nontrivial": len(digests),
        "rule": "one evaluation is one simulated run of a scenario generated from the seed; non-trivial: it calculated at least two samples "
                "(storage, format and estimate histories: more than ten intercepted steps); distinct: different digest of the complete event log",
        "samples": samples[:3],
        "runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
        "seeds": "VERIF_SEED*1000003 + k, one scenario for each k < %d not cut off by the time budget" % s.get("n_limit", runs),
        "simulated_seconds": round(s.get("sim_time", 0), 1),
        "distinct_interleavings": len(scheds),
        "interleaving_measure": "distinct sequences of thread activations (storage, format and estimate histories have one thread: distinct event logs)",
        "thread_switches": s.get("switches", 0),
        "scheduling_decisions": s.get("decisions", 0),
        "deviations_from_default": s.get("deviations", 0),
        "intercepted_steps": s.get("steps", 0),
        "lines_of_mlmc_scheduled": s.get("lines", 0),
        "samples_calculated": s.get("execs", 0),
        "process_restarts": s.get("crashed_lives", 0),
        "runs_with_fault_fired": s.get("faulted", 0),
        "faults_fired": s.get("fired", {}),
        "probes": s.get("probes", {}),
        "families": s.get("families", {}),
        "violations_of_other_properties_seen": s.get("foreign", {}),
        "repeated_runs_compared": sum(r.get("repeats", 0) for r in results),
        "real_code": REAL,
        "stubs": STUB,
    }


def plain_checks(prop, tables):
    """Facts about the reference tables themselves; returns text of a violation or None"""
    t0 = tables[HASH_SEEDS[0]]
    if prop == "C03":
        for h, t in tables.items():
            if t != t0:
                return "seeds of samples differ between interpreter processes (PYTHONHASHSEED %s and %s)" % (HASH_SEEDS[0], h)
        seeds = [r[1] for rows in t0.values() for r in rows]
        if len(set(seeds)) != len(seeds):
            return "different samples have got the same seed"
    if prop in ("C03", "C08"):
        ids = [r[0] for rows in t0.values() for r in rows]
        if len(set(ids)) != len(ids):
            return "different samples have got the same id"
    return None


def run_check(prop, tier, seed):
    t_start = time.time()
    n, budget = (THOROUGH if tier == "thorough" else QUICK_OVER.get(prop, QUICK))
    if os.environ.get("VERIF_BUDGET"):
        budget = float(os.environ["VERIF_BUDGET"])
    scratch = tempfile.mkdtemp(prefix="mlmc-check-")
    procs = []
    try:
        shards = min(8, os.cpu_count() or 8)
        tables = {}
        try:
            tp = {h: None for h in HASH_SEEDS[:shards]}
            for h in (HASH_SEEDS[:shards] if prop == "C03" else HASH_SEEDS[:1]):
                tables[h] = table_for(h)
            for h in tp:
                tables.setdefault(h, tables[HASH_SEEDS[0]])
        except Plain as e:
            path = write_replay(prop, {"name": "plain", "property": prop, "plain": True, "text": str(e)})
            evidence(prop, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "plain reference run", "samples": [str(e)[-500:]]},
                     time.time() - t_start, 1, ASSUME)
            report(prop, path, "a plain run of one process without faults fails:\n" + str(e))
            return 1
        text = plain_checks(prop, tables)
        if text:
            path = write_replay(prop, {"name": "plain", "property": prop, "plain": True, "text": text})
            evidence(prop, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "plain reference run", "samples": [text]},
                     time.time() - t_start, 1, ASSUME)
            report(prop, path, text)
            return 1
        stopfile = os.path.join(scratch, "stop")
        t0 = time.time()
        for i in range(shards):
            h = HASH_SEEDS[i]
            task = {"mode": "search", "prop": prop, "table": tables[h], "shard": i, "shards": shards, "seed": seed, "n": n, "budget": budget,
                    "repeats": 2 if tier == "quick" else 20, "out": os.path.join(scratch, "out%d.json" % i), "stop": stopfile,
                    "progress": os.path.join(scratch, "progress%d" % i)}
            procs.append((h, task, start(task, h, os.path.join(scratch, "log%d" % i))))
        deadline = t0 + budget + 150
        results, stuck = [], []
        found = None
        waiting = list(procs)
        while waiting:
            time.sleep(0.05)
            for x in list(waiting):
                h, task, p = x
                if p.poll() is not None:
                    waiting.remove(x)
                    if p.returncode == 0 and os.path.exists(task["out"]):
                        with open(task["out"]) as f:
                            r = json.load(f)
                        results.append(r)
                        if r["violation"]:
                            open(stopfile, "w").close()
                            if found is None:
                                found = (h, r["violation"])
                    else:
                        stuck.append((h, task, tail(os.path.join(scratch, "log%d" % task["shard"]))))
                        open(stopfile, "w").close()
                elif time.time() > deadline:
                    stop(p)
            if found and waiting and time.time() > t0 + budget + 30:
                for h, task, p in waiting:
                    stop(p)
        wall = time.time() - t0
        cov = merge(results, wall, prop)
        if found:
            h, v = found
            path, text = minimised(prop, h, v, tables[h], scratch, tier)
            evidence(prop, tier, seed, cov, time.time() - t_start, 1, ASSUME)
            report(prop, path, text)
            return 1
        if stuck:
            # a run which does not return: does it happen again?
            h, task, log = stuck[0]
            try:
                with open(task["progress"]) as f:
                    k = int(f.read().split()[0])
            except (OSError, ValueError, IndexError):
                raise CheckError("worker ended without result:\n" + log)
            from_log = "Timeout (" in log
            sc = subprocess.run([PY, "-c", "import sys, json; sys.path.insert(0, %r)\nfrom sim import env; env.setup()\nfrom sim import worker\n"
                                 "sys.stderr.write('\\n'); sys.__stdout__.write(json.dumps(worker.scenario(%r, %d, %d)))" % (HERE, prop, k, seed)],
                                env=child_env(h), stdout=subprocess.PIPE, cwd="/tmp", timeout=100)
            sc = json.loads(sc.stdout.decode())
            r = call({"mode": "replay", "scenario": sc, "decisions": None, "table": tables[h]}, h, scratch, "again", 130)
            again = tail(os.path.join(scratch, "again.log"))
            if r is None and from_log and "Timeout (" in again and "/mlmc/" in again:
                path = write_replay(prop, {"name": "stuck-%d" % k, "property": prop, "scenario": sc, "decisions": None, "hashseed": h,
                                           "expect": {"stuck": True}, "trace": again})
                evidence(prop, tier, seed, cov, time.time() - t_start, 1, ASSUME)
                report(prop, path, "the run does not end:\n" + again)
                return 1
            raise CheckError("worker ended without result in run %d:\n%s" % (k, log))
        lost = [e for r in results for e in r["harness_errors"]]
        cov["runs_lost_to_the_harness"] = len(lost)
        if len(lost) * 10 > cov["evaluations"]:
            raise CheckError("harness error in run %d (%d such runs):\n%s" % (lost[0]["k"], len(lost), lost[0]["text"]))
        cov["repeated_runs_differing"] = sorted(k for r in results for k in r["repeat_mismatch"])
        if cov["evaluations"] < shards:
            raise CheckError("only %d runs done" % cov["evaluations"])
        # listed findings
        findings = []
        for kf in known(prop):
            h = HASH_SEEDS[0]
            r = call({"mode": "replay", "scenario": kf["scenario"], "decisions": {}, "table": tables[h]}, h, scratch, "known", 130)
            if r is None or r["harness_error"]:
                raise CheckError("probe of a known finding failed: %s" % (r and r["harness_error"]))
            if not r["v"]:
                continue
            v = r["v"][0]
            if v["oracle"] == kf["oracle"] and kf["match"] in v["text"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
                findings.append(kf["what"])
            else:
                path = write_replay(prop, {"name": "finding", "property": prop, "scenario": kf["scenario"], "decisions": {}, "hashseed": h,
                                           "expect": dict(v, digest=r["digest"]), "trace": r["trace"]})
                evidence(prop, tier, seed, cov, time.time() - t_start, 1, ASSUME)
                report(prop, path, "%s: %s" % (v["oracle"], v["text"]))
                return 1
        cov["known_findings"] = findings
        evidence(prop, tier, seed, cov, time.time() - t_start, 0, ASSUME)
        print("property=%s held in %d simulated runs (%d distinct, %d interleavings), %d with faults, %.0f simulated s, %.0f s" % (
            prop, cov["evaluations"], cov["distinct_nontrivial"], cov["distinct_interleavings"], cov["runs_with_fault_fired"],
            cov["simulated_seconds"], time.time() - t_start))
        return 0
    finally:
        for h, task, p in procs:
            if p.poll() is None:
                stop(p)
        shutil.rmtree(scratch, ignore_errors=True)
        for d in glob.glob("/dev/shm/mlmcsim*"):
            if time.time() - os.stat(d).st_mtime > 3600:
                shutil.rmtree(d, ignore_errors=True)


def minimised(prop, h, v, table, scratch, tier):
    """Minimise, confirm in fresh processes and write the replay file; returns (path, text)"""
    task = {"mode": "minimise", "scenario": v["scenario"], "decisions": v["decisions"], "oracle": v["v"]["oracle"], "table": table,
            "budget": 45 if tier == "quick" else 300}
    m = call(task, h, scratch, "min", task["budget"] + 150)
    cands = []
    if m and m["ok"]:
        cands.append((m["scenario"], m["decisions"], "minimised"))
    cands.append((v["scenario"], {str(k): x for k, x in v["decisions"].items()}, "not minimised"))
    for sc, dec, how in cands:
        rs = [call({"mode": "replay", "scenario": sc, "decisions": dec, "table": table}, h, scratch, "rep%d" % i, 130) for i in range(2)]
        if all(r and r["v"] for r in rs) and rs[0]["digest"] == rs[1]["digest"]:
            r = rs[0]
            path = write_replay(prop, {"name": "%s-%d" % (r["v"][0]["oracle"], v["k"]), "property": prop, "scenario": sc, "decisions": dec,
                                       "hashseed": h, "expect": dict(r["v"][0], digest=r["digest"]), "how": how, "seed": sc["seed"],
                                       "trace": r["trace"]})
            return path, "%s (run %d, seed %s, %s, %d deviations from the default schedule)\n%s" % (
                r["v"][0]["oracle"], v["k"], sc["seed"], how, len(dec), r["v"][0]["text"])
    path = write_replay(prop, {"name": "%s-%d" % (v["v"]["oracle"], v["k"]), "property": prop, "scenario": v["scenario"], "decisions": v["decisions"],
                               "hashseed": h, "expect": dict(v["v"], digest=v["digest"]), "how": "not reproduced in a fresh process",
                               "seed": v["scenario"]["seed"]})
    return path, "%s (run %d; the code under test behaves differently in every process, the replay is not exact)\n%s" % (
        v["v"]["oracle"], v["k"], v["v"]["text"])


def do_replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = d["property"]
    if d.get("plain"):
        try:
            tables = {h: table_for(h) for h in (HASH_SEEDS if prop == "C03" else HASH_SEEDS[:1])}
            text = plain_checks(prop, tables)
        except Plain as e:
            text = str(e)
        if text:
            report(prop, path, text)
            return 1
        print("not reproduced")
        return 0
    h = d["hashseed"]
    scratch = tempfile.mkdtemp(prefix="mlmc-check-")
    try:
        r = call({"mode": "replay", "scenario": d["scenario"], "decisions": d["decisions"], "table": table_for(h)}, h, scratch, "rep", 130)
        if r is None:
            if d["expect"].get("stuck"):
                report(prop, path, "the run does not end")
                return 1
            raise CheckError("replay gave no answer:\n" + tail(os.path.join(scratch, "rep.log")))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if r["harness_error"]:
        raise CheckError(r["harness_error"])
    print("\n".join(r["trace"][-60:]))
    if r["v"]:
        v = r["v"][0]
        print("exact: %s" % (r["digest"] == d["expect"].get("digest")))
        report(prop, path, "%s: %s" % (v["oracle"], v["text"]))
        return 1
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            return do_replay(a.replay)
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return run_check(a.prop, tier, seed)
    except CheckError as e:
        print("ERROR of the check: %s" % e, file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR of the check: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
