"""
One worker process: searches its share of the seeds, minimises a failing run, or replays a file.
Started by check.py with a fixed PYTHONHASHSEED; reads its task (JSON) from stdin, writes JSON to the given file.
"""
import faulthandler
import json
import os
import resource
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import env
env.setup()
from sim import gen, props, runner

clock = time.monotonic          # the seam passes through outside of simulated runs


def scenario(prop, k, seed0):
    """k-th scenario of the property"""
    seed = seed0 * 1000003 + k
    # as read from a replay file
    return json.loads(json.dumps(getattr(gen, props.family(prop, k))(seed, prop)))


def viol_json(v):
    return {"oracle": v.oracle, "text": v.text}


class Stats:
    def __init__(self):
        self.d = {"runs": 0, "steps": 0, "lines": 0, "switches": 0, "decisions": 0, "deviations": 0, "execs": 0, "sim_time": 0.0,
                  "crashed_lives": 0, "fired": {}, "probes": {}, "foreign": {}, "families": {}, "nontrivial": 0, "faulted": 0}
        self.scheds = set()
        self.digests = set()
        self.samples = []

    def add(self, sc, r):
        d = self.d
        d["runs"] += 1
        for k in ("steps", "lines", "switches", "decisions", "execs"):
            d[k] += r.stats.get(k, 0)
        d["crashed_lives"] += r.stats.get("life", 0)
        d["deviations"] += len(r.decisions)
        d["sim_time"] += r.sim_time
        fam = sc["family"]
        d["families"][fam] = d["families"].get(fam, 0) + 1
        for a, b in (("fired", r.fired), ("probes", r.probes)):
            for k, n in b.items():
                d[a][k] = d[a].get(k, 0) + n
        for k in r.foreign:
            d["foreign"][k] = d["foreign"].get(k, 0) + 1
        if r.fired:
            d["faulted"] += 1
        nontrivial = r.stats.get("execs", 0) > 1 or fam in "SFE" and r.stats.get("steps", 0) > 10
        if nontrivial:
            d["nontrivial"] += 1
            self.digests.add(r.digest)
            self.scheds.add(fam + r.sched + (r.digest if fam in "SFE" else ""))
        if len(self.samples) < 2 and nontrivial and r.fired | {"x": 1}:
            self.samples.append({"scenario": sc, "deviations_from_default_schedule": len(r.decisions), "digest": r.digest,
                                 "faults": dict(r.fired), "simulated_seconds": round(r.sim_time, 3)})

    def out(self):
        return dict(self.d, scheds=sorted(self.scheds), digests=sorted(self.digests), samples=self.samples)


def search(task):
    prop, table = task["prop"], task["table"]
    st = Stats()
    t0 = clock()
    res = {"violation": None, "harness_errors": [], "repeat_mismatch": []}
    progress = open(task["progress"], "w")
    k = task["shard"]
    repeats = 0
    while k < task["n"] and clock() - t0 < task["budget"]:
        progress.seek(0)
        progress.write("%d            " % k)
        progress.flush()
        sc = scenario(prop, k, task["seed"])
        faulthandler.dump_traceback_later(task.get("run_limit", 100), exit=True, file=sys.stderr)
        r = runner.run(sc, table)
        faulthandler.cancel_dump_traceback_later()
        if r.harness_error:
            # a run the harness cannot follow says nothing; too many of them are an error of the check
            res["harness_errors"].append({"k": k, "text": r.harness_error})
            if len(res["harness_errors"]) > 40:
                break
        else:
            st.add(sc, r)
        if r.violations:
            res["violation"] = {"k": k, "scenario": sc, "decisions": r.decisions, "digest": r.digest, "v": viol_json(r.violations[0])}
            break
        if repeats < task["repeats"] and not r.harness_error:
            # the same scenario with the recorded decisions has to be the same run
            repeats += 1
            r2 = runner.run(sc, table, decisions=r.decisions)
            if r2.digest != r.digest:
                res["repeat_mismatch"].append(k)
        k += task["shards"]
        if os.path.exists(task["stop"]):
            break
    res["stats"] = st.out()
    res["repeats"] = repeats
    res["wall"] = clock() - t0
    return res


# ------------------------------------------------------------------------------------------------ minimisation
def fails(sc, table, dec, oracle):
    r = runner.run(sc, table, decisions=dec)
    if r.harness_error or not r.violations or r.violations[0].oracle != oracle:
        return None
    return r


def edits(sc):
    """Smaller scenarios"""
    import copy
    if sc["family"] in "LP":
        if len(sc["lives"]) > 1:
            for i in range(len(sc["lives"])):
                s = copy.deepcopy(sc)
                s["lives"].pop(i)
                if not s["lives"][-1].get("crash"):
                    yield s
        for i, life in enumerate(sc["lives"]):
            for j in range(len(life["ops"])):
                s = copy.deepcopy(sc)
                s["lives"][i]["ops"].pop(j)
                c = s["lives"][i].get("crash")
                if c:
                    if c["op"] == j:
                        continue
                    if c["op"] > j:
                        c["op"] -= 1
                yield s
        for key in ("qsub", "qstat", "jobs"):
            for k in list(sc.get("pbs", {}).get(key, {})):
                s = copy.deepcopy(sc)
                del s["pbs"][key][k]
                yield s
        for i, life in enumerate(sc["lives"]):
            for j, op in enumerate(life["ops"]):
                if op[0] in ("initial", "target") and any(x > 1 for x in op[1]):
                    s = copy.deepcopy(sc)
                    s["lives"][i]["ops"][j][1] = [max(1, x // 2) if x else 0 for x in op[1]]
                    yield s
    elif sc["family"] == "F":
        for i in range(len(sc["lives"])):
            s = copy.deepcopy(sc)
            s["lives"].pop(i)
            yield s
        for i, life in enumerate(sc["lives"]):
            if life["kill"] is not None:
                s = copy.deepcopy(sc)
                s["lives"][i]["kill"] = None
                yield s
    else:
        for i in range(len(sc["ops"])):
            s = copy.deepcopy(sc)
            s["ops"].pop(i)
            yield s
        for i, o in enumerate(sc["ops"]):
            if o.get("fault"):
                s = copy.deepcopy(sc)
                s["ops"][i].pop("fault")
                yield s


def minimise(task):
    table = task["table"]
    sc, dec, oracle = task["scenario"], {int(k): v for k, v in task["decisions"].items()}, task["oracle"]
    t0 = clock()
    n = 0
    best = fails(sc, table, dec, oracle)
    if best is None:
        return {"ok": False}

    def left():
        return clock() - t0 < task["budget"]
    # 1. no deviations from the default schedule at all?
    r = fails(sc, table, {}, oracle)
    if r:
        dec, best = {}, r
    # 2. smaller scenarios
    again = True
    while again and left():
        again = False
        for s in edits(sc):
            if not left():
                break
            n += 1
            for d in ({}, dec) if dec else ({},):
                try:
                    r = fails(s, table, d, oracle)
                except Exception:
                    r = None
                if r:
                    sc, dec, best, again = s, dict(d), r, True
                    break
            if again:
                break
    # 3. fewer deviations
    keys = sorted(dec)
    size = max(1, len(keys) // 2)
    while keys and left():
        for i in range(0, len(keys), size):
            part = keys[:i] + keys[i + size:]
            d = {k: dec[k] for k in part}
            n += 1
            r = fails(sc, table, d, oracle)
            if r:
                dec, keys, best = d, part, r
                break
            if not left():
                break
        else:
            if size == 1:
                break
            size = max(1, size // 2)
    best = runner.run(sc, table, decisions=dec, trace=True)
    return {"ok": True, "scenario": sc, "decisions": {str(k): v for k, v in dec.items()}, "digest": best.digest, "tried": n,
            "v": viol_json(best.violations[0]), "trace": best.trace[-400:]}


def replay(task):
    faulthandler.dump_traceback_later(task.get("run_limit", 100), exit=True, file=sys.stderr)
    dec = task["decisions"]
    r = runner.run(task["scenario"], task["table"], decisions=None if dec is None else {int(k): v for k, v in dec.items()}, trace=True)
    faulthandler.cancel_dump_traceback_later()
    return {"digest": r.digest, "v": [viol_json(v) for v in r.violations], "harness_error": r.harness_error, "trace": r.trace[-400:],
            "decisions": {str(k): v for k, v in r.decisions.items()}}


def main():
    task = json.load(sys.stdin)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    r = {"search": search, "minimise": minimise, "replay": replay}[task["mode"]](task)
    tmp = task["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(r, f)
    os.replace(tmp, task["out"])


if __name__ == "__main__":
    main()
