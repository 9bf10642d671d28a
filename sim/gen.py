"""Scenario generation: plain data from a seed, weighted by the property under check."""
import copy
import random

from . import flow as flow_model
from . import testsim

PARAMS = [[0.5 ** k] for k in range(12)]


def _knobs(r):
    return {
        "gap_line": r.choice([8, 25, 80, 300, 1500, None]),
        "gap_step": r.choice([1.3, 2, 4, 12, 60, None]),
        "gap_pick": r.choice([1.01, 1.5, 3, None]),
        "gap_perm": r.choice([1.01, 2, 6, None]),
        "bufsize": r.choice([8192, 8192, 64, 512]),
        "chunk_rows": r.choice([0, 0, 1, 2, 3, 7]),
    }


def _targets(r, L, hi):
    return [r.choice([0, 1, 2, r.randint(0, hi), r.randint(0, hi)]) for _ in range(L)]


def base(seed, prop):
    r = random.Random("%s/%s" % (seed, prop))
    L = r.choice([1, 1, 2, 2, 2, 3, 3, 3, 4, 5]) if r.random() > 0.03 else r.choice([7, 11, 12])
    sc = {"seed": seed, "prop": prop, "params": PARAMS[:L], "fmt": r.choice(["one", "vec", "vec", "two", "mat"]),
          "task": [r.choice([0.01, 0.2, 0.34, 0.51, 1.5]) for _ in range(L)],
          "sim": {"salt": r.randrange(1 << 30), "p_fail": r.choice([0, 0, 0.1, 0.3, 0.7, 1.0]), "p_heal": r.choice([0, 0.5, 1.0]),
                  "p_nan": r.choice([0, 0, 0.2]), "dur": r.choice([0.001, 0.1, 1.0, 5.0]), "p_slow": r.choice([0, 0.1, 0.4]),
                  "fail_kinds": r.choice([["raise"], ["raise", "long"], testsim.BAD_RESULTS, testsim.FAIL_KINDS, testsim.FAIL_KINDS]),
                  "form": r.choice(testsim.FORMS)},
          "knobs": _knobs(r), "rules": [], "lives": []}
    return r, sc, L


def bundled(seed, prop, sc):
    """Some runs calculate with the simulation which comes with mlmc"""
    r = random.Random("%s/%s/synth" % (seed, prop))
    if r.random() < {"C03": 0.35, "C13": 0.15, "C01": 0.1}.get(prop, 0.03):
        sc["fmt"] = "synth"
        if sc["sim"].get("workspace"):
            sc["sim"]["n_common"] = max(1, sc["sim"].get("n_common", 1))
        if r.random() < 0.7:
            sc["sim"]["dur"] = 0            # nothing but the calculation: the samples of several threads overlap in it
            sc["knobs"]["gap_line"] = r.choice([2, 4, 8, 25])
    jumps(seed, prop, sc)
    # what samples leave in (or do to) their directories
    r = random.Random("%s/%s/litter" % (seed, prop))
    if sc["sim"].get("workspace") and r.random() < 0.5:
        sc["sim"]["p_litter"] = r.choice([0.1, 0.4, 1.0])


def jumps(seed, prop, sc):
    """Steps of the system clock while something goes on"""
    r = random.Random("%s/%s/jumps" % (seed, prop))
    if r.random() < {"C04": 0.4, "C12": 0.3, "C08": 0.1}.get(prop, 0.03):
        sc["jumps"] = sorted([round(10 ** r.uniform(-2, 1.7), 3), r.choice([-3600.0, -5.0, -0.5, 0.5, 7.0, 3600.0, 86400.0])]
                             for _ in range(r.randint(1, 4)))


def many(seed, prop, sc, L, ops):
    """Some runs calculate many samples: more than three digits of the ids, more than a job of PBS takes"""
    r = random.Random("%s/%s/many" % (seed, prop))
    if ops[0][0] != "initial" or L > 5 or sc["fmt"] == "big" or sc["sim"]["p_fail"] > 0.5:
        return
    p = {"C13": 0.04, "C02": 0.02, "C01": 0.02, "C07": 0.005, "C14": 0}.get(prop, 0.008)
    if r.random() < p:
        n = r.randint(101, 130)
        level = r.randrange(min(3, len(ops[0][1])))
        sc["task"] = [0.01] * L
        sc["many"] = True
        if prop in ("C02", "C01") and len(ops[0][1]) == L and not sc["sim"].get("workspace") and sc["pool"]["kind"] in ("pbs", "one") \
                and r.random() < (0.3 if sc["pool"]["kind"] == "one" else 0.06):
            n = r.randint(1001, 1100)
            sc["task"] = [0.0001] * L
        ops[0][1][level] = n
        sc["sim"]["dur"] = min(sc["sim"]["dur"], 0.1)
        sc["knobs"]["gap_line"] = r.choice([300, 1500, None])


def client_ops(r, L, hi, renew=True, adaptive=0.3, storage="hdf", n=None, naps=(0, 0, 0.05, 0.5)):
    ops = [["initial", [r.randint(1, hi) for _ in range(L)] if L != 2 else [r.randint(1, hi), r.randint(1, hi)]]]
    if r.random() < 0.3:
        ops = [["target", _targets(r, L, hi)]]
    elif r.random() < 0.1:
        ops = [["initial", r.choice([[r.randint(1, 3 * hi)], [r.randint(1, 2 * hi), r.randint(1, hi)], [r.randint(1, hi), r.randint(1, hi)]])]]
    for _ in range(n if n is not None else r.randint(1, 6)):
        k = r.random()
        if k < 0.25:
            ops.append(["schedule", r.choice([None, None, 0.001, 0.5, 3.0])])
        elif k < 0.45:
            ops.append(["poll", r.choice([1e-9, 0.01, 0.3, 2.0, 10.0]), r.choice(naps)])
        elif k < 0.55:
            ops.append(["target", _targets(r, L, hi)])
        elif k < 0.65:
            ops.append(["sleep", r.choice([0.05, 1.0, 7.0])])
        elif k < 0.75:
            ops.append(["wait", r.choice(naps)])
        elif k < 0.75 + 0.25 * adaptive:
            ops.append(["adaptive", [r.randint(0, hi) for _ in range(L)], r.choice([0.1, 0.3, 0.5, 1.0]), r.choice(naps),
                        r.choice([None, 1e-7, 0.2])])
        elif renew:
            ops.append(["renew"])
    return ops


def local(seed, prop):
    r, sc, L = base(seed, prop)
    sc["family"] = "L"
    kind = r.choice(["one", "proc", "proc", "thread", "thread"])
    sc["pool"] = {"kind": kind, "n": r.choice([1, 2, 2, 3, 4, 6]), "work_dir": True, "debug": False}
    sc["storage"] = r.choice(["memory", "hdf"])
    hi = r.choice([3, 6, 10])
    ws = prop == "C13" or r.random() < 0.15
    if ws and kind != "thread":
        sc["sim"]["workspace"] = True
        sc["sim"]["n_common"] = r.choice([0, 1, 2])
        sc["pool"]["debug"] = r.random() < 0.3
        if prop == "C13":
            hi = 8
    elif ws and prop == "C13":
        sc["pool"]["kind"] = "proc"
        sc["sim"]["workspace"] = True
        sc["sim"]["n_common"] = r.choice([0, 1, 2])
    elif r.random() < 0.5:
        sc["pool"]["work_dir"] = False
    if prop == "C05":
        sc["sim"]["p_fail"] = r.choice([0.1, 0.3, 0.6, 1.0])
        sc["sim"]["fail_kinds"] = r.choice([testsim.FAIL_KINDS, testsim.FAIL_KINDS, [r.choice(testsim.FAIL_KINDS)]])
        if sc["sim"].get("workspace") and r.random() < 0.4:
            sc["missing_common"] = True
        if sc["pool"]["kind"] == "proc" and r.random() < 0.5:
            sc["sim"]["fail_kinds"] = sc["sim"]["fail_kinds"] + ["unpick_res"]
        if sc["pool"]["kind"] == "proc" and r.random() < 0.15:
            sc["unpick_level"] = r.randrange(L)
    if prop == "C09":
        sc["sim"]["p_fail"] = r.choice([0.3, 0.6, 1.0])
    bundled(seed, prop, sc)
    ops = client_ops(r, L, hi, storage=sc["storage"], adaptive=1.0 if prop == "C08" else 0.3)
    many(seed, prop, sc, L, ops)
    end = [["heal"], ["schedule", None], ["wait", r.choice([0, 0, 0.2])]]
    if prop == "C09" or r.random() < 0.2:
        if prop == "C09":
            ops = ops[:4] + [["schedule", None], ["wait", 0]]
            for _ in range(r.randint(1, 3)):
                ops += [["renew"]] + ([["poll", r.choice([0.01, 1.0]), 0]] if r.random() < 0.5 else []) + \
                       ([["wait", 0]] if r.random() < 0.6 else []) + ([["target", _targets(r, L, hi)], ["schedule", None]] if r.random() < 0.3 else [])
        else:
            end += [["renew"], ["wait", 0]]
    if prop == "C12":
        sc["sim"]["p_fail"] = r.choice([0, 0, 0, 0.2])
        sc["sim"]["dur"] = r.choice([0.03, 0.3, 1.0, 5.0]) if not sc.get("many") else 0.03
        for _ in range(r.randint(0, 4)):
            ops.insert(r.randint(1, len(ops)), ["poll", r.choice([0.01, 0.1, 1.0]), r.choice([0, 0.01])])
        if r.random() < 0.5:
            ops.insert(r.randint(0, len(ops)), ["jump", r.choice([-3600.0, -5.0, 7.0, 86400.0])])
        end += [["cost"]]
    if prop == "C11":
        sc["sim"]["p_nan"] = r.choice([0, 0.2, 0.5])
        for _ in range(r.randint(1, 4)):
            ops.insert(r.randint(1, len(ops)), ["poll", r.choice([0.01, 0.1, 1.0]), r.choice([0, 0.01])])
        ops = [x for o in ops for x in ([o, ["estimate"]] if o[0] in ("poll", "wait", "renew", "adaptive") else [o])]
        end += [["estimate"]]
    sc["lives"] = [{"ops": ops + end}]
    if prop == "C12" and r.random() < 0.3:
        # orderly end and continuation by another process
        sc["storage"] = "hdf"
        first = client_ops(r, L, hi, adaptive=0.3)
        sc["lives"] = [{"ops": first + [["schedule", None], ["wait", 0], ["cost"]], "outage": 1.0}, {"ops": ops + end}]
    if prop == "C06" or (sc["storage"] == "hdf" and prop in ("C03", "C08", "C09") and r.random() < 0.4):
        sc["storage"] = "hdf"
        crashing(r, sc, L, hi, ops, end)
    return sc


def crashing(r, sc, L, hi, ops, end, naps=(0, 0, 0.05, 0.5)):
    """Several lives, each but the last one ended by a crash."""
    n = r.choice([1, 1, 2, 3])
    lives = []
    pbs = sc["family"] == "P"
    for k in range(n):
        o = client_ops(r, L, hi, n=r.randint(1, 5), adaptive=0.0, naps=naps)
        if k == 0 and r.random() < 0.7:
            o += [["schedule", None], ["poll", r.choice([0.01, 1.0, 5.0]), 0], ["wait", 0]]
        at = r.randint(0 if k == 0 else -1, len(o) - 1)
        busy = [i for i, x in enumerate(o) if x[0] in ("schedule", "poll", "wait", "renew")]
        if busy and r.random() < 0.8:
            at = r.choice(busy)
        lives.append({"ops": o, "crash": {"op": at, "step": 1 + int(2 ** r.uniform(0, r.choice([4.5, 6, 8]))), "torn": r.choice([0, 0, 0.3, 0.8])},
                      "outage": r.choice([0, 0, 0.5, 20.0, 500.0])})
        if sc["prop"] in ("C06", "C07") and not sc["sim"].get("workspace") and r.random() < 0.2:
            # a full disk instead of a sudden death
            lives[-1]["crash"]["io"] = r.choice([1, 1, 2, 1000])
    end = [e for e in end if e[0] != "cost"]
    o = client_ops(r, L, hi, n=r.randint(0, 3), adaptive=0.0, naps=naps)
    lives.append({"ops": o + end})
    sc["lives"] = lives
    if pbs:
        sc["pool"]["debug"] = True
    return sc


def pbs(seed, prop):
    r, sc, L = base(seed, prop)
    sc["family"] = "P"
    sc["pool"] = {"kind": "pbs", "debug": r.random() < 0.3}
    sc["storage"] = r.choice(["memory", "hdf", "hdf"])
    hi = r.choice([3, 6, 8])
    if r.random() < 0.15:
        sc["fmt"] = "big"
        hi = 3
    sc["sim"]["workspace"] = prop == "C13" or r.random() < 0.2
    if sc["sim"]["workspace"]:
        sc["sim"]["n_common"] = r.choice([0, 1, 2])
    if prop == "C05":
        sc["sim"]["p_fail"] = r.choice([0.1, 0.3, 0.6, 1.0])
        sc["sim"]["fail_kinds"] = r.choice([testsim.FAIL_KINDS, testsim.FAIL_KINDS, [r.choice(testsim.FAIL_KINDS)]])
        if sc["sim"].get("workspace") and r.random() < 0.4:
            sc["missing_common"] = True
    if prop == "C09":
        sc["sim"]["p_fail"] = r.choice([0.3, 0.6, 1.0])
    if r.random() < (0.4 if prop in ("C02", "C07", "C12") else 0.1):
        sc["task"] = [0.01] * L             # all samples in one job
    bundled(seed, prop, sc)
    sc["pbs"] = {"salt": r.randrange(1 << 20), "first_id": r.choice([1, 8, 12, 95, 998, 123456]),
                 "id_steps": r.choice([[1], [1, 100], [9, 90], [100, 1], [3, 17, 1000]]),
                 "queue": r.choice([0.0, 0.5, 5.0, 30.0]), "lag": r.choice([0, 0, 1.0, 20.0]), "slots": r.choice([1, 2, 100]),
                 "forget": r.random() < 0.4, "names": bool(seed % 2), "qsub": {}, "qstat": {}, "jobs": {}}
    slow = sc["pbs"]["queue"] >= 5 or sc["pbs"]["lag"] >= 5
    naps = [0, 0, 1.0, 4.0] if slow else [0, 0, 0.05, 0.5]
    ops = client_ops(r, L, hi, storage=sc["storage"], adaptive=1.0 if prop == "C08" else 0.3, naps=naps)
    many(seed, prop, sc, L, ops)
    end = [["heal"], ["schedule", None], ["wait", r.choice(naps)]]
    if prop == "C09":
        ops = ops[:3] + [["schedule", None], ["wait", 0]]
        for _ in range(r.randint(1, 3)):
            ops += [["renew"]] + ([["poll", r.choice([0.01, 1.0]), 0]] if r.random() < 0.5 else []) + ([["wait", 0]] if r.random() < 0.6 else [])
    if prop in ("C02", "C07") and r.random() < (0.85 if prop == "C02" else 0.4) or prop in ("C03", "C04", "C13", "C05") and r.random() < 0.3:
        for _ in range(r.randint(1, 4)):
            j = {"torn": r.choice([0, 0, 0.2, 0.5, 0.9, 1.0]), "requeue": r.random() < 0.35}
            if r.random() < 0.15:
                j["when"] = "queued"
            elif r.random() < 0.25:
                j["fail"] = 1 + int(2 ** r.uniform(0, r.choice([4, 6])))
                j["more"] = r.choice([1, 1, 2, 1000])
            else:
                j["kill"] = 1 + int(2 ** r.uniform(0, r.choice([4, 5.5, 7])))
            sc["pbs"]["jobs"][str(r.choice([0, 0, 0, 1, 1, 2, 3, 4, 5]))] = j
        r1 = random.Random("%s/%s/torn" % (seed, prop))
        for j in sc["pbs"]["jobs"].values():
            if "kill" in j and r1.random() < 0.4:
                # at a write, most of them are results
                del j["kill"]
                j["kill_write"] = r1.randint(1, r1.choice([2, 6, 20]))
                j["torn"] = round(r1.random(), 3)
    if prop == "C14" or prop in ("C02", "C04", "C07") and r.random() < 0.25:
        for kind in ("qsub", "qstat"):
            p = r.choice([0, 0.1, 0.4, 0.8])
            i = 0
            while i < 60:
                if r.random() < p:
                    n = r.choice([1, 2, 5, 9, 10, 10, 11, 12, 15, 25]) if prop == "C14" else r.choice([1, 2, 5])
                    for k in range(i, i + n):
                        sc["pbs"][kind][str(k)] = "reject" if r.random() < 0.7 or sc["sim"]["workspace"] else "lostack"
                        if kind == "qstat":
                            sc["pbs"][kind][str(k)] = "fail"
                    i += n
                i += r.randint(1, 6)
    if prop == "C12":
        sc["sim"]["p_fail"] = r.choice([0, 0, 0, 0.2])
        sc["sim"]["dur"] = r.choice([0.03, 0.3, 1.0, 5.0]) if not sc.get("many") else 0.03
        if r.random() < 0.5:
            ops.insert(r.randint(0, len(ops)), ["jump", r.choice([-3600.0, -5.0, 7.0, 86400.0])])
        end += [["cost"]]
    if prop == "C19":
        job_setting(seed, sc, L, ops)
    sc["lives"] = [{"ops": ops + end}]
    if prop == "C07" or prop in ("C03", "C08", "C09", "C06") and r.random() < 0.35:
        sc["storage"] = "hdf"
        sc["pbs"]["forget"] = False
        crashing(r, sc, L, hi, ops, end, naps)
    elif prop == "C14":
        # more failures than tolerated end the process; it is started again
        sc["storage"] = "hdf"
        sc["pool"]["debug"] = True
        sc["pbs"]["forget"] = False
        sc["lives"] = [{"ops": ops, "outage": 1.0} for _ in range(3)] + [{"ops": [["target", _targets(r, L, hi)]] + end}]
    elif prop == "C12" and r.random() < 0.4:
        # orderly end with jobs running and continuation by another process
        sc["storage"] = "hdf"
        sc["pool"]["debug"] = True
        sc["pbs"]["forget"] = False
        sc["lives"] = [{"ops": ops, "outage": r.choice([0, 1.0, 50.0])},
                       {"ops": client_ops(r, L, hi, renew=False, adaptive=0.0, naps=naps, n=r.randint(0, 3)) + end}]
    return sc


def job_setting(seed, sc, L, ops):
    """Setting of the PBS jobs, numbers and sizes of samples around the limits of a job, some failures of qsub"""
    r = random.Random("%s/job" % seed)
    t = sc["pbs"]["setting"] = {
        "n_nodes": r.choice([1, 2]), "n_cores": r.choice([1, 4]), "mem": r.choice(["128mb", "2Gb"]), "queue": r.choice(["q", "charon_2h", "gpu@meta-pbs"]),
        "walltime": r.choice(["00:10:00", "48:00:00"]), "pbs_name": r.choice(["mlmc", "flow_1"]),
        "env_setting": r.choice([[], ["cd $MLMC_WORKDIR"], ["cd $MLMC_WORKDIR", "module load python36-modules-gcc", "source env/bin/activate"]]),
        "optional_pbs_requests": r.choice([[], ["#PBS -m ae"], ["#PBS -m ae", "#PBS -W group_list=x"]])}
    if r.random() < 0.5:
        t["select_flags"] = r.choice([[], ["cgroups=cpuacct"], ["cgroups=cpuacct", "scratch_local=10gb"]])
    if r.random() < 0.5:
        t["python"] = r.choice(["python3", "/usr/bin/python3.9"])
    if not sc.get("many"):
        sc["task"] = [r.choice([0.01, 0.2, 0.25, 0.34, 0.5, 0.51, 1.0, 1.5, 0.05] if k else [0.25, 0.5, 1.0]) for k in [r.random() < 0.7] for _ in range(L)]
        if r.random() < 0.03 and L <= 3 and ops[0][0] == "initial" and not sc["sim"].get("workspace") and sc["fmt"] != "big" and sc["sim"]["p_fail"] < 0.5:
            sc["many"] = True
            sc["task"] = [r.choice([0.0001, 0.0005, 0.001])] * L
            ops[0][1][r.randrange(len(ops[0][1]))] = r.choice([1000, 1001, 1002, 1040])
            sc["sim"]["dur"] = 0.001
            sc["knobs"]["gap_line"] = r.choice([1500, None])
    if r.random() < 0.3:
        for _ in range(r.randint(1, 3)):
            sc["pbs"]["qsub"][str(r.randrange(10))] = "reject"


# ------------------------------------------------------------------------------------------------ flow simulation
def flow(seed, prop):
    """FlowSim with external programs, in a pool of any kind which has directories for the samples"""
    r0 = random.Random("%s/%s/flow" % (seed, prop))
    pbs_pool = r0.random() < 0.4
    r, sc, L = base(seed, prop)
    L = min(L, 3)
    sc["params"] = PARAMS[:L]
    sc["task"] = sc["task"][:L]
    sc["family"] = "P" if pbs_pool else "L"
    sc["fmt"] = "flow"
    sc["storage"] = r.choice(["memory", "hdf", "hdf"])
    sc["sim"].update(workspace=True, n_common=0, p_nan=0, form="array", dur=r.choice([0, 0.1, 1.0]),
                     p_fail=r.choice([0, 0, 0.2, 0.5, 0.8]), fail_kinds=r.choice([flow_model.KINDS, flow_model.KINDS, ["raise"] + flow_model.KINDS, [r.choice(flow_model.KINDS)]]))
    sc["flow"] = {"model": r.choice(flow_model.MODELS), "corr": r.choice([0.1, 0.5]), "sigma": r.choice([1, 1, 4]),
                  "log": r.random() < 0.7, "gmsh_version": r.choice([1, 2]), "time_factor": r.choice([1.0, 0.25]), "gmsh": {}}
    hi = r.choice([2, 4])
    ops = client_ops(r, L, hi, storage=sc["storage"])
    end = [["heal"], ["schedule", None], ["wait", r.choice([0, 0.2])]]
    if r.random() < 0.3:
        end += [["renew"], ["wait", 0]]
    if pbs_pool:
        sc["pool"] = {"kind": "pbs", "debug": r.random() < 0.3}
        sc["pbs"] = {"salt": r.randrange(1 << 20), "first_id": 8, "id_steps": [1], "queue": r.choice([0.0, 0.5, 5.0]), "lag": r.choice([0, 1.0]),
                     "slots": r.choice([1, 2, 100]), "forget": False, "names": bool(seed % 2), "qsub": {}, "qstat": {}, "jobs": {}}
        if r.random() < 0.3:
            for _ in range(r.randint(1, 3)):
                sc["pbs"]["jobs"][str(r.choice([0, 0, 1, 2, 3]))] = {"kill": 1 + int(2 ** r.uniform(0, 7)), "torn": r.choice([0, 0.5, 1.0]),
                                                                     "requeue": r.random() < 0.35}
    else:
        sc["pool"] = {"kind": r.choice(["one", "proc", "proc"]), "n": r.choice([1, 2, 3]), "work_dir": True, "debug": r.random() < 0.3}
    sc["lives"] = [{"ops": ops + end}]
    k = r.random()
    if k < 0.35:
        sc["storage"] = "hdf"
        crashing(r, sc, L, hi, ops, end)
    elif k < 0.5:
        # an orderly end and another process, which does not clean
        sc["storage"] = "hdf"
        sc["pool"]["debug"] = True
        sc["lives"] = [{"ops": ops + [["schedule", None], ["wait", 0]], "outage": 1.0},
                       {"ops": client_ops(r, L, hi, adaptive=0.0, n=r.randint(0, 3)) + end}]
    elif k < 0.63:
        # the mesh generator fails, the user starts again
        sc["flow"]["gmsh"] = {str(r.randrange(L)): r.choice(["fail", "torn", "torn", "missing"])}
        sc["lives"] = [{"ops": ops + end}, {"ops": ops + end}]
    if r.random() < 0.2:
        # disk of the computing node
        sc["rules"].append({"on": r.choice(["write", "open:w"]), "in_sample": True, "path": "/fields_sample", "nth": r.choice([0, 1, 2, 5]), "more": r.choice([1, 1, 2, 1000])})
        if r.random() < 0.3:
            sc["rules"].append({"on": "open:r", "in_sample": True, "path": "/water_balance", "nth": r.choice([0, 1, 2, 5]), "more": r.choice([1, 2]), "errno": 5})
    return sc


# ------------------------------------------------------------------------------------------------ storage histories
def storage(seed, prop):
    r = random.Random("%s/%s/S" % (seed, prop))
    L = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5]) if r.random() > 0.04 else r.choice([7, 11, 12])
    sc = {"seed": seed, "prop": prop, "family": "S", "params": PARAMS[:L], "fmt": r.choice(["one", "vec", "two", "mat", "big"]),
          "knobs": _knobs(r), "rules": [], "ops": []}
    hi = r.choice([2, 5, 12, 30])
    msgs = r.choice([["short"], ["short", "long"], ["uni", "empty"], ["short", "long", "uni", "empty"]])
    p_nan = r.choice([0, 0, 0.3])
    p_fail = {"C10": 0.0, "C15": r.choice([0.15, 0.4, 0.8]), "C06": r.choice([0.1, 0.3, 0.6])}.get(prop, 0.2)
    ops = sc["ops"]
    for l in range(L):
        if r.random() < 0.8:
            ops.append({"op": "sched", "level": l, "n": r.randint(0, hi)})
    for _ in range(r.randint(2, 14)):
        k = r.random()
        if k < 0.25:
            ops.append({"op": "sched", "level": r.randrange(L), "n": r.choice([0, 1, r.randint(0, hi)])})
        elif k < 0.65:
            lv = sorted(r.sample(range(L), r.randint(1, L)))
            ops.append({"op": "save", "seed": r.randrange(1 << 30), "p_nan": p_nan, "msgs": msgs, "empty": r.random() < 0.2,
                        "levels": [[l, r.choice([0, 1, r.randint(0, hi)]), r.choice([0, 0, 1, r.randint(0, hi)])] for l in lv]})
        elif k < 0.78:
            lv = r.sample(range(L), r.randint(1, L))
            ops.append({"op": "nops", "data": [[l, r.choice([0.0, 0.25, 3.5, 1000.125]), r.choice([0, 1, 3, 10])] for l in lv]})
        elif k < 0.86:
            ops.append({"op": "clear"})
        elif k < 0.95:
            ops.append({"op": "reopen", "glob": r.random() < 0.6})
        else:
            ops.append({"op": "query"})
    for o in ops:
        if r.random() >= p_fail or o["op"] == "query":
            continue
        if prop == "C06":
            o["fault"] = {"kind": "kill", "step": 1 + int(2 ** r.uniform(0, 5.5))}
        elif prop == "C15" and o["op"] in ("sched", "save", "clear"):
            if r.random() < 0.35:
                o["fault"] = {"kind": "err", "on": r.choice(["h5w.resize", "h5w.set", "h5w.create", "h5w.attr"]), "nth": r.randint(0, 3), "more": 1000}
            else:
                o["fault"] = {"kind": "err", "on": r.choice(["h5.open:a", "h5.open:r", "h5w.resize", "h5w.set", "h5w.create", "h5w."]),
                              "nth": r.choice([0, 0, 1, 2, 3, 5])}
            o["reopen_after"] = r.random() < 0.3
    return sc


# ------------------------------------------------------------------------------------------------ result formats
NAMES = ["length", "w", "pressure head", "x" * 50, "T_0", "flux [a]"]
UNITS = ["m", "", "kg/m^3", "u" * 50]


def _fmt(r):
    nq = r.choice([1, 1, 2, 3])
    nt, nl = r.choice([1, 1, 2, 3]), r.choice([1, 2, 2, 3])
    coords = r.random() < 0.35
    out = []
    names = r.sample(NAMES, nq)
    for q in range(nq):
        times = sorted(r.sample([0, 0.5, 1, 2, 1e-3, 1 / 3.0, 7.25, 1e6], nt))
        if coords:
            loc = [[float(r.randint(-3, 3)) for _ in range(3)] for _ in range(nl)]
            while len({tuple(x) for x in loc}) < nl:
                loc = [[float(r.randint(-3, 3)) for _ in range(3)] for _ in range(nl)]
        else:
            loc = r.sample(["10", "20", "30", "a", "bb", "south", "east boundary", "z" * 50], nl)
        out.append([names[q], r.choice(UNITS), [r.choice([1, 1, 2, 3]), r.choice([1, 1, 2])], times, loc])
    return out


def _mutate(r, fmt):
    """Another format: (format, what has been changed)"""
    f = copy.deepcopy(fmt)
    k = r.choice(["name", "name_case", "unit", "shape", "shape_swap", "time", "time_small", "n_times", "times_prefix", "loc", "loc_order", "n_loc",
                  "loc_prefix", "loc_kind", "add_q", "drop_q", "order_q", "dup_q"])
    q = r.randrange(len(f))
    all_q = range(len(f))
    if k == "name":
        f[q][0] = r.choice([n for n in NAMES if n != f[q][0]])
    elif k == "name_case":
        f[q][0] = f[q][0][:-1] + ("q" if f[q][0][-1] != "q" else "p")
    elif k == "unit":
        f[q][1] = r.choice([n for n in UNITS if n != f[q][1]])
    elif k == "shape":
        f[q][2][r.randrange(2)] += 1
    elif k == "shape_swap":
        f[q][2] = f[q][2][::-1]
    elif k == "time":
        f[q][3][r.randrange(len(f[q][3]))] += 100.0
    elif k == "time_small":
        i = r.randrange(len(f[q][3]))
        f[q][3][i] = f[q][3][i] * (1 + 1e-6) + 1e-9
    elif k == "n_times":
        for i in all_q:
            f[i][3].append(f[i][3][-1] + 1)
    elif k == "times_prefix":
        for i in all_q:
            f[i][3] = f[i][3][:1]
    elif k == "loc":
        i = r.randrange(len(f[q][4]))
        f[q][4][i] = "other" if isinstance(f[q][4][i], str) else [9.0, 9.0, 9.0]
    elif k == "loc_order":
        f[q][4] = f[q][4][::-1]
    elif k == "n_loc":
        for i in all_q:
            f[i][4].append("more" if isinstance(f[i][4][0], str) else [8.0, 8.0, 8.0])
    elif k == "loc_prefix":
        for i in all_q:
            f[i][4] = f[i][4][:1]
    elif k == "loc_kind":
        for i in all_q:
            f[i][4] = [[float(j), 0.0, 1.0] for j in range(len(f[i][4]))] if isinstance(f[i][4][0], str) else ["p%d" % j for j in range(len(f[i][4]))]
    elif k == "add_q":
        f.append(copy.deepcopy(f[-1]))
        f[-1][0] = "added"
    elif k == "dup_q":
        f.append(copy.deepcopy(f[-1]))
    elif k == "drop_q":
        if len(f) > 1:
            f.pop(q)
    elif k == "order_q":
        f = f[::-1]
    return f, k


def formats(seed, prop):
    r = random.Random("%s/%s/F" % (seed, prop))
    L = r.choice([1, 2, 3, 3, 5])
    base_f = _fmt(r)
    sc = {"seed": seed, "prop": prop, "family": "F", "params": PARAMS[:L], "base": base_f, "knobs": _knobs(r), "rules": [], "lives": []}
    for k in range(r.randint(2, 6)):
        same = k == 0 or r.random() < 0.45
        f, ch = (base_f, "same") if same else _mutate(r, base_f)
        if f == base_f:
            ch = "same"
        life = {"fmt": f, "change": ch, "kill": None, "n": [r.randint(1, 4) for _ in range(L)] if r.random() < 0.6 else None}
        if r.random() < (0.4 if k == 0 else 0.25):
            life["kill"] = 1 + int(2 ** r.uniform(0, 6.5))
        sc["lives"].append(life)
    if not any(l["fmt"] == base_f and l["kill"] is None for l in sc["lives"]):
        sc["lives"].append({"fmt": base_f, "change": "same", "kill": None, "n": None})
    return sc


# ------------------------------------------------------------------------------------------------ estimates
def _expr(r, fmt, depth=0):
    spec = testsim.FORMATS[fmt]
    n, u, s, t, l = r.choice(spec)
    k = r.random()
    elem = ["elem", n, r.choice(t), r.choice(l), [r.randrange(s[0]), r.randrange(s[1])]]
    if k < 0.12:
        return ["root"]
    if k < 0.2:
        return ["item", n]
    if k < 0.28 and len(t) > 1:
        v = t[0] + (t[-1] - t[0]) * r.choice([0.2, 0.55, 0.85])     # between two times: NaN at other times does not matter
        return ["interp", n, v] + ([r.choice(l)] if r.random() < 0.6 else [])
    if k < 0.36:
        return ["time", n, r.choice(t)]
    if k < 0.44:
        return ["loc", n, r.choice(t), r.choice(l)]
    if depth > 1 or k < 0.6:
        return elem
    if k < 0.75:
        x = _expr(r, fmt, depth + 1)
        if r.random() < 0.5:
            return ["arith", "affine", x, r.choice([2.0, -0.5, 0.25]), r.choice([0.0, 1.0, -3.0])]
        a = ["time", n, r.choice(t)], ["time", n, r.choice(t)]
        return ["arith", r.choice(["add", "sub", "mul"]), a[0], a[1]]
    if k < 0.82:
        return ["ufunc", r.choice(["sin", "abs", "maximum"]), _expr(r, fmt, depth + 1)]
    if k < 0.9:
        return ["array", [["loc", n, r.choice(t), r.choice(l)] for _ in range(r.randint(1, 3))]]
    return ["select", _expr(r, fmt, 2), elem, r.choice([-1.0, 0.0, 1.0])]


def estimates(seed, prop):
    r = random.Random("%s/%s/E" % (seed, prop))
    n_st = r.choice([1, 2, 2, 3])
    stores = [{"kind": r.choice(["mem", "hdf", "hdf"]), "fmt": r.choice(["one", "vec", "two", "mat"]), "L": r.choice([1, 2, 3, 3, 4])} for _ in range(n_st)]
    if n_st > 1 and r.random() < 0.7:
        for s in stores[1:]:
            s["fmt"], s["L"] = stores[0]["fmt"], stores[0]["L"]
    sc = {"seed": seed, "prop": prop, "family": "E", "params": PARAMS[:1], "stores": stores, "knobs": _knobs(r), "rules": [], "ops": []}
    hi = r.choice([2, 5, 15, 40])
    p_nan = r.choice([0, 0, 0.1, 0.4])
    ops = sc["ops"]
    if prop == "C17":
        sc["knobs"]["chunk_rows"] = r.choice([1, 2, 3, 7, 0])

    def add(s, least=0):
        ops.append({"op": "add", "s": s, "seed": r.randrange(1 << 30), "p_nan": p_nan,
                    "levels": [[l, r.randint(least, hi) if r.random() < 0.8 else least, r.choice([0, 0, 1, 3])] for l in range(stores[s]["L"])]})
    for s in range(n_st):
        add(s, 1)
    names = ["a", "b", "c"]
    exprs = {}
    for _ in range(r.randint(4, 18)):
        k = r.random()
        s = r.randrange(n_st)
        if k < 0.2:
            add(s)
        elif k < 0.45:
            nm = r.choice(names)
            # the same expression over another storage is what a stale cache would confuse
            e = r.choice(list(exprs.values())) if exprs and r.random() < 0.6 and len({x["fmt"] for x in stores}) == 1 else _expr(r, stores[s]["fmt"])
            if prop == "C17" and r.random() < 0.4:
                n, u, sh, t, l = r.choice(testsim.FORMATS[stores[s]["fmt"]])
                e = ["elem", n, r.choice(t), r.choice(l), [r.randrange(sh[0]), r.randrange(sh[1])]]
            exprs[nm] = e
            if r.random() < 0.7:
                ops.append({"op": "del", "name": nm})
            ops.append({"op": "mk", "name": nm, "s": s, "expr": e})
        elif k < 0.52:
            ops.append({"op": "del", "name": r.choice(names)})
        elif k < 0.6:
            ops.append({"op": "reopen", "s": s})
        else:
            nm = r.choice(names)
            kind = r.choice(["mean", "mean", "mean", "moments", "cov", "moments_top", "diff_vars", "domain", "level"])
            if prop == "C17":
                kind = r.choice(["subsample", "subsample", "subsample", "bootstrap"])
                if "select" in str(exprs.get(nm)):
                    kind = "mean"           # the numbers of collected and selected samples differ
            o = {"op": "est", "name": nm, "kind": kind}
            if kind in ("subsample", "bootstrap"):
                o["frac"] = [r.choice([0.01, 0.2, 0.5, 0.8, 1.0]) for _ in range(3)]
                o["draws"] = r.choice([2, 3, 5])
                o["moments"] = ["leg", 3, [-50, 50], True]
                o["new"], o["keep"] = r.random() < 0.5, r.random() < 0.4
                if kind == "subsample" and r.random() < 0.15 and hi <= 5:
                    o.update(frac=[1.0], draws=45, keep=False)
            if kind in ("moments", "cov", "moments_top", "diff_vars"):
                o["moments"] = [r.choice(["mono", "leg"]), r.choice([2, 3, 5]), r.choice([[-3, 6], [-1, 4], [-50, 50]]), r.random() < 0.7]
            if kind == "domain":
                o["quantile"] = r.choice([None, 0.01, 0.1, 0.25])
            if kind == "level":
                o["n_one"] = r.random() < 0.3
            ops.append(o)
            if r.random() < 0.3:
                ops.append(dict(o, kind="mean"))
    return sc
