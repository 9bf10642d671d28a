#!/usr/bin/env python3
"""Generates MANIFEST.json (kept in git; run after editing this file)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import props

TECH = "deterministic simulation with fault injection: seeded search over schedules, delays and faults of the real code"
NOTE = {
    "C01": "real pools' code over a model of multiprocessing; interleaving at every line of mlmc; every run judged by a model of what was calculated",
    "C02": "real PBS pool and real job script as simulated processes; PBS server is a model; kills at every file operation, torn writes",
    "C03": "values of every run compared with a reference table computed in one plain process; eight interpreter hash seeds",
    "C04": "simulated clock; running counts compared with the storage; bounded waiting",
    "C05": "more than twenty kinds of failing samples and malformed results in all pools; failing file operations while preparing workspaces",
    "C06": "kills at every storage or file operation; HDF file sessions are atomic under a crash (assumption)",
    "C07": "kills of the master at every file operation and command; PBS server and jobs live on",
    "C08": "scheduling histories, adaptive rounds, restarts",
    "C09": "renewals with crashes and new failures, all pools and storages",
    "C10": "storage histories, reopenings, both storages against one executable model",
    "C11": "estimates recomputed from the raw samples; object identity reuse and chunk size are seams",
    "C12": "simulated clock with jumps of the system clock; costs compared with the sum of simulated durations",
    "C13": "the simulation inspects its directory; the tree is compared with the stated rule at the end",
    "C14": "failures of qsub and qstat commands in all patterns up to and over the limit",
    "C15": "I/O errors at every write, resize or open of the HDF file, one or all from then on",
    "C16": "starts with equal and different formats, crashes during the start, logical content of the file compared",
    "C17": "random draws behind a seeded generator, chunk size as a knob; drawn samples are looked up among the collected ones",
    "C18": "real FlowSim, field generators and mesh files with models of gmsh and flow123d; failures of every kind in the fine or coarse run, full disk, crashes and restarts; the input of every solver run is compared with the mesh, with the other run of the pair and with the same sample calculated alone",
    "C19": "job scripts given to the model of qsub are read the way PBS reads them; packing judged from the samples the jobs really calculate",
}
checks = [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "exploration",
           "level_note": NOTE[p] + ". Sampled, not exhaustive; trusts the simulator and its stubs (listed in the evidence)."}
          for p in sorted(props.FAMS)]
PURE = "a pure function of its arguments: no schedule, clock, I/O, crash or other party for a simulator to act on"
na = [{"property": "C20", "reason": PURE + " (polynomial evaluation); in C11 moment functions only serve as given functions"},
      {"property": "C21", "reason": PURE + "; only its dependence on histories (cache, chunks, storage content) is decided, under C11"},
      {"property": "C22", "reason": "a numerical and statistical statement about the field generator; no concurrency, time or I/O"},
      {"property": "C23", "reason": "a numerical statement about an optimisation; no concurrency, time or I/O"},
      {"property": "C24", "reason": PURE + "; the scheduling done with these numbers is decided under C08"}]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sim check.py >/dev/null || true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams are at the standard library, h5py and subprocess, patched from /verif/sim while a simulated run is active. "
              "python3 check.py --replay FILE runs a replay file again."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
