#!/usr/bin/env python3
"""Generates known_findings.json (kept in git; run after editing this file)."""
import json
import os

K = {"gap_line": None, "gap_step": None, "gap_pick": 3, "gap_perm": None, "bufsize": 8192, "chunk_rows": 0}
MIX = [["p", "m", [1, 1], [0.0, 1.0], ["a", "b"]], ["q", "m", [1, 1], [2.0], ["a", "b"]]]
KNOWN = [
    {"property": "C16", "status": "known",
     "what": "quantities with different numbers of times: the HDF file keeps every quantity with as many times as the first one has (the single "
             "time is repeated), so continuing with the same format is refused",
     "scenario": {"seed": 0, "prop": "C16", "family": "F", "params": [[1.0]], "base": MIX, "knobs": K, "rules": [],
                  "lives": [{"fmt": MIX, "change": "same", "kill": None, "n": [2]}, {"fmt": MIX, "change": "same", "kill": None, "n": None}]},
     "oracle": "same_refused", "match": "start 1 with the same format refused"},
]
FIXED = """C01 0785a91 results arriving while the queues were drained were dropped or attributed to another level
C12 9edd241 every poll added the accumulated calculation time again; time.time steps distorted it
C05 274d229 a failed sample could stay behind a successful one, its error in the place of a result
C05 0dbebe0 a workspace that cannot be prepared, exit() in the simulation and non-numeric results broke the sampling
C13 de1fae0 files of an earlier attempt stayed in the workspace
C10 157df4a Memory: counts of finished and collected samples
C12 3f63c24 the cost per sample was the last value instead of the average; storages differed
C09 e77db71 failed samples could not be renewed with the Memory storage
C10 63cc2d4 HDF: levels without samples broke the queries
C11 d5684ff the domain was estimated from the last level only
C11 00c5ae6 sample cache: values of a deleted quantity were used for a new one at the same address
C15 06c3f46 a failed append left ids without values or blank rows
C15 535c563 a failed save_samples could not be repeated without duplicates
C05 659c5b8 a non-ASCII error message broke storing of the failed samples
C16 bd2eaad+d0c1679 formats whose locations are a subset or permutation of the stored ones, or other coordinates, were accepted
C16 2bb355d a start interrupted while creating the file made it unusable
C06 4186787 samples were started before they were recorded as scheduled
C02 5826a18 only some of the PBS jobs were checked
C04 4bae686 samples not yet submitted were not counted as running
C07 dbe9ec4 a restarted pool numbered jobs from the wrong number and overwrote files
C12 986e5eb PBS jobs measured with the system clock
C02 6b50915 a half-written result was read as a result
C02 db52947 a rerun of a job appended to the results of its first run
C07 6ecbdae files shared with running jobs were rewritten in place
C07 26fa999 resuming lost or repeated samples of jobs of the dead process
C15 a57d72a clear_failed interrupted by a failed write lost the data set
C10 2149d6c Memory: empty batches
C05 74aae6a a result of another shape with the right number of elements stopped saving of all results
C17 e094e95 bootstrap estimates always raised an exception
C17 c6d00f2 the number of samples of a subsample was wrong when a level has more chunks
C03 2e10205 SynthSimulation in a thread pool: another thread reseeded the shared distribution before the value was drawn
C18 bb69392 the output of a solver that had failed or been killed was taken as the result of the sample
C18 232bdc1 sampling went on with an incomplete mesh of a failed mesh generator
C18 297e399 every sample of a start without cleaning failed, the used fields were not known
C18 80bfff6 random fields did not depend on the seed of the sample (gstools and Fourier fields)
C13 47b2745 a dangling link left by a sample kept its directory in the output directory
C02 c3b87f9 files of a sample which could not be moved ended the PBS job, its other samples were lost""".splitlines()

out = KNOWN + [{"property": l[:3], "status": "fixed", "what": "fixed: property=%s %s" % (l[:3], l[4:])} for l in FIXED]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
