#!/usr/bin/env python3
"""Generates properties.jsonl (kept in git; run after editing this file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SP, SPP, PJ, SA, SM, SH, H5 = ("mlmc/sampling_pool.py", "mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py", "mlmc/sampler.py",
                               "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py")

prop("C01", "Local pools record every scheduled sample exactly once",
 "Whatever the number of workers, the order in which they finish and the moments at which the caller polls, once waiting without a time limit returns, every sample scheduled through the single-process, process or thread pool is stored exactly once, as a collected result if its calculation succeeded and as a failed sample otherwise, in the in-memory and in the HDF storage alike. No sample is lost, duplicated, attributed to another level or invented, and the per-level counts of finished and collected samples that the storage reports agree with that.",
 ["schedules", "configurations", "histories"],
 "all interleavings of worker completions, result callbacks and caller polls; all pool kinds and sizes, both storages, all target sequences, all mixtures of succeeding and failing samples",
 "tests run one pool size and whatever interleaving the OS gives, and only check that some result came back; the race between result delivery and polling is never forced",
 [SP, SA, SM, SH], [("result callbacks fill per-level queues, polling drains them", SP + ": OneProcessPool._process_result/get_finished"), ("storing", SA + ": ask_sampling_pool_for_samples/_store_samples")],
 ["SampleStorage.load_scheduled_samples", "sample_pairs", "failed_samples", "n_finished", "get_n_collected", "unfinished_ids"])

prop("C02", "PBS pool records every scheduled sample exactly once despite job deaths",
 "For every order and delay in which PBS queues, starts, kills or reruns the jobs, once nothing is running any more every scheduled sample has been stored exactly once, as collected or as failed: a result that a job had completely written before it died is collected with that result; a sample whose job died before its result was written is reported as failed, and a half-written result is never collected. A job that PBS runs again starts over, so that only its last run counts.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "all job orders, queue delays, job deaths at any file operation (including in the middle of writing a result), requeues, and poll cadences",
 "no PBS server is available to the tests at all (the PBS tests are excluded); a job dying between two writes has never been exercised",
 [SPP, PJ, SA], [("job files: scheduled list, result files, job id/PBS id link", PJ), ("result collection and missing-sample rule", PJ + ": read_results"), ("queue state", SPP + ": _qstat_pbs_job/_get_result_files")],
 ["SampleStorage API after waiting", "values stored for each sample"])

prop("C03", "A sample's stored result depends only on its id and level configuration",
 "The seed handed to the simulation, and with it the stored fine and coarse result, is a function of the sample id and of the level's own and next coarser parameters only: it is the same for every pool, worker, batch, retry, restart and interpreter process, and distinct samples of a run get distinct seeds. The fine and coarse parts of one stored pair come from the same evaluation of the same sample, and the coarse part on the coarsest level is absent.",
 ["schedules", "histories", "configurations", "crash_points"],
 "all pools, schedules, batch compositions, retries and restarts",
 "tests compare no value across pools, restarts or processes; they check shapes and coarse statistics",
 [SP, SPP, PJ, SA, "mlmc/sim/synth_simulation.py"], [("seed derived from the sample id", SP + ": SamplingPool.compute_seed"), ("seed passed through the job files", PJ + ": calculate_samples"), ("level wiring", SA + ": _create_level_sim_objects")],
 ["arguments seen by the simulation", "sample_pairs"])

prop("C04", "Waiting returns: truthful running count, no early end, no hang",
 "The number of running samples returned by asking the pool for samples equals the number of scheduled samples that are not stored yet, so it is zero only when nothing is outstanding. With a positive time limit the call returns with work outstanding only after the limit has passed, and no later than the limit plus one polling round; without a limit it returns only when nothing is outstanding, within two polling rounds after the last sample is done, for every worker speed, as long as every simulation terminates.",
 ["schedules", "fault_sequences", "configurations"],
 "all worker delays, poll cadences, time limits and queue states, including jobs that are accepted late or sit in the queue for long",
 "needs forced slow workers, queued jobs and many poll instants; tests only ever wait to the end with fast simulations",
 [SA, SP, SPP], [("wait loop", SA + ": ask_sampling_pool_for_samples"), ("running counter", SP + ": OneProcessPool"), ("running counter", SPP + ": _get_result_files")],
 ["return value of Sampler.ask_sampling_pool_for_samples", "simulated clock"])

prop("C05", "A failing sample fails alone",
 "When the calculation of one sample fails in any way - it raises or exits, returns a non-numeric result or one of the wrong length, cannot have its workspace prepared, returns something that cannot be sent back from the worker, or raises with an arbitrarily long or non-ASCII message - exactly this sample is reported as failed and no other sample is affected. Sampling goes on, waiting ends, and the failure never turns into a stored result.",
 ["inputs", "schedules", "fault_sequences"],
 "all kinds, positions and numbers of failing samples in all pools and both storages",
 "the tests contain only one failure kind (an exception for a NaN result) and never combine it with concurrency or the result transport",
 [SP, PJ, SA, SH, H5], [("exception capture", SP + ": SamplingPool.calculate_sample"), ("error transport", SP + ": ProcessPool.schedule_sample"), ("failed queue / failed data set", SP + ", " + H5 + ": append_failed")],
 ["failed_samples", "sample_pairs", "exceptions seen by the caller"])

prop("C06", "Samples recorded in the HDF storage survive a crash of the sampling process",
 "If the sampling process dies at any instant, reopening the HDF file gives every sample whose storing had completed, with its value, and every sample id recorded as scheduled; nothing is duplicated and each collected id still goes with its own value. Sampling continued on the reopened file never issues a recorded sample id a second time.",
 ["crash_points", "histories", "schedules"],
 "all crash points between file sessions of all operations, any number of crash-restart cycles, all pools",
 "tests reopen the file only after an orderly end; a crash between the two halves of storing a result is never simulated",
 [SH, H5, SA], [("append to data sets", H5 + ": LevelGroup"), ("reload", SH + ": __init__, " + SA + ": __init__"), ("scheduled ids recorded", SA + ": schedule_samples")],
 ["reopened SampleStorageHDF", "documented HDF data sets"])

prop("C07", "A crashed PBS run is resumed without losing or repeating samples",
 "After the sampling process dies at any instant and is started again on the same HDF file and the same (kept) working directory, results of jobs whose submission had been acknowledged are collected whether the jobs finished before, during or after the outage, each scheduled sample ends stored exactly once, as collected with its own value or as failed, and samples that never reached such a job are reported as failed so that they can be renewed. Jobs of the new process never overwrite or mix with files of earlier jobs.",
 ["crash_points", "histories", "schedules", "fault_sequences"],
 "all crash points of the master in scheduling, submitting and collecting; jobs in any state during the outage; repeated crashes",
 "needs a PBS server, a killed master and surviving jobs; none of it is reachable by the test-suite",
 [SPP, PJ, SA], [("unfinished samples handed to the pool", SA + ": _check_failed_samples"), ("collection after crash", SPP + ": _collect_unfinished/have_permanent_samples"), ("job numbering", SPP + ": _get_job_count")],
 ["SampleStorage API after resume"])

prop("C08", "Scheduling reaches the requested numbers exactly and adding samples ends",
 "After scheduling, the number of samples created on each level is exactly the maximum of what was there and the requested target, with consecutive unique ids per level; asking again schedules nothing new, and targets never decrease. Adaptive adding never schedules more than the estimated number per level, never un-schedules, a round of it ends only after at least half of the scheduled samples of the levels that still grow are finished, and the loop ends after finitely many rounds whatever the worker delays and failures are.",
 ["histories", "schedules", "inputs"],
 "all sequences of targets, estimates, adding coefficients, and completions arriving between the rounds; restarts in between",
 "tests use one monotone target sequence with instantaneous samples",
 [SA], [("planning", SA + ": schedule_samples"), ("adaptive adding", SA + ": process_adding_samples/set_scheduled_and_wait")],
 ["load_scheduled_samples", "l_scheduled_samples", "return value of process_adding_samples"])

prop("C09", "Renewing failed samples runs each of them again exactly once",
 "Renewal re-runs every failed sample, and only these, under its original id, level and seed; afterwards each such sample is stored once, as collected if the new attempt succeeded and as failed otherwise, and the collected samples are untouched. If the process crashes during the renewal, each of these samples is afterwards failed, unfinished or collected, never dropped.",
 ["histories", "crash_points", "schedules"],
 "all sets of failed samples, pools, storages, repeated renewals, new failures and crashes during the renewal",
 "there is no test of renewal with results checked, let alone with crashes",
 [SA, SH, H5], [("renewal", SA + ": renew_failed_samples"), ("failed set", SH + ": failed_samples/clear_failed")],
 ["failed_samples", "sample_pairs", "simulation call log"])

prop("C10", "Both storages behave as the same simple store over every call history",
 "Over every history of storage calls (record scheduled, save successes and failures in any batch sizes and level order, save costs, query, clear failed, and for HDF close and reopen), the answers about scheduled ids, collected values, failed and unfinished ids, finished and collected counts, levels and parameters are those of a simple map from sample to state, in insertion order. In-memory and HDF storage give the same answers.",
 ["histories", "configurations"],
 "all call histories including empty levels and empty batches, levels first touched in any order, results of any length, reopenings, chunk sizes",
 "tests store one fixed block of samples on every level and read it once",
 [SM, SH, H5], [("storage", SM + ": Memory"), ("storage", SH + ": SampleStorageHDF, " + H5)],
 ["all public SampleStorage queries"])

prop("C11", "Estimates are a function of the set of collected samples alone",
 "Mean, variance, per-level means, variances and sample counts of a quantity equal those computed directly from the samples collected so far, and the domain (over the samples of all levels) and covariance/moment estimates likewise, independently of arrival order, batch and chunk sizes, storage kind, failed or NaN samples on other entries, and of quantities evaluated or discarded earlier. An estimate made while sampling continues reflects exactly the samples stored at that moment.",
 ["schedules", "histories", "configurations"],
 "all arrival orders, chunkings, interleavings of adding samples and estimating, creation and disposal of quantities over several storages",
 "tests estimate once from one complete storage; stale caches and chunk borders need specific histories",
 ["mlmc/quantity/quantity_estimate.py", "mlmc/quantity/quantity.py", "mlmc/estimator.py", SM, SH, H5], [("chunked sums", "mlmc/quantity/quantity_estimate.py: estimate_mean"), ("sample cache", "mlmc/quantity/quantity.py: Quantity.samples/get_cache_key"), ("chunks", SM + ": chunks, " + H5 + ": LevelGroup.chunks")],
 ["estimate_mean(...)", "Estimate.estimate_moments/estimate_covariance/estimate_domain"])

prop("C12", "The reported cost per sample is the average over samples, however often polled",
 "The cost per sample that the storage reports for a level is the average calculation time of the samples calculated on this level; it does not depend on how often or when the results were polled, on how they were split into batches or jobs, on the storage kind, or on a reopening. Steps of the system clock do not distort it, and it is never negative.",
 ["schedules", "histories", "fault_sequences"],
 "all poll cadences, worker speeds, batchings and clock steps",
 "tests never look at the stored cost; the double counting needs repeated polls between completions",
 [SP, PJ, SPP, SM, SH], [("time measurement", SP + ": calculate_sample/_save_running_time"), ("job times", PJ + ": calculate_samples"), ("accumulation", SM + ": save_n_ops, " + SH + ": save_n_ops")],
 ["SampleStorage.get_n_ops"])

prop("C13", "Sample workspaces are private, start clean and are cleaned up by the stated rule",
 "A sample that needs a workspace is calculated in its own directory, which holds the common files and nothing left over from another sample or an earlier attempt. When all is done, directories of failed samples are kept in the failed folder, those of the first few successful samples of each level in the successful folder, all others are removed (in debug mode directories are kept), and files outside the pool's own output folder are never touched.",
 ["schedules", "histories", "crash_points", "configurations"],
 "all schedules of the process and PBS pools, retries, job deaths inside a sample and reruns, debug on or off",
 "tests look at no directory contents and never rerun a sample in the directory of a killed one",
 [SP, PJ], [("workspace preparation", SP + ": handle_sim_files"), ("clean-up", SP + ": move_successful_rm/move_failed_rm")],
 ["file system under the working directory, content seen by the simulation"])

prop("C14", "Transient qsub and qstat failures are ridden out",
 "Up to ten consecutive failures of the submit command, and likewise of the status command, do not disturb sampling: no sample is lost, duplicated or reported as done or failed because of them, and the samples are submitted or collected once the command works again. Only more than ten consecutive failures surface as an error to the caller, and after that error a restart of the sampling process on the same files still continues correctly.",
 ["fault_sequences", "schedules", "histories"],
 "all sequences of command failures, including submissions that were accepted although an error was reported, at all poll and schedule instants",
 "no PBS server in the tests; failure sequences need an injected command",
 [SPP], [("failure counters", SPP + ": execute/_qstat_pbs_job")],
 ["exceptions seen by the caller", "SampleStorage API"])

prop("C15", "A failed storage write leaves no partial or invented data",
 "If a write, resize or open operation of the HDF storage fails at any point of recording, saving or clearing samples (once, or the disk staying full from then on), the error reaches the caller, and a sample whose storing failed is afterwards either completely stored, with its own value, or not stored at all; counts, ids and values stay aligned and no blank rows appear. Retrying the same call afterwards is accepted and stores the samples once.",
 ["fault_sequences", "histories", "crash_points"],
 "every single write, resize or open operation of every storage call about samples failing, or all from any point on, in any history",
 "tests inject no storage error",
 [SH, H5], [("append", H5 + ": LevelGroup._append_dataset/append_successful")],
 ["SampleStorage API and documented HDF data sets after the error and after the retry"])

prop("C16", "A storage is never reopened for a different result format",
 "Continuing on an existing HDF file with a simulation whose result format differs in name, unit, shape, times or locations is refused with an error before anything is scheduled or changed in the file; with the same format it is accepted and everything stored stays readable, also after crashes during the previous start.",
 ["histories", "inputs", "crash_points"],
 "all pairs of formats (names and units of up to 50 ASCII characters, string and coordinate locations, several quantities, subset and superset locations), all histories before the reopening",
 "the tests reopen once with an identical format",
 [SH, H5, "mlmc/quantity/quantity_spec.py"], [("format comparison", SH + ": save_result_format/load_result_format"), ("equality", "mlmc/quantity/quantity_spec.py: QuantitySpec.__eq__")],
 ["Sampler construction on an existing file; file content"])

prop("C17", "Subsamples have the requested size and consist of whole collected samples",
 "For every storage kind, chunk size and history of adding samples, a subsample of a quantity contains on each level exactly the requested number of samples (at most the number collected), however many chunks the level is stored in and however often it is evaluated again. Every drawn sample is a collected one with its own fine and coarse part, and every collected sample can be drawn. A bootstrap estimate works for every scalar quantity and its level means lie within the range of the collected samples.",
 ["histories", "inputs", "configurations"],
 "all chunkings, sizes of samples and subsamples, random draws, samples added between evaluations; without a preceding selection",
 "the test compares averages over many draws with a tolerance of 50 %, and nothing runs the bootstrap",
 ["mlmc/quantity/quantity.py", "mlmc/estimator.py"], [("subsample", "mlmc/quantity/quantity.py: Quantity.subsample/pick_samples"), ("bootstrap", "mlmc/estimator.py: Estimate.est_bootstrap")],
 ["Quantity.samples over the chunks, estimate_mean().n_samples, est_bootstrap results"])

# --- pure functions of their input: not a target of deterministic simulation --------------------------------
prop("C18", "A flow sample is the result of its own complete solver runs",
 "A stored sample of the groundwater flow simulation (FlowSim) comes from two runs of the solver which both ended successfully (one on the coarsest level): the fine one on the mesh of its level and the coarse one on the mesh of the next coarser level, with the parameters of that level, and both with the same realization of the random field, evaluated in the elements of the respective mesh and determined by the seed of the sample alone - not by the process or the order in which it is calculated, nor by an earlier attempt. If the solver cannot be started, fails, is killed, or leaves no balance, an incomplete one, one without the outflow region or with an inflow through it, or if its input cannot be written, the sample is failed and never gets a value; other samples are not affected. A failed mesh generator ends the start with an error. A start without cleaning continues with the meshes and inputs of the previous start.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "all pools with sample directories, numbers of levels, field models, kinds and positions of solver and mesh generator failures, full disks, crashes of the sampling process, restarts without cleaning, renewals",
 "neither gmsh nor flow123d is available to the tests, the flow simulation is not run by any of them",
 ["mlmc/tool/flow_mc.py", "mlmc/random/correlated_field.py", "mlmc/tool/gmsh_io.py", SP, PJ],
 [("sample calculation", "mlmc/tool/flow_mc.py: FlowSim.calculate/_run_sample/_extract_result"), ("level files and mesh", "mlmc/tool/flow_mc.py: FlowSim.level_instance/_make_mesh/_substitute_yaml"),
  ("field realization", "mlmc/random/correlated_field.py: Fields.sample, RandomFieldBase")],
 ["commands run and the files they are given", "sample_pairs", "failed_samples"])

prop("C19", "A PBS job asks for what was set and is packed up to its limit",
 "Every job submitted to PBS asks for the resources, queue, walltime, name and optional requests given by the common setting, in the part of the script that PBS reads, runs the environment setting in the given order before the calculation, with the working directory known to it, and calculates with the given interpreter. While the submit command works, a job is submitted as soon as the task sizes of its samples sum up to more than one or it has more than 1000 samples, never later, and earlier only when the pool is asked for results; a job without samples is never submitted. Every scheduled sample is calculated by the jobs and stored exactly once.",
 ["histories", "fault_sequences", "configurations"],
 "all settings, task sizes and numbers of samples around the limits, targets, polls, renewals and failures of the submit command",
 "tests submit a few jobs of one size and never look at the scripts or at the samples of a job",
 [SPP, PJ], [("job header and script", SPP + ": pbs_common_setting/_create_script"), ("packing", SPP + ": schedule_sample/execute")],
 ["script given to qsub", "samples calculated by a job"])

prop("C20", "Moment functions evaluate their polynomials accurately",
 "Each family of moment functions evaluates its stated basis functions on the given domain, with the stated transformation and outlier handling.",
 ["inputs"], "all values, domains and sizes", "sampled values only", ["mlmc/moments.py"], [("moments", "mlmc/moments.py")], ["eval, eval_all"])
prop("C21", "Quantity algebra matches the same operations on the sample arrays",
 "Arithmetic, selection, indexing, interpolation and reductions of quantities give what the same operations give on the raw sample arrays.",
 ["inputs", "programs"], "all quantity expressions", "a few fixed expressions", ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_types.py"], [("operations", "mlmc/quantity/quantity.py")], ["Quantity.samples"])
prop("C22", "Correlated random fields have the requested mean and covariance",
 "Generated fields follow the requested mean, variance and correlation function.",
 ["inputs"], "all meshes, correlation lengths, and truncations", "statistical tests on few configurations", ["mlmc/random/correlated_field.py", "mlmc/random/frac_geom.py"], [("SVD/Fourier sampling", "mlmc/random/correlated_field.py")], ["sample()"])
prop("C23", "Density approximation reproduces the given moments",
 "The maximum-entropy density found from moments has these moments within the tolerance, is non-negative, and integrates to one.",
 ["inputs"], "all moment vectors and tolerances", "a few distributions", ["mlmc/tool/simple_distribution.py", "mlmc/tool/distribution.py"], [("optimisation", "mlmc/tool/simple_distribution.py")], ["density(), moments"])
prop("C24", "Estimated sample numbers meet the target variance at minimal cost",
 "For given level variances and costs the computed numbers of samples give an estimator variance not above the target, with cost within rounding of the optimum.",
 ["inputs"], "all variances, costs and targets", "one configuration", ["mlmc/estimator.py"], [("Lagrange formula", "mlmc/estimator.py: estimate_n_samples_for_target_variance")], ["return value"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
