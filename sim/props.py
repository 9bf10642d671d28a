"""Which scenario families decide a property, and which oracles speak about it."""

# property -> [(family generator, weight)]
FAMS = {
    "C01": [("local", 1)],
    "C02": [("pbs", 1)],
    "C03": [("local", 2), ("pbs", 1)],
    "C04": [("local", 2), ("pbs", 1)],
    "C05": [("local", 2), ("pbs", 1)],
    "C06": [("local", 2), ("storage", 2)],
    "C07": [("pbs", 1)],
    "C08": [("local", 2), ("pbs", 1)],
    "C09": [("local", 2), ("pbs", 1)],
    "C10": [("storage", 1)],
    "C11": [("estimates", 2), ("local", 1)],
    "C12": [("local", 2), ("pbs", 1)],
    "C13": [("local", 2), ("pbs", 1)],
    "C14": [("pbs", 1)],
    "C15": [("storage", 1)],
    "C16": [("formats", 1)],
    "C17": [("estimates", 1)],
    "C18": [("flow", 1)],
    "C19": [("pbs", 1)],
}

ALWAYS = {"exception", "thread_exception", "hang"}
STORE = {"pairs_shape", "n_collected", "n_finished", "duplicate", "not_scheduled", "unfinished_ids", "foreign_value", "value", "alignment"}
OUTCOME = {"outcome", "failed_ok", "lost", "failed_forgotten"}
MODEL = {"sched", "values", "failed", "n_finished", "n_collected", "unfinished_ids", "levels", "format", "n_ops", "chunks"}
PARTIAL = {"partial_sched", "partial_values", "partial_failed", "partial_counts", "alignment", "unfinished_ids"}

ORACLES = {
    "C01": STORE | OUTCOME | {"not_scheduled"},
    "C02": STORE | OUTCOME,
    "C03": {"value", "foreign_value", "alignment", "pairs_shape", "seed"},
    "C04": {"n_running", "wait_end", "timeout_late", "timeout_early", "wait_late"},
    "C05": STORE | OUTCOME,
    "C06": STORE | {"durability", "failed_forgotten", "sample_ids", "scheduled_count", "lost", "executions"} | PARTIAL |
           {"sched", "values", "failed", "levels", "format"},
    "C07": STORE | OUTCOME | {"durability", "scheduled_count", "sample_ids", "executions"},
    "C08": {"scheduled_count", "sample_ids", "adaptive_record", "adaptive_decrease", "adaptive_over", "adaptive_progress", "adaptive_complete",
            "adaptive_end", "adaptive_half"},
    "C09": STORE | OUTCOME | {"executions", "renew_collected", "renew_pending", "durability"},
    "C10": MODEL,
    "C11": {"estimate_n", "estimate_value"},
    "C12": {"cost"},
    "C13": {"workspace_dir", "workspace_clean", "workspace_common", "workspace_private", "workspace_failed_kept", "workspace_removed",
            "workspace_debug", "workspace_successful_kept", "workspace_outside"},
    "C14": STORE | OUTCOME | {"late_error"},
    "C15": PARTIAL | MODEL - {"n_ops", "chunks", "levels", "format"},
    "C16": {"same_refused", "different_accepted", "refused_changed", "content"},
    "C18": STORE | OUTCOME | {"flow_mesh", "flow_input", "flow_coupling", "flow_fields"},
    "C19": STORE | OUTCOME | {"job_header", "job_env", "job_empty", "job_size", "job_early"},
    "C17": {"subsample_n", "subsample_value", "subsample_cover"},
}

# oracles after which the run can go on when they are not the subject of the check
SOFT = {"n_running", "wait_end", "timeout_late", "timeout_early", "wait_late", "adaptive_record", "adaptive_decrease", "adaptive_over",
        "adaptive_progress", "adaptive_complete", "adaptive_half", "late_error", "cost", "executions", "renew_collected", "renew_pending", "scheduled_count",
        "sample_ids", "n_finished", "failed_ok", "outcome", "failed_forgotten", "durability", "n_ops", "chunks", "unfinished_ids",
        "job_header", "job_env", "job_empty", "job_size", "job_early", "n_collected", "lost", "duplicate", "estimate_n", "estimate_value",
        "workspace_dir", "workspace_clean", "workspace_common", "workspace_private", "workspace_failed_kept", "workspace_removed",
        "workspace_debug", "workspace_successful_kept", "workspace_outside"}


def relevant(prop, oracle):
    return oracle in ALWAYS or oracle in ORACLES[prop]


def family(prop, k):
    """Generator name of the k-th run"""
    fams = FAMS[prop]
    total = sum(w for _, w in fams)
    k %= total
    for name, w in fams:
        if k < w:
            return name
        k -= w
