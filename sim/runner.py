"""
Runs one scenario of the sampling families (L: local pools, P: PBS) and judges it.

A scenario is plain data (see gen.py). run(scenario) -> Result with the list of violations.
"""
import contextlib
import copy
import gc
import os
import re
import shutil
import sys
import tempfile
import traceback

import numpy as np

from . import core, env, flow, pbs, props, seams, testsim

SCRATCH = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Violation:
    def __init__(self, oracle, text, **kw):
        self.oracle = oracle
        self.text = text
        self.kw = kw

    def __repr__(self):
        return "%s: %s" % (self.oracle, self.text)


class Result:
    def __init__(self):
        self.violations = []
        self.decisions = {}
        self.digest = None
        self.sched = None
        self.fired = {}
        self.probes = {}
        self.sim_time = 0.0
        self.harness_error = None
        self.stats = {}
        self.trace = None
        self.foreign = []


class Stop(Exception):
    """The client's run stops here (violation found or injected error reached the client)."""


def in_repo(tb_text):
    return (env.REPO + os.sep + "mlmc") in tb_text or "/mlmc/" in tb_text


HERE = os.path.dirname(os.path.abspath(__file__))


def raised_by_repo(e):
    """Did the code under test raise it (and not the harness)? Frames of libraries and of the seams do not count."""
    if isinstance(e, core.HarnessError):
        return False
    last = None
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(env.REPO + os.sep) or "/mlmc/" in f:
            last = "repo"
        elif f.startswith(HERE) and os.path.basename(f) != "seams.py":
            last = "sim"
        tb = tb.tb_next
    return last == "repo"


def trailing_max(log):
    """Longest series of failures in the last life"""
    best = n = 0
    for x in reversed(log):
        if x == "life":
            break
        n = 0 if x == "ok" else n + 1
        best = max(best, n)
    return best


class World:
    """Everything the harness knows about a run."""

    def __init__(self, sim, sc, table):
        self.sim = sim
        self.sc = sc
        self.table = table              # level -> [[id, seed]]
        self.id_seed = {}
        self.seed_id = {}
        for level, rows in table.items():
            for i, s in rows:
                self.id_seed[i] = s
                self.seed_id[s] = (int(level), i)
        self.execs = []
        self.count = {}
        self.viol = []
        self.foreign = []               # violations of other properties
        self.expect_sched = None        # lower bound of the scheduled numbers (acknowledged)
        self.may_sched = None           # upper bound
        self.acked = {}                 # level -> {id: 'C'|'F'} states seen stored by the client
        self.life = 0
        self.lost_ok = set()            # ids which may stay unfinished (their process is gone)
        self.crashed = False
        self.io_errors = 0
        self.notes = []
        self.pending_ack = None

    def bad(self, oracle, text, **kw):
        prop = self.sc.get("prop")
        if prop in props.ORACLES and not props.relevant(prop, oracle):
            # something else than the property under check is broken
            self.foreign.append(oracle)
            self.sim.log("FOREIGN", oracle)
            if oracle in props.SOFT:
                return
            raise Stop()
        self.viol.append(Violation(oracle, text, **kw))
        self.sim.log("VIOLATION", oracle, text)
        raise Stop()

    def ack_pending(self):
        """The process which submitted the last job has gone on, so it knows the job's id"""
        if self.pending_ack is not None:
            self.acked_jobs.add(self.pending_ack)
            self.pending_ack = None

    # -- calls from testsim
    def begin(self, cfg, seed):
        seed = int(seed)
        a = self.count.get(seed, 0)
        self.count[seed] = a + 1
        p = self.sim.cur.proc
        rec = dict(seed=seed, fine=cfg["fine"], coarse=cfg["coarse"], attempt=a, kind=testsim.outcome(cfg, seed, a), proc=p.name,
                   job=p.data.get("job"), run=p.data["job"].runs if p.data.get("job") else 0,
                   t0=self.sim.t_mono, t1=None, n=len(self.execs))
        self.execs.append(rec)
        self.sim.idle_spins = 0
        self.sim.progress()
        self.sim.log("begin", seed, a, rec["kind"])
        return rec

    def end(self, rec):
        if not self.sim.dead():
            rec["t1"] = self.sim.t_mono
            self.sim.progress()
            self.sim.log("end", rec["seed"])


def near(a, b, equal_nan=True):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=equal_nan)


def clock_step(sim, d):
    sim.fire("clock_step")
    sim.wall_off += d


class Client:
    """One life of the sampling process: executes the operations of the scenario through the public API."""

    def __init__(self, w, life, server):
        self.w = w
        self.sim = w.sim
        self.sc = w.sc
        self.life = life
        self.server = server
        self.sampler = None
        self.storage = None
        self.pool = None
        self.done = False
        self.op_index = -1
        self.fatal = None

    # ---------------------------------------------------------------- construction
    def make_storage(self):
        if self.sc["storage"] == "memory":
            from mlmc.sample_storage import Memory
            return Memory()
        from mlmc.sample_storage_hdf import SampleStorageHDF
        return SampleStorageHDF(self.w.hdf_path)

    def make_pool(self):
        import mlmc.sampling_pool as sp
        pc = self.sc["pool"]
        wd = self.w.work_dir if pc.get("work_dir", True) else None
        debug = pc.get("debug", False)
        k = pc["kind"]
        if k == "one":
            return sp.OneProcessPool(work_dir=wd, debug=debug)
        if k == "proc":
            return sp.ProcessPool(pc["n"], work_dir=wd, debug=debug)
        if k == "thread":
            return sp.ThreadPool(pc["n"], work_dir=wd, debug=debug)
        from mlmc.sampling_pool_pbs import SamplingPoolPBS
        pool = SamplingPoolPBS(work_dir=self.w.work_dir, debug=debug)
        setting = dict(n_nodes=1, n_cores=1, mem="1Gb", queue="q", walltime="1:00:00", pbs_name="mlmc",
                       env_setting=["cd $MLMC_WORKDIR"], optional_pbs_requests=[], python="python3")
        setting.update(copy.deepcopy(self.sc["pbs"].get("setting") or {}))
        pool.pbs_common_setting(**setting)
        if self.sc["prop"] == "C19":
            real = pool.get_finished

            def get_finished():
                # everything what is waiting may be submitted now
                self.server.polled = True
                try:
                    return real()
                finally:
                    self.server.polled = False
            pool.get_finished = get_finished
        return pool

    def init(self):
        from mlmc.sampler import Sampler
        if self.server is not None:
            # failures are counted by each process anew
            self.server.qsub_log.append("life")
            self.server.qstat_log.append("life")
        self.storage = self.make_storage()
        self.pool = self.make_pool()
        self.sampler = Sampler(sample_storage=self.storage, sampling_pool=self.pool,
                               sim_factory=testsim.Factory(dict(self.w.cfg, clean=not self.w.started)), level_parameters=self.sc["params"])

    # ---------------------------------------------------------------- run
    def body(self):
        ops = self.life["ops"]
        try:
            self.do(-1, ["init"])
            for i, op in enumerate(ops):
                self.do(i, op)
            self.done = True
        except Stop:
            pass

    def do(self, i, op):
        self.op_index = i
        w, sim = self.w, self.sim
        sim.log("OP", i, op)
        sim.idle_spins = 0
        sim.progress()
        proc = sim.cur.proc
        crash = self.life.get("crash")
        if crash and crash["op"] == i:
            if crash.get("io"):
                proc.fail_at, proc.fail_left, proc.fail_torn = proc.steps + crash["step"], crash["io"], crash.get("torn", 0.0)
                proc.on_fail = self.io_failed
            else:
                proc.kill_at = proc.steps + crash["step"]
                proc.kill_torn = crash.get("torn", 0.0)
        name = op[0]
        w.st_cache = None
        self.io_before = w.io_errors
        try:
            getattr(self, "op_" + name)(*op[1:])
        except (core.SimKilled, core.SimAbort, Stop):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            if isinstance(e, core.HarnessError):
                raise
            self.exception(op, e, tb)
        if crash and crash["op"] == i:
            # the operation was shorter than expected: die right after it
            sim.fire("kill:master:idle")
            sim.kill(proc)
        w.ack_pending()
        if self.server is not None:
            for log, cmd in ((self.server.qsub_log, "qsub"), (self.server.qstat_log, "qstat")):
                n = trailing_max(log)
                if n > 11:
                    w.bad("late_error", "%d consecutive %s failures and no error raised" % (n, cmd))
        if name in ("sleep", "heal", "jump", "cost", "estimate"):
            return                      # nothing which touches the storage
        with self.frozen():
            try:
                self.after(op)
            except Exception as e:
                tb = traceback.format_exc()
                if isinstance(e, (Stop, core.HarnessError)) or not in_repo(tb):
                    raise
                w.bad("exception", "reading the storage after %r raised %s: %s\n%s" % (op, type(e).__name__, str(e)[:300], tb[-1500:]))

    def io_failed(self):
        """A write of this process has failed: it could not record that a job has been submitted"""
        self.w.io_errors += 1
        if self.server is not None:
            self.w.pending_ack = None
            self.w.lostack = True

    @contextlib.contextmanager
    def frozen(self):
        self.sim.frozen = True
        try:
            yield
        finally:
            self.sim.frozen = False

    def exception(self, op, e, tb):
        w = self.w
        if w.io_errors > self.io_before and isinstance(e, Exception):
            self.fatal = "io"
            self.sim.probe("io_error_reached_client")
            raise Stop()
        if op[0] == "init" and w.commands is not None and w.commands.gmsh_failed:
            self.fatal = "gmsh"
            w.commands.gmsh_failed = False
            self.sim.probe("mesh_error_reached_client")
            raise Stop()
        if self.server is not None and op[0] != "init":
            for log, name in ((self.server.qsub_log, "qsub"), (self.server.qstat_log, "qstat")):
                n = 0
                for x in reversed(log):
                    if x in ("ok", "life"):
                        break
                    n += 1
                if n > 10:
                    if n > 11:
                        w.bad("late_error", "error after more than 11 consecutive %s failures" % name)
                    self.fatal = name
                    self.sim.probe("too_many_%s_failures_reported" % name)
                    raise Stop()
        if not in_repo(tb):
            raise core.HarnessError(tb)
        w.bad("exception", "operation %r raised %s: %s\n%s" % (op, type(e).__name__, str(e)[:300], tb[-1500:]))

    # ---------------------------------------------------------------- operations
    def op_init(self):
        w = self.w
        sim = self.sim
        self.init()
        if w.commands is not None and w.commands.gmsh_failed:
            w.bad("flow_mesh", "the mesh generator failed and the sampler was created nevertheless")
        w.started = True
        with self.frozen():
            sched = self.storage.load_scheduled_samples()
            n = [len(sched.get(l, [])) for l in range(len(self.sc["params"]))]
            if w.expect_sched is None:
                w.expect_sched = [0] * len(n)
                w.may_sched = [0] * len(n)
            self.check_sched(sched, n)
            w.expect_sched = list(n)
            w.may_sched = list(n)
            self.targets = [0] * len(n)
            judge = Judge(w, self)
            judge.durable()
            if w.crashed or self.life.get("index", 0) > 0:
                st = judge.states()
                if self.sc["pool"]["kind"] != "pbs":
                    # samples of the dead process are gone with it
                    for l, ids in st["outstanding"].items():
                        w.lost_ok.update(ids)

    def check_sched(self, sched, n):
        w = self.w
        for l in range(len(n)):
            lo, hi = w.expect_sched[l], w.may_sched[l]
            if not lo <= n[l] <= hi:
                w.bad("scheduled_count", "level %d: %d samples recorded as scheduled, expected %d..%d" % (l, n[l], lo, hi))

    def op_initial(self, n):
        L = len(self.sc["params"])
        self.sampler.set_initial_n_samples(n)
        if n is None:
            n = [100, 10]
        n = list(n)
        if len(n) == 1:
            n = [n[0], 10]
        if len(n) == 2:
            # geometric sequence from the first to the last number
            n = [int(round(n[0] * (n[1] / n[0]) ** (l / (L - 1)))) for l in range(L)] if L > 1 else n[:1]
        self.targets = n

    def op_target(self, n):
        self.sampler.set_level_target_n_samples(n)
        self.targets = [max(a, b) for a, b in zip(self.targets, n)]

    def op_schedule(self, timeout=None):
        w = self.w
        w.may_sched = [max(a, b) for a, b in zip(w.may_sched, self.targets)]
        t0 = self.sim.t_mono
        self.sim.deadline_hint = t0 + timeout if timeout else None
        self.sampler.schedule_samples(timeout=timeout)
        self.sim.deadline_hint = None
        w.expect_sched = list(w.may_sched)

    def op_wait(self, sleep=0):
        self._ask(sleep, None)

    def op_poll(self, timeout, sleep=0):
        self._ask(sleep, timeout)

    def _ask(self, sleep, timeout):
        w, sim = self.w, self.sim
        t0 = sim.t_mono
        sim.deadline_hint = t0 + timeout if timeout else None
        r = self.sampler.ask_sampling_pool_for_samples(sleep=sleep, timeout=timeout)
        sim.deadline_hint = None
        t1 = sim.t_mono
        with self.frozen():
            st = w.st_cache = Judge(w, self).states()
            out = sum(len([i for i in ids if i not in w.lost_ok]) for ids in st["outstanding"].values())
            sim.log("ask", r, out)
            if r != out:
                w.bad("n_running", "asking for samples returned %r running, but %d scheduled samples are not stored" % (r, out))
            if timeout is None and r != 0:
                w.bad("wait_end", "waiting without limit returned %r" % r)
            if timeout is not None:
                if t1 - t0 > timeout + sleep + 0.01:
                    w.bad("timeout_late", "time limit %g s, sleep %g s, returned after %g s" % (timeout, sleep, t1 - t0))
                if r > 0 and t1 - t0 < timeout:
                    w.bad("timeout_early", "returned after %g s with %d samples running, limit %g s" % (t1 - t0, r, timeout))
            if r == 0 and out == 0 and self.sc["pool"]["kind"] != "one":
                ends = [e["t1"] for e in w.execs if e["t1"] is not None]
                last = max(ends) if ends else t0
                if self.server is not None:
                    last = max([last, self.server.t_fail] + [j.__dict__.get("t_f", 0) for j in self.server.jobs])
                last = max(last, t0)
                if t1 - last > 2 * sleep + 0.05:
                    w.bad("wait_late", "all done at %.3f, waiting ended at %.3f (sleep %g)" % (last, t1, sleep))

    def op_heal(self):
        if self.server is not None:
            self.server.faults_on = False

    def op_sleep(self, d):
        import time
        time.sleep(d)

    def op_jump(self, d):
        """step of the system clock"""
        clock_step(self.sim, d)

    def op_adaptive(self, n_est, coeff, sleep, timeout):
        w, sim = self.w, self.sim
        n_est = np.array(n_est)
        kw = {} if timeout is None else {"timeout": timeout}
        for rnd in range(400):
            before = [int(x) for x in self.sampler.l_scheduled_samples()]
            w.may_sched = [max(a, b, c) for a, b, c in zip(w.may_sched, [int(x) for x in n_est], self.targets)]
            sim.idle_spins = 0
            r = self.sampler.process_adding_samples(n_est, sleep, coeff, **kw)
            after = [int(x) for x in self.sampler.l_scheduled_samples()]
            with self.frozen():
                sched = self.storage.load_scheduled_samples()
                n = [len(sched.get(l, [])) for l in range(len(before))]
                if n != after:
                    w.bad("adaptive_record", "sampler reports %s scheduled, storage %s" % (after, n))
                for l in range(len(n)):
                    if n[l] < before[l]:
                        w.bad("adaptive_decrease", "level %d: scheduled went from %d to %d" % (l, before[l], n[l]))
                    if n[l] > max(before[l], n_est[l], self.targets[l]):
                        w.bad("adaptive_over", "level %d: %d scheduled, estimated %d, before %d" % (l, n[l], n_est[l], before[l]))
                if not r and all(a == b for a, b in zip(before, after)):
                    w.bad("adaptive_progress", "adding samples not complete but nothing was scheduled: %s of %s" % (after, list(n_est)))
                if not r:
                    nf = [int(x) for x in self.sampler.n_finished_samples]
                    for l in range(len(n)):
                        if after[l] < n_est[l] and 2 * nf[l] < after[l] and self.targets[l] <= before[l]:
                            w.bad("adaptive_half", "level %d: round ended with %d of %d scheduled samples finished" % (l, nf[l], after[l]))
                if r and any(a < e for a, e in zip(after, n_est)):
                    w.bad("adaptive_complete", "reported complete with %s of %s" % (after, list(n_est)))
                w.expect_sched = list(n)
            if r:
                break
        else:
            w.bad("adaptive_end", "adding samples did not end in 400 rounds")
        self.targets = [max(a, int(b)) for a, b in zip(self.targets, after)]

    def op_renew(self):
        w = self.w
        with self.frozen():
            st = Judge(w, self).states()
            failed = {l: list(ids) for l, ids in st["F"].items()}
            rows = {l: list(v) for l, v in st["rows"].items()}
            n0 = len(w.execs)
        w.renewing = {i for ids in failed.values() for i in ids}
        w.was_renewed |= w.renewing
        for i in w.renewing:
            w.renew_tries[i] = w.renew_tries.get(i, 0) + 1
        self.sampler.renew_failed_samples()
        for i in w.renewing:
            w.n_renewed[i] = w.n_renewed.get(i, 0) + 1
        with self.frozen():
            st2 = Judge(w, self).states()
            for l, r in rows.items():
                if st2["rows"].get(l, [])[:len(r)] != r:
                    w.bad("renew_collected", "renewal changed collected samples of level %d" % l)
            left = [i for ids in st2["F"].values() for i in ids if i in w.renewing]
            if left:
                w.bad("renew_pending", "samples %s are being renewed but still recorded as failed" % left[:5])
        w.renewing = set()

    def op_cost(self):
        with self.frozen():
            Judge(self.w, self).cost()

    def op_estimate(self):
        with self.frozen():
            Judge(self.w, self).estimate()

    # ---------------------------------------------------------------- after each operation
    def after(self, op):
        w = self.w
        j = Judge(w, self)
        # the state read by the operation's own oracle, nothing has happened since
        st = w.st_cache if w.st_cache is not None else j.states()
        sched = st["sched"]
        n = [len(sched.get(l, [])) for l in range(len(self.sc["params"]))]
        if op[0] in ("schedule", "adaptive"):
            self.check_sched(sched, n)
            ls = [int(x) for x in self.sampler.l_scheduled_samples()]
            if ls != n:
                w.bad("scheduled_count", "sampler reports %s scheduled samples, storage %s" % (ls, n))
        j.ids(sched)
        j.basic(st)
        j.ack(st)


class Judge:
    """Oracles over the public storage API (the run is frozen while they look)."""

    def __init__(self, w, client, storage=None):
        self.w = w
        self.c = client
        self.storage = storage if storage is not None else client.storage
        self.L = len(w.sc["params"])

    def bad(self, *a, **k):
        self.w.bad(*a, **k)

    def ids(self, sched):
        w = self.w
        for l, ids in sched.items():
            want = [r[0] for r in w.table[str(int(l))][:len(ids)]]
            if [str(i) for i in ids] != want:
                d = [(a, b) for a, b in zip(ids, want) if a != b][:3]
                self.bad("sample_ids", "scheduled ids of level %s are not the consecutive unique ids: %s" % (l, d))

    def pairs(self):
        """{level: list of (fine vector, coarse vector or None)}"""
        out = {}
        n_coll = self.storage.get_n_collected()
        sp = self.storage.sample_pairs()
        for l in range(self.L):
            if l >= len(sp):
                out[l] = []
                continue
            a = np.asarray(sp[l])
            if a.size == 0:
                out[l] = []
                continue
            if a.ndim != 3 or a.shape[2] != (1 if l == 0 else 2):
                self.bad("pairs_shape", "level %d: sample pairs of shape %s" % (l, a.shape))
            out[l] = [(a[:, i, 0], a[:, i, 1] if a.shape[2] > 1 else None) for i in range(a.shape[1])]
        nc = [int(n_coll[l]) if l < len(n_coll) else 0 for l in range(self.L)]
        for l in range(self.L):
            if nc[l] != len(out[l]):
                self.bad("n_collected", "level %d: %s collected reported, %d pairs returned" % (l, nc[l], len(out[l])))
        return out

    def states(self):
        w = self.w
        sched = self.storage.load_scheduled_samples()
        pairs = self.pairs()
        failed = self.storage.failed_samples() if hasattr(self.storage, "failed_samples") else {}
        C, F, out, rows = {}, {}, {}, {}
        size = w.cfg["size"]
        for l in range(self.L):
            ids = []
            for f, c in pairs[l]:
                s = f[0]
                key = w.seed_id.get(int(s)) if np.isfinite(s) and s == int(s) else None
                if key is None:
                    self.bad("foreign_value", "level %d: stored row %s belongs to no scheduled sample" % (l, f[:3]))
                if key[0] != l:
                    self.bad("foreign_value", "level %d: stored row belongs to sample %s" % (l, key[1]))
                if len(f) != size:
                    self.bad("value", "sample %s: %d numbers stored, %d expected" % (key[1], len(f), size))
                fine = self.w.sc["params"][l][0]
                coarse = self.w.sc["params"][l - 1][0] if l else 0
                kinds = {e["kind"] for e in w.execs if e["seed"] == int(s)} & {"ok", "nan", "unpick_res"}
                ok = False
                if w.cfg["fmt"] == "flow":
                    want = [x for x in (flow.expected(e) for e in w.execs if e["seed"] == int(s) and e["kind"] in kinds) if x is not None]
                    ok = any(near(f, x[0]) and (c is None or near(c, x[1])) for x in want)
                    kinds = ()
                for kind in kinds:
                    ef, ec = testsim.expected_pair(int(s), fine, coarse, size, kind == "nan", w.cfg["fmt"])
                    same = near if w.cfg["fmt"] == "synth" else np.array_equal
                    if same(f, ef, equal_nan=True) and (c is None or same(c, ec, equal_nan=True)):
                        ok = True
                if not ok:
                    self.bad("value", "sample %s: wrong value stored (fine %s coarse %s; outcomes of its attempts %s)" %
                             (key[1], f[:3], None if c is None else c[:3], sorted({e["kind"] for e in w.execs if e["seed"] == int(s)})))
                ids.append(key[1])
            C[l] = ids
            rows[l] = list(ids)
            fl = []
            for k in (l, str(l)):
                if k in failed:
                    fl = [x if isinstance(x, str) else x[0] for x in failed[k]]
                    fl = [x.decode() if isinstance(x, bytes) else str(x) for x in fl]
            F[l] = fl
            s = [str(i) for i in sched.get(l, [])]
            known = set(ids) | set(fl)
            out[l] = [i for i in s if i not in known]
        return {"sched": sched, "C": C, "F": F, "outstanding": out, "rows": rows}

    def basic(self, st):
        """Invariants at every moment"""
        w = self.w
        nf = self.storage.n_finished()
        for l in range(self.L):
            sched = [str(i) for i in st["sched"].get(l, [])]
            allids = st["C"][l] + st["F"][l]
            dup = sorted({i for i in allids if allids.count(i) > 1}) if len(set(allids)) != len(allids) else []
            if dup:
                self.bad("duplicate", "level %d: samples stored more than once: %s (collected %s, failed %s)" %
                         (l, dup[:4], [st["C"][l].count(i) for i in dup[:4]], [st["F"][l].count(i) for i in dup[:4]]))
            extra = set(allids) - set(sched)
            if extra:
                self.bad("not_scheduled", "level %d: stored samples which are not recorded as scheduled: %s" % (l, sorted(extra)[:4]))
            n = int(nf[l]) if l < len(nf) else 0
            if n != len(allids):
                self.bad("n_finished", "level %d: %s finished reported, %d stored" % (l, nf[l] if l < len(nf) else None, len(allids)))
            for i in st["F"][l]:
                seed = w.id_seed[i]
                kinds = [e["kind"] for e in w.execs if e["seed"] == seed]
                if not self.may_fail(i, seed, kinds):
                    self.bad("failed_ok", "sample %s recorded as failed, its calculation(s) ended with %s" % (i, kinds))
        if w.sc["storage"] == "hdf":
            un = sorted(str(i) for i in self.storage.unfinished_ids())
            want = sorted(i for ids in st["outstanding"].values() for i in ids)
            if un != want:
                self.bad("unfinished_ids", "unfinished ids %s, expected %s" % (un[:6], want[:6]))

    def may_fail(self, i, seed, kinds):
        """May the sample be recorded as failed?"""
        w = self.w
        if any(k not in ("ok", "nan") for k in kinds):
            return True
        if i in w.transport_failed:
            return True
        if w.sc.get("missing_common") and not kinds:
            return True
        if w.sc.get("unpick_level") is not None and i in {r[0] for r in w.table[str(w.sc["unpick_level"])]}:
            return True
        ex = [e for e in w.execs if e["seed"] == seed]
        if w.sc["family"] == "P":
            if w.crashed or w.lostack:
                # never submitted, or submitted without an acknowledgement seen by the process (which died)
                known = [e for e in ex if e["job"] is not None and e["job"].pbs_id in w.acked_jobs]
                if not known:
                    return w.crashed or w.jobs_died
                ex = known
            if not ex:
                return True if w.jobs_died else False
            # surely written: its job went on to another sample or ended in an orderly way
            for e in ex:
                if not self.surely_written(e):
                    return True
            return False
        return False

    def surely_written(self, e):
        job = e["job"]
        if job is None or e["t1"] is None:
            return False
        if job.state == "F" and not job.__dict__.get("killed_last") and job.runs == e["run"]:
            return True
        if job.runs != e["run"]:
            return False
        return any(x["job"] is job and x["run"] == e["run"] and x["n"] > e["n"] for x in self.w.execs)

    def ack(self, st):
        """What has been seen stored once stays stored (a failed sample may be renewed)"""
        w = self.w
        for l in range(self.L):
            prev = w.acked.get(l, [])
            if st["rows"][l][:len(prev)] != prev:
                self.bad("durability", "level %d: collected samples changed: before %s now %s" % (l, prev[-4:], st["rows"][l][:len(prev)][-4:]))
            w.acked[l] = list(st["rows"][l])
            pf = w.acked_failed.get(l, set())
            gone = pf - set(st["F"][l]) - w.was_renewed
            if gone:
                self.bad("failed_forgotten", "level %d: failed samples forgotten: %s" % (l, sorted(gone)[:4]))
            w.acked_failed[l] = set(st["F"][l])

    def durable(self):
        """After (re)start: everything acknowledged before is there"""
        w = self.w
        st = self.states()
        self.ids(st["sched"])
        for l in range(self.L):
            prev = w.acked.get(l, [])
            if st["rows"][l][:len(prev)] != prev:
                self.bad("durability", "level %d: stored samples lost or changed by the restart: %s -> %s" %
                         (l, prev[-4:], st["rows"][l][:len(prev)][-4:]))
            pf = w.acked_failed.get(l, set())
            gone = pf - set(st["F"][l]) - w.was_renewed - set(st["C"][l])
            if gone:
                self.bad("failed_forgotten", "level %d: failed samples forgotten by the restart: %s" % (l, sorted(gone)[:4]))
            w.acked_failed[l] = set(st["F"][l])
        self.basic(st)
        self.layout()

    def layout(self):
        """Documented HDF layout: collected ids go with their values"""
        w = self.w
        if w.sc["storage"] != "hdf":
            return
        with seams.REAL.H5File(w.hdf_path, "r") as f:
            for l in range(self.L):
                g = f.get("/Levels/%d" % l)
                if g is None or "collected_ids" not in g:
                    continue
                ids = [r[0].decode() if not isinstance(r, bytes) else r.decode() for r in g["collected_ids"][()]]
                vals = g["collected_values"][()] if "collected_values" in g else np.zeros((0,))
                if len(ids) != len(vals):
                    self.bad("alignment", "level %d: %d collected ids, %d values" % (l, len(ids), len(vals)))
                for i, v in zip(ids, vals):
                    if w.id_seed.get(i) != int(v.reshape(v.shape[0], -1)[0, 0]):
                        self.bad("alignment", "level %d: value of %s is stored with id %s" %
                                 (l, w.seed_id.get(int(v.reshape(v.shape[0], -1)[0, 0])), i))

    def final(self):
        """Everything is done"""
        w = self.w
        st = self.states()
        self.ids(st["sched"])
        self.basic(st)
        self.layout()
        for l in range(self.L):
            lost = [i for i in st["outstanding"][l] if i not in w.lost_ok]
            if lost:
                self.bad("lost", "level %d: scheduled samples neither collected nor failed: %s" % (l, lost[:5]))
            n = len(st["sched"].get(l, []))
            if not w.expect_sched[l] <= n <= w.may_sched[l]:
                self.bad("scheduled_count", "level %d: %d scheduled, expected %s..%s" % (l, n, w.expect_sched[l], w.may_sched[l]))
        self.outcomes(st)
        self.executions(st)
        if w.cfg["fmt"] == "flow":
            flow.judge(self)
        if w.sc["prop"] == "C19":
            self.jobs()
        if w.sc.get("sim", {}).get("workspace"):
            self.workspace(st)

    def outcomes(self, st):
        w = self.w
        for l in range(self.L):
            C, F = set(st["C"][l]), set(st["F"][l])
            for i in st["sched"].get(l, []):
                seed = w.id_seed[i]
                ex = [e for e in w.execs if e["seed"] == seed]
                if w.sc["family"] == "L" and not w.crashed and ex and i not in w.transport_failed:
                    ok = ex[-1]["kind"] in ("ok", "nan")
                    if ex[-1]["kind"] == "unpick_res":
                        if i not in C and i not in F:
                            self.bad("outcome", "sample %s neither collected nor failed" % i)
                        continue
                    if ok and i not in C:
                        self.bad("outcome", "sample %s calculated successfully but not collected" % i)
                    if not ok and i not in F:
                        self.bad("outcome", "sample %s failed (%s) but not recorded as failed" % (i, ex[-1]["kind"]))

    def executions(self, st):
        """Each sample is calculated exactly once for each time it was scheduled or renewed"""
        w = self.w
        if w.lostack or w.requeued:
            return
        exact = not (w.sc.get("unpick_level") is not None or w.crashed or w.io_errors or w.jobs_died or len(w.sc["lives"]) > 1 or w.sc.get("missing_common"))
        for l in range(self.L):
            for i in st["sched"].get(l, []):
                got = w.count.get(w.id_seed[i], 0)
                if got > 1 + w.renew_tries.get(i, 0):
                    self.bad("executions", "sample %s calculated %d times, but renewed only %d times" % (i, got, w.renew_tries.get(i, 0)))
                if exact and i not in w.lost_ok and got != 1 + w.n_renewed.get(i, 0):
                    self.bad("executions", "sample %s calculated %d times, expected %d" % (i, got, 1 + w.n_renewed.get(i, 0)))

    # ---------------------------------------------------------------- costs
    def cost(self):
        w = self.w
        n_ops = self.storage.get_n_ops()
        for l in range(self.L):
            fine = w.sc["params"][l][0]
            ex = [e for e in w.execs if e["fine"] == fine and e["t1"] is not None]
            stored = set(self.acked_ids(l))
            if not ex:
                continue
            got = float(n_ops[l]) if l < len(n_ops) else None
            # all calculated samples, or the successful ones, or those which returned something
            kinds = [None, ("ok", "nan"), ["ok", "nan", "unpick_res"] + testsim.BAD_RESULTS]
            alts = []
            for k in kinds:
                part = [e for e in ex if k is None or e["kind"] in k]
                n = max(1, len(part))
                alts.append((sum(e["dur"] for e in part) / n, sum(e["t1"] - e["t0"] for e in part) / n))
            if got is None or not any(a * (1 - 1e-6) - 1e-9 <= got <= b * (1 + 2e-3) + 2e-3 for a, b in alts):
                self.bad("cost", "level %d: cost per sample %s reported, average calculation time is %.4f (%d samples)" %
                         (l, got, alts[0][0], len(ex)))

    def acked_ids(self, l):
        return self.w.acked.get(l, [])

    # ---------------------------------------------------------------- estimates
    def estimate(self):
        """Estimates reflect exactly the samples stored now (their values are judged by states())"""
        from . import estimate_fam as ef
        from mlmc.quantity.quantity import make_root_quantity
        w, c = self.w, self.c
        self.states()
        sp = self.storage.sample_pairs()
        raw = [np.asarray(a) for a in sp]
        if len(raw) < self.L or any(a.size == 0 for a in raw):
            return
        fmt = w.sc["fmt"]
        n, u, s, t, l = testsim.FORMATS[fmt][-1]
        exprs = [["root"], ["elem", n, t[-1], l[-1], [s[0] - 1, s[1] - 1]], ["item", n]]
        keep = c.__dict__.setdefault("quantities", {})
        fresh = make_root_quantity(self.storage, self.storage.load_result_format())
        for k, e in enumerate(exprs):
            for old in (True, False):
                if old:
                    if k not in keep:
                        keep[k] = ef.build(e, fresh, fmt)
                    ref = keep[k]
                else:
                    ref = ef.build(e, fresh, fmt)
                for op in ({"kind": "mean"}, {"kind": "moments", "moments": ["leg", 3, [-10, 110], True]}, {"kind": "domain", "quantile": 0.1}):
                    if ef.check_estimate(self.bad, ref, self.storage, raw, dict(op, text="%s quantity %s" % ("old" if old else "new", e))):
                        w.sim.probe("estimate_" + op["kind"])

    # ---------------------------------------------------------------- jobs of PBS
    def jobs(self):
        """What the jobs ask for and which samples they hold"""
        w = self.w
        setting = w.sc["pbs"].get("setting") or {}
        base = os.path.join(w.work_dir, "output") + os.sep
        task = dict(zip([p[0] for p in w.sc["params"]], w.cfg["task"]))
        for job in self.c.server.jobs:
            lines = job.script.split("\n")
            k = next((i for i, l in enumerate(lines) if l.strip() and not l.startswith("#")), len(lines))
            header = [l.split(None, 1)[1].strip() for l in lines[:k] if l.startswith("#PBS ")]
            opts = {}
            for h in header:
                o = h.split(None, 1)
                if o[0] == "-l" and len(o) > 1:
                    for x in o[1].split(","):
                        opts["-l " + x.split("=", 1)[0]] = x.split("=", 1)[-1]
                else:
                    opts[o[0]] = o[1] if len(o) > 1 else ""
            if not setting:
                continue
            if not lines[0].startswith("#!"):
                self.bad("job_header", "job %d: the script starts with %r" % (job.n, lines[0]))
            sel = sorted(opts.get("-l select", "").split(":"))
            want = sorted([str(setting["n_nodes"]), "ncpus=%s" % setting["n_cores"], "mem=%s" % setting["mem"]] + setting.get("select_flags", []))
            if sel != want:
                self.bad("job_header", "job %d asks for resources %s, set are %s" % (job.n, sel, want))
            for o, key in (("-l walltime", "walltime"), ("-q", "queue"), ("-N", "pbs_name")):
                if opts.get(o) != setting[key]:
                    self.bad("job_header", "job %d: option %s is %r, set is %r" % (job.n, o, opts.get(o), setting[key]))
            for o in ("-o", "-e"):
                if o in opts and not opts[o].startswith(base):
                    self.bad("job_header", "job %d writes its output outside of the output directory: %s" % (job.n, opts[o]))
            for q in setting["optional_pbs_requests"]:
                if q not in lines[:k]:
                    self.bad("job_header", "job %d: request %r is not in the header" % (job.n, q))
            run = max(i for i, l in enumerate(lines) if "mlmc.tool.pbs_job" in l)
            if lines[run].split()[0] != setting.get("python", "python3"):
                self.bad("job_env", "job %d is run by %r" % (job.n, lines[run].split()[0]))
            env = [i for e in setting["env_setting"] for i, l in enumerate(lines[:run]) if l == e]
            if len(env) != len(setting["env_setting"]) or env != sorted(env) or (env and env[0] < k):
                self.bad("job_env", "job %d: environment setting %s is not prepared before the calculation" % (job.n, setting["env_setting"]))
            wd = [i for i, l in enumerate(lines[:run]) if l.startswith("MLMC_WORKDIR=") and l.split("=", 1)[1].strip("\"'") == w.work_dir]
            if not wd or (env and wd[0] > env[0]):
                self.bad("job_env", "job %d: working directory is not known to the environment setting" % job.n)
        for job in self.c.server.jobs:
            if job.runs != 1 or job.killed_last or job.__dict__.get("errors") or job.state != "F":
                continue
            ex = [e for e in w.execs if e["job"] is job]
            if not ex:
                self.bad("job_empty", "job %d has no samples" % job.n)
                continue
            sizes = [task[e["fine"]] for e in ex]
            if job.after_failure:
                # what could not be submitted is in it
                continue
            if len(ex) > 1001:
                self.bad("job_size", "job %d has %d samples" % (job.n, len(ex)))
            # the job may calculate the samples in another order than they came
            if sum(sizes) - max(sizes) > 1 + 1e-9:
                self.bad("job_size", "job %d was full before its last sample came, task sizes %s" % (job.n, sizes[-10:]))
            exact = all(x % 0.25 == 0 for x in sizes)
            if not job.polled and sum(sizes) <= (1 if exact else 1 - 1e-9) and len(ex) <= 1000:
                self.bad("job_early", "job %d was submitted with %d samples, before it is full, task sizes %s" % (job.n, len(ex), sizes[:10]))

    # ---------------------------------------------------------------- workspace
    def workspace(self, st):
        w = self.w
        base = os.path.join(w.work_dir, "output")
        names = sorted(os.path.basename(c) for c in w.cfg.get("common") or [])
        for e in w.execs:
            lv, i = w.seed_id[e["seed"]]
            if e.get("cwd") is None:
                continue
            if os.path.basename(e["cwd"]) != i:
                self.bad("workspace_dir", "sample %s calculated in directory %s" % (i, e["cwd"]))
            if not os.path.join(w.sim.root, e["cwd"]).startswith(base + os.sep):
                self.bad("workspace_dir", "sample %s calculated outside of the output directory: %s" % (i, e["cwd"]))
            if e["files"] != names:
                self.bad("workspace_clean", "sample %s started with files %s, common files are %s" % (i, e["files"], names))
            for c in w.cfg.get("common") or []:
                b = os.path.basename(c)
                if e.get("common", {}).get(b) != w.common_text[b]:
                    self.bad("workspace_common", "sample %s: content of common file %s differs" % (i, b))
            if e["t1"] is not None and e.get("files_end") is not None:
                want = sorted(names + ["out_%d_%d.txt" % (e["seed"], e["attempt"])])
                if e["files_end"] != want and not w.lostack and not w.crashed:
                    self.bad("workspace_private", "sample %s: directory disturbed during the calculation: %s" % (i, e["files_end"]))
        if w.wiped:
            return
        debug = w.sc["pool"].get("debug", False)
        failed_dir = os.path.join(base, "failed")
        succ_dir = os.path.join(base, "several_successful")
        for l in range(self.L):
            for k, i in enumerate(st["sched"].get(l, [])):
                ex = [e for e in w.execs if e["seed"] == w.id_seed[i]]
                if not ex or any(e["t1"] is None for e in ex) or w.crashed or w.jobs_died or w.lostack:
                    continue
                ok = ex[-1]["kind"] in ("ok", "nan")
                mark = "out_%d_%d.txt" % (ex[-1]["seed"], ex[-1]["attempt"])
                here = os.path.join(base, i)
                if ex[-1].get("litter") in ("rmself", "fifo"):
                    # the sample took its directory away, or left what can not be copied
                    continue
                if i in w.transport_failed or ex[-1]["kind"] == "unpick_res":
                    continue
                if not ok:
                    if not os.path.exists(os.path.join(failed_dir, i, mark)):
                        self.bad("workspace_failed_kept", "directory of failed sample %s is not in the failed folder" % i)
                    if os.path.exists(here):
                        self.bad("workspace_removed", "directory of failed sample %s left in the output directory" % i)
                elif debug:
                    if not os.path.exists(os.path.join(here, mark)):
                        self.bad("workspace_debug", "debug: directory of sample %s was not kept" % i)
                else:
                    if os.path.exists(here):
                        self.bad("workspace_removed", "directory of sample %s was not removed" % i)
                    in_succ = os.path.exists(os.path.join(succ_dir, i, mark))
                    if k < 5 and not in_succ:
                        self.bad("workspace_successful_kept", "directory of %s (one of the first successful) was not kept" % i)
                    if k >= 5 and os.path.exists(os.path.join(succ_dir, i)):
                        self.bad("workspace_successful_kept", "directory of %s should have been removed" % i)
        for p, text in w.sentinels.items():
            try:
                with seams.REAL.open(p) as f:
                    t = f.read()
            except OSError:
                t = None
            if t != text:
                self.bad("workspace_outside", "file outside of the pool's output directory changed: %s" % os.path.relpath(p, w.sim.root))


def build_world(sim, sc, table):
    w = World(sim, sc, table)
    root = sim.root
    w.work_dir = os.path.join(root, "work")
    w.hdf_path = os.path.join(root, "store", "mlmc.hdf5")
    os.makedirs(os.path.join(root, "store"))
    os.makedirs(w.work_dir)
    os.makedirs(os.path.join(root, "common"))
    os.makedirs(os.path.join(root, "cwd"))
    w.sentinels = {}
    for p in ("work/user.txt", "cwd/user.txt", "store/other.txt"):
        p = os.path.join(root, p)
        with open(p, "w") as f:
            f.write("keep " + os.path.basename(p))
        w.sentinels[p] = "keep " + os.path.basename(p)
    cfg = dict(sc.get("sim") or {"salt": 0})
    cfg["params"] = sc["params"]
    cfg["fmt"] = sc.get("fmt", "one")
    cfg["size"] = testsim.format_size(cfg["fmt"])
    cfg["task"] = sc.get("task") or [0.1] * len(sc["params"])
    w.common_text = {}
    if cfg.get("workspace"):
        cfg["common"] = []
        for k in range(cfg.get("n_common", 1)):
            p = os.path.join(root, "common", "common_%d.yaml" % k)
            text = "common %d\n" % k
            if k == 0 and cfg["fmt"] == "synth":
                p = os.path.join(root, "common", "synth_sim_config.yaml")
                text = "distr: norm\nnan_fraction: 0.0\n"
            with open(p, "w") as f:
                f.write(text)
            cfg["common"].append(p)
            w.common_text[os.path.basename(p)] = text
            w.sentinels[p] = text
        if sc.get("missing_common"):
            cfg["common"].append(os.path.join(root, "common", "not_there.yaml"))
    if cfg["fmt"] == "flow":
        cfg["flow_config"] = flow.config(w)
    if sc.get("unpick_level") is not None:
        cfg["unpick_level"] = sc["unpick_level"]
    w.cfg = cfg
    w.started = False
    w.commands = None
    w.flow_levels = {}
    w.st_cache = None
    w.transport_failed = set()
    w.jobs_died = False
    w.lostack = False
    w.acked_jobs = set()
    w.acked_failed = {}
    w.was_renewed = set()
    w.n_renewed = {}
    w.renew_tries = {}
    w.requeued = False
    w.wiped = False
    return w


def _families():
    from . import storage_fam, estimate_fam
    return {"S": storage_fam.storage_world, "F": storage_fam.format_world, "E": estimate_fam.estimate_world}


FAMILIES = {}


def run(sc, table, decisions=None, trace=False):
    """Run the scenario; decisions=None: search (decisions drawn from the scenario's seed), else replay."""
    res = Result()
    if not FAMILIES:
        FAMILIES.update(_families())
    root = tempfile.mkdtemp(prefix="mlmcsim", dir=SCRATCH)
    sim = core.Sim(root, sc["seed"], decisions, sc.get("knobs"), line_budget=2000000 if sc.get("many") else 400000)
    if trace:
        sim.trace = []
    w = build_world(sim, sc, table)
    server = None
    if sc["family"] == "P":
        server = pbs.PbsServer(sim, sc["pbs"], env.job_code)
        hook_server(server, w)
    if w.cfg["fmt"] == "flow":
        w.commands = sim.popen = flow.Commands(w, sim.popen)
    for r in sc.get("rules", []):
        sim.add_rule(**r)
    sim.want_snap = any(l.get("crash") or l.get("kill") is not None for l in sc.get("lives", ())) or \
        any((o.get("fault") or {}).get("kind") == "kill" for o in sc.get("ops", ()))
    w.server = server
    box = {}

    def world():
        if sc["family"] in FAMILIES:
            try:
                FAMILIES[sc["family"]](w, sim, sc, box)
            except Stop:
                pass
            return
        client = None
        for k, life in enumerate(sc["lives"]):
            life = dict(life, index=k)
            w.life = k
            if k and not sc["pool"].get("debug"):
                w.wiped = True
            client = Client(w, life, server)
            proc = core.Proc(sim, "master%d" % k, os.path.join(root, "cwd"))
            done = {}
            me = sim.cur

            def fin(t, done=done, me=me):
                done["x"] = t
                sim.wake(me)
            sim.spawn(proc, "m%d" % k, client.body, on_exit=fin)
            while "x" not in done:
                sim.block()
            t = done["x"]
            if t.exc is not None:
                e, t.exc = t.exc, None
                raise e
            if w.viol or (w.foreign and proc.alive and not client.done and not client.fatal):
                return
            errs = [x for x in sim.errors]
            if not proc.alive:
                w.crashed = True
                w.pending_ack = None
                sim.probe("master_crashed")
            elif client.fatal:
                w.crashed = True
                sim.exit_proc(proc)
                w.pending_ack = None
            elif not client.done:
                raise core.HarnessError("client ended without result")
            elif k + 1 < len(sc["lives"]):
                w.crashed = True        # an orderly end, but with work outstanding
                sim.exit_proc(proc)
            if k + 1 < len(sc["lives"]):
                out = life.get("outage", 0)
                if out:
                    sim.block(out)
        box["client"] = client
        if client.fatal:
            return
        sim.frozen = True
        try:
            Judge(w, client).final()
            if sc["storage"] == "hdf":
                from mlmc.sample_storage_hdf import SampleStorageHDF
                st2 = SampleStorageHDF(w.hdf_path)
                Judge(w, client, st2).final()
                if ["cost"] in sc["lives"][-1]["ops"] and not w.viol:
                    Judge(w, client, st2).cost()
        except Stop:
            pass
        except core.HarnessError:
            raise
        except Exception as e:
            tb = traceback.format_exc()
            if in_repo(tb):
                w.viol.append(Violation("exception", "reading the results raised %s: %s\n%s" % (type(e).__name__, e, tb[-1500:])))
            else:
                raise
        finally:
            sim.frozen = False

    old_out, old_err = sys.stdout, sys.stderr
    sys.stdout = env.NullOut()
    seams.set_sim(sim)
    testsim.WORLD = w
    seams.reset_entropy()
    try:
        gc.disable()
        for t, d in sc.get("jumps") or []:
            sim.at(t, lambda d=d: clock_step(sim, d))
        sim.run(world, root)
    except Stop:
        pass
    except BaseException as e:
        tb = "".join(traceback.format_exception(e))
        if isinstance(e, KeyboardInterrupt):
            raise
        if isinstance(e, Exception) and raised_by_repo(e) and not w.viol:
            w.viol.append(Violation("exception", "%s: %s\n%s" % (type(e).__name__, str(e)[:300], tb[-1500:])))
        else:
            res.harness_error = tb
    finally:
        gc.enable()
        sys.stdout = old_out
        seams.set_sim(None)
        testsim.WORLD = None
        for k in list(sim.h5):
            pass
        shutil.rmtree(root, ignore_errors=True)
    res.violations = w.viol
    res.foreign = w.foreign
    if not w.viol and res.harness_error is None:
        if sim.abort_reason is not None:
            kind, text = sim.abort_reason
            if kind == "harness":
                res.harness_error = text
            else:
                errs = "; ".join("%s: %s" % (n, tb[-600:]) for n, e, tb in sim.errors)
                res.violations = [Violation("hang", "%s: %s %s" % (kind, text, errs))]
        elif sim.errors:
            n, e, tb = sim.errors[0]
            if isinstance(e, core.HarnessError) or not in_repo(tb):
                res.harness_error = tb
            else:
                res.violations = [Violation("thread_exception", "exception in thread %s: %s" % (n, tb[-1500:]))]
    if res.harness_error is not None and w.foreign:
        res.harness_error = None        # aftermath of a violation of another property
    res.decisions = dict(sim.decisions) if not sim.replay else dict(sim.script)
    res.digest = sim.digest()
    res.sched = sim.sched_hash.hexdigest()
    res.fired = sim.fired
    res.probes = sim.probes
    res.sim_time = sim.t_mono - 1000.0
    res.trace = sim.trace
    res.stats = dict(steps=sim.steps, lines=sim.lines, switches=sim.switches, decisions=sim.n_dec, execs=len(w.execs),
                     life=w.life)
    return res


def hook_server(server, w):
    """Let the world know about the facts its oracles need."""
    real_exited = server.exited
    real_qsub = server.qsub
    real_qstat = server.qstat
    real_show = server._show
    real_start = server.try_start

    def exited(job, t):
        # only an injected death excuses what the job has not done; an error of the job program does not
        job.killed_last = not job.proc.alive or job.__dict__.get("io_run") == job.runs
        if job.killed_last:
            w.jobs_died = True
        if t.exc is not None and not in_repo(t.tb or "") :
            w.notes.append(t.tb)
        real_exited(job, t)

    def qsub(args):
        w.ack_pending()
        n = len(server.jobs)
        log = server.qsub_log
        failed = bool(log) and log[-1] not in ("ok", "life")
        r = real_qsub(args)
        if len(server.jobs) > n:
            server.jobs[-1].polled = server.polled
            server.jobs[-1].after_failure = failed or r[0] != 0
        if len(server.jobs) > n and r[0] == 0:
            w.pending_ack = server.jobs[-1].pbs_id
        if len(server.jobs) > n and r[0] != 0:
            w.lostack = True
        return r

    def qstat(args):
        w.ack_pending()
        return real_qstat(args)

    def job_io_error(job):
        job.io_run = job.runs
        w.jobs_died = True
    server.job_io_error = job_io_error

    def show(job, st):
        if st == "F":
            job.t_f = server.sim.t_mono
        real_show(job, st)

    def try_start(job):
        if job.runs:
            w.requeued = True
        real_start(job)
        if job.state == "F":
            w.jobs_died = True
    server.exited, server.qsub, server._show, server.try_start, server.qstat = exited, qsub, show, try_start, qstat
