"""
Model of a PBS server: qsub, qstat -x, queue delays, job start and end, job death and rerun. The jobs themselves run
the real job program (the __main__ part of mlmc.tool.pbs_job) as simulated processes.
"""
import os
import re
import shlex

from . import core, seams


class Job:
    def __init__(self, pbs_id, script, n):
        self.pbs_id = pbs_id
        self.script = script
        self.n = n
        self.state = "Q"
        self.shown = "Q"
        self.proc = None
        self.runs = 0
        self.reported_f = False
        self.t_start = None
        self.polled = self.after_failure = self.killed_last = False


class PbsServer:
    def __init__(self, sim, cfg, job_code):
        """
        cfg: first_id, id_step, queue (mean delay), lag (delay of F state in qstat), slots, forget,
             qsub: [outcome of n-th qsub], qstat: [outcome of n-th qstat],
             jobs: {job number: {"kill": step, "torn": f, "when": "queued"|"run", "requeue": bool}}
        """
        self.sim = sim
        self.cfg = cfg
        self.code = job_code
        self.jobs = []
        self.by_id = {}
        self.next_id = cfg.get("first_id", 100)
        self.n_qsub = 0
        self.n_qstat = 0
        self.qsub_log = []
        self.qstat_log = []
        self.waiting = []
        self.running = 0
        self.faults_on = True
        self.polled = False       # the pool is just asked for results
        self.t_fail = 0.0         # time of the last failed command
        sim.popen = self.command

    # -------------------------------------------------------------- commands
    def command(self, proc, args):
        if args[0] == "qsub":
            return self.qsub(args[1:])
        if args[0] == "qstat":
            return self.qstat(args[1:])
        raise core.HarnessError("unknown command %r" % (args,))

    def _fault(self, kind, n):
        if not self.faults_on:
            return "ok"
        seq = self.cfg.get(kind) or {}
        return seq.get(str(n), "ok")

    def qsub(self, args):
        s = self.sim
        n = self.n_qsub
        self.n_qsub += 1
        what = self._fault("qsub", n)
        self.qsub_log.append(what)
        if what != "ok":
            self.t_fail = s.t_mono
        if what == "reject":
            s.fire("qsub_reject")
            rc, err = self._pick("qsub", n, [(1, "qsub: Error connecting to server"), (-9, ""), (163, "qsub: Job exceeds queue limits"),
                                             (188, "qsub: Maximum number of jobs already in queue"), (255, "qsub: Budget exceeded")])
            return rc, "", err
        script = args[-1]
        if not os.path.exists(script):
            return 2, "", "qsub: script file:: No such file or directory"
        pbs_id = str(self.next_id)
        self.next_id += self.cfg.get("id_steps", [1])[len(self.jobs) % len(self.cfg.get("id_steps", [1]))]
        with seams.REAL.open(script) as f:
            text = f.read()
        job = Job(pbs_id, text, len(self.jobs))
        self.jobs.append(job)
        self.by_id[pbs_id] = job
        s.log("qsub", pbs_id)
        q = self.cfg.get("queue", 1.0)
        from .testsim import h01
        s.at(q * h01(self.cfg.get("salt", 0), job.n, "queue") * 2, lambda: self.try_start(job))
        if what == "lostack":
            s.fire("qsub_lostack")
            return 1, "", "qsub: Connection timed out"
        return 0, pbs_id + ".meta-pbs.metacentrum.cz\n", ""

    def qstat(self, args):
        s = self.sim
        n = self.n_qstat
        self.n_qstat += 1
        what = self._fault("qstat", n)
        self.qstat_log.append(what)
        if what != "ok":
            s.fire("qstat_fail")
            self.t_fail = s.t_mono
            rc, err = self._pick("qstat", n, [(1, "qstat: cannot connect to server meta-pbs (errno=15010)"), (2, "qstat: illegal option"),
                                              (-15, ""), (153, "qstat: Unknown Job Id 9999999.meta-pbs.metacentrum.cz"),
                                              (171, "qstat: End of File"), (255, "pbs_iff: cannot connect to host\nNo Permission.")])
            out = ""
            if self._pick("part", n, [0, 0, 1]):
                # the connection broke in the middle of the answer
                out = self.table([j for j in self.jobs if j.pbs_id in [a.split(".")[0] for a in args]])
                out = out[:int(len(out) * self._pick("part_len", n, [0.2, 0.5, 0.9]))]
            return rc, out, err
        ids = [a.split(".")[0] for a in args if not a.startswith("-")]
        rc = 0
        err = ""
        shown = []
        known = [(i, self.by_id.get(i)) for i in ids]
        if not ids:
            known = [(j.pbs_id, j) for j in self.jobs]
        for i, job in known:
            if job is None or (self.cfg.get("forget") and job.reported_f):
                rc = 153
                err += "qstat: Unknown Job Id %s.meta-pbs.metacentrum.cz\n" % i
            elif job.shown == "F" and "-x" not in args:
                rc = 35
                err += "qstat: %s.meta-pbs.metacentrum.cz Job has finished\n" % i
            else:
                shown.append(job)
        out = self.table(shown)
        for job in shown:
            if job.shown == "F":
                job.reported_f = True
        s.log("qstat", [(j.pbs_id, j.shown) for j in shown])
        return rc, out, err

    def _pick(self, what, n, options):
        from .testsim import h01
        return options[int(h01(self.cfg.get("salt", 0), n, "pick", what) * len(options))]

    def table(self, jobs):
        lines = []
        for job in jobs:
            st = job.shown
            if st == "Q":
                # held, waiting for resources or being moved are states of a queued job, a running one may be suspended
                st = self._pick("Q", job.n, ["Q", "Q", "H", "W", "T"])
            elif st == "R":
                st = self._pick("R", job.n, ["R", "R", "S"])
            t = "0" if job.shown == "Q" else "%02d:%02d:%02d" % (0, (job.n * 7) % 60, (job.n * 13) % 60)
            user, queue = self._pick("user", 0, [("user1", "q_2h"), ("F", "q_2h"), ("user1", "F"), ("F1", "F2")]) \
                if self.cfg.get("names") else ("user1", "q_2h")
            lines.append("%-17s %-16s %-17s %8s %s %s" % (job.pbs_id + ".meta-pbs", "MLMC_F", user, t, st, queue))
        if not lines:
            return ""
        return "Job id            Name             User              Time Use S Queue\n" \
               "----------------  ---------------- ----------------  -------- - -----\n" + "\n".join(lines) + "\n"

    # -------------------------------------------------------------- jobs
    def fault(self, job):
        if not self.faults_on:
            return {}
        return (self.cfg.get("jobs") or {}).get(str(job.n), {})

    def try_start(self, job):
        s = self.sim
        f = self.fault(job)
        if f.get("when") == "queued" and job.runs == 0:
            s.fire("job_deleted_in_queue")
            job.state = "F"
            self._show(job, "F")
            return
        if self.running >= self.cfg.get("slots", 100):
            self.waiting.append(job)
            return
        self.start(job)

    def start(self, job):
        s = self.sim
        self.running += 1
        job.state = "R"
        self._show(job, "R")
        line = [l for l in job.script.split("\n") if "mlmc.tool.pbs_job" in l][-1]
        words = shlex.split(line.split(">")[0])
        i = words.index("mlmc.tool.pbs_job")
        argv = [words[i]] + words[i + 1:]
        p = core.Proc(s, "job%d" % job.n, s.root, argv)
        job.proc = p
        f = self.fault(job)
        if f.get("kill") is not None and job.runs == 0:
            p.kill_at = f["kill"]
            p.kill_torn = f.get("torn", 0.0)
        if f.get("kill_write") is not None and job.runs == 0:
            p.kill_write = f["kill_write"]
            p.kill_torn = f.get("torn", 0.0)
        if f.get("fail") is not None and job.runs == 0:
            p.fail_at, p.fail_left, p.fail_torn = f["fail"], f.get("more", 1), f.get("torn", 0.0)
            p.on_fail = lambda: self.job_io_error(job)
        job.runs += 1
        p.data["job"] = job
        s.spawn(p, "job%d.%d" % (job.n, job.runs), lambda: self.body(job), on_exit=lambda t: self.exited(job, t))

    def job_io_error(self, job):
        pass

    def body(self, job):
        exec(self.code, {"__name__": "__main__", "__builtins__": __builtins__, "__file__": self.code.co_filename})

    def exited(self, job, t):
        s = self.sim
        p = job.proc
        killed = not p.alive
        if t.exc is not None:
            job.error = (t.exc, t.tb)
            job.__dict__.setdefault("errors", []).append(t.tb)
            t.exc = None      # a job's failure is the job's business; the oracle looks at its consequences
            s.probe("job_exit_error")
        p.alive = False
        self.running -= 1
        f = self.fault(job)
        if killed and f.get("requeue") and job.runs == 1:
            s.fire("job_requeued")
            job.state = "Q"
            self._show(job, "Q")
            s.at(1.0 + self.cfg.get("queue", 1.0), lambda: self.try_start(job))
        else:
            job.state = "F"
            lag = self.cfg.get("lag", 0)
            if lag:
                job.shown = "E"
                s.at(lag, lambda: self._show(job, "F"))
            else:
                self._show(job, "F")
        if self.waiting and self.running < self.cfg.get("slots", 100):
            self.start(self.waiting.pop(0))

    def _show(self, job, st):
        self.sim.progress()
        job.shown = st
