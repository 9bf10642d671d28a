"""
Deterministic simulator core: simulated processes and threads (real threads, one running at a time, handed over by a
baton), simulated clock and timers, recorded scheduling decisions, fault rules.

Every decision goes through Sim.choose(); only deviations from the default (0) are recorded, as {decision index: value}.
A run is a pure function of (scenario, decisions or seed, code, PYTHONHASHSEED).
"""
import _thread
import heapq
import hashlib
import os
import random
import sys
import traceback

import numpy as np

from . import modstate


class SimKilled(BaseException):
    """The simulated process was killed; unwinds its threads."""


class SimAbort(BaseException):
    """The run is over (hang, budget); unwinds everything."""


class HarnessError(Exception):
    """A defect of the harness, never reported as a violation."""


_alloc = _thread.allocate_lock
_start = _thread.start_new_thread


WRITES = ("open:w", "open:a", "open:x", "write", "os.mkdir", "h5.open:a", "h5.open:w", "h5w.")


class Proc:
    def __init__(self, sim, name, cwd, argv=None):
        self.sim = sim
        self.name = name
        self.alive = True
        self.threads = []
        self.steps = 0
        self.kill_at = None      # step number at which the process is killed
        self.kill_write = None   # number of writes left to the one at which the process is killed
        self.kill_torn = 0.0     # part of the data of an interrupted raw write that reaches the file
        self.fail_at = None      # step number from which on writes of the process fail
        self.fail_left = 0       # number of failing writes
        self.fail_torn = 0.0     # part of the data of a failed raw write that reaches the file
        self.on_fail = None
        self.argv = list(argv) if argv is not None else ["python"]
        self.cwd_fd = os.open(cwd, os.O_PATH | os.O_DIRECTORY)
        self.pid = 1000 + len(sim.procs)
        self.data = {}
        self.np_state = None
        self.mod_state = None
        self.entered = False
        sim.procs.append(self)

    def set_cwd(self, path):
        fd = os.open(path, os.O_PATH | os.O_DIRECTORY)
        os.close(self.cwd_fd)
        self.cwd_fd = fd


class Th:
    __slots__ = ("sim", "proc", "name", "fn", "lk", "done_lk", "state", "token", "exc", "tb", "killer", "on_exit", "idx", "lines", "unwinding")

    def __init__(self, sim, proc, name, fn):
        self.sim = sim
        self.proc = proc
        self.name = name
        self.fn = fn
        self.lk = _alloc()
        self.lk.acquire()
        self.state = "ready"
        self.token = 0
        self.exc = None
        self.tb = None
        self.killer = None
        self.on_exit = None
        self.lines = 0
        self.unwinding = False
        self.idx = sim.n_threads
        sim.n_threads += 1
        proc.threads.append(self)


class Gap:
    """Number of decisions until the next deviation."""

    def __init__(self, rng, mean):
        self.rng = rng
        self.mean = mean
        self.left = self._draw()

    def _draw(self):
        if self.mean is None:
            return 1 << 60
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def hit(self):
        self.left -= 1
        if self.left <= 0:
            self.left = self._draw()
            return True
        return False


class Sim:
    """One simulated run."""

    def __init__(self, root, seed=0, decisions=None, knobs=None, line_budget=400000, step_budget=60000):
        self.root = root
        self.rng = random.Random(seed * 7919 + 17)
        self.replay = decisions is not None
        self.script = {int(k): v for k, v in (decisions or {}).items()}
        self.decisions = {}
        self.n_dec = 0
        knobs = knobs or {}
        self.knobs = knobs
        self.gaps = {k: Gap(self.rng, knobs.get("gap_" + k, d)) for k, d in
                     (("line", 200), ("step", 10), ("pick", 2), ("perm", 3))}
        self.t_mono = 1000.0
        self.wall_off = 1.6e9
        self.procs = []
        self.n_threads = 0
        self.ready = []
        self.heap = []
        self.seq = 0
        self.cur = None
        self.main = None
        self._frozen = False
        self.pins = {}                  # files kept open while the run is frozen (reading again is cheaper)
        self.running = False
        self.stopping = False
        self.cleaning = False
        self.driver_lk = _alloc()
        self.driver_lk.acquire()
        self.rules = []
        self.fired = {}
        self.probes = {}
        self.abort_reason = None
        self.hash = hashlib.blake2b(digest_size=16)
        self.sched_hash = hashlib.blake2b(digest_size=16)
        self.trace = None
        self.lines = 0
        self.line_budget = line_budget
        self.step_budget = step_budget
        self.progress_at = (0, 0)     # lines and steps when something has happened last time
        self.steps = 0
        self.switches = 0
        self.idle_spins = 0
        self.spin_lines = 0
        self.deadline_hint = None
        self.h5 = {}
        self.want_snap = False
        self.on_kill = []
        self.errors = []          # exceptions which escaped from threads other than the client's
        self.popen = None         # command handler: f(proc, args) -> (rc, stdout, stderr)
        self.tick = 1e-6

    # ---------------------------------------------------------------- log
    def log(self, *what):
        s = "|".join(str(w) for w in what)
        if self.root in s:
            s = s.replace(self.root, "~")
        self.hash.update(s.encode("utf-8", "replace"))
        if self.trace is not None:
            self.trace.append("%.6f %s %s" % (self.t_mono - 1000.0, self.cur.name if self.cur else "-", s))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1
        self.log("FAULT", name)

    # ---------------------------------------------------------------- decisions
    def choose(self, n, label):
        """:return: int in range(n); 0 is the default"""
        if n <= 1:
            return 0
        i = self.n_dec
        self.n_dec = i + 1
        if self.replay:
            k = self.script.get(i, 0)
            return k % n
        if self.gaps[label].hit():
            k = self.rng.randrange(n)
            if k:
                self.decisions[i] = k
            return k
        return 0

    # ---------------------------------------------------------------- threads
    def spawn(self, proc, name, fn, on_exit=None):
        t = Th(self, proc, name, fn)
        t.on_exit = on_exit
        _start(self._boot, (t,))
        self.ready.append(t)
        return t

    def _boot(self, t):
        t.lk.acquire()
        try:
            if not (self.cleaning or t.killer or not t.proc.alive):
                t.fn()
        except (SimKilled, SimAbort):
            pass
        except BaseException as e:
            t.exc = e
            t.tb = traceback.format_exc()
        t.state = "done"
        t.fn = None
        if t in t.proc.threads:
            t.proc.threads.remove(t)
        if t.killer is not None:
            k = t.killer
            self.cur = k
            k.lk.release()
            return
        if self.cleaning:
            self.driver_lk.release()
            return
        if t is self.main or self.stopping:
            self.stopping = True
            self.driver_lk.release()
            return
        try:
            if t.on_exit is not None:
                t.on_exit(t)
            if t.exc is not None:
                self.errors.append((t.name, t.exc, t.tb))
            nxt = self._pick(None)
        except BaseException as e:
            if not isinstance(e, SimAbort):
                self.abort_reason = self.abort_reason or ("harness", "".join(traceback.format_exception(e)))
            self.stopping = True
            self.driver_lk.release()
            return
        self._enter(nxt)
        nxt.lk.release()

    def _enter(self, t):
        """Make t the running thread (process context: cwd, argv)."""
        prev = self.cur
        self.cur = t
        if prev is not t:
            self.idle_spins = 0
        self.spin_lines = 0
        if prev is None or prev.proc is not t.proc:
            try:
                os.fchdir(t.proc.cwd_fd)
            except OSError:
                pass
            sys.argv = t.proc.argv
            # each process has its own state of numpy's global generator
            if prev is not None:
                prev.proc.np_state = np.random.get_state(legacy=False)
                prev.proc.mod_state = modstate.capture()
            modstate.restore(t.proc.mod_state)
            if not t.proc.entered:
                t.proc.entered = True
                if not any(p.alive for p in self.procs[1:] if p is not t.proc):
                    modstate.clear_caches()
            if t.proc.np_state is not None:
                np.random.set_state(t.proc.np_state)
            else:
                np.random.seed(t.proc.pid)
        self.switches += 1
        self.sched_hash.update(b"%d," % t.idx)

    def _switch(self, t):
        me = self.cur
        self._enter(t)
        t.lk.release()
        me.lk.acquire()
        # resumed
        if me.killer is not None or self.cleaning:
            me.unwinding = True
            raise SimKilled()

    def _pick(self, me):
        """Next thread to run; advances time when nobody is ready."""
        while not self.ready:
            if not self.heap:
                self.abort("deadlock", "nothing runnable and no timer pending")
            self._fire_next()
        k = self.choose(len(self.ready), "pick")
        return self.ready.pop(k)

    def _fire_next(self):
        at, _, what, token = heapq.heappop(self.heap)
        if isinstance(what, Th):
            if what.state == "blocked" and what.token == token:
                if at > self.t_mono:
                    self.t_mono = at
                self.idle_spins = 0
                what.state = "ready"
                self.ready.append(what)
        else:
            if at > self.t_mono:
                self.t_mono = at
            self.idle_spins = 0
            what()

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.t_mono + delay, self.seq, fn, 0))

    def block(self, delay=None):
        """Block the current thread until wake() or for the given delay."""
        me = self.cur
        self.check(me)
        me.state = "blocked"
        me.token += 1
        if delay is not None:
            self.seq += 1
            heapq.heappush(self.heap, (self.t_mono + delay, self.seq, me, me.token))
        nxt = self._pick(me)
        if not me.proc.alive and nxt is not me:
            # an event fired just now has killed the process of this thread
            self.ready.insert(0, nxt)
            me.unwinding = True
            raise SimKilled()
        if nxt is not me:
            self._switch(nxt)
        me.state = "ready"
        self.check(me)

    def wake(self, t):
        if t.state == "blocked":
            t.state = "ready"
            t.token += 1
            self.ready.append(t)

    def preempt(self, label):
        me = self.cur
        k = self.choose(len(self.ready) + 1, label)
        if k:
            t = self.ready.pop(k - 1)
            self.ready.append(me)
            self._switch(t)
            self.check(me)

    @property
    def frozen(self):
        return self._frozen

    @frozen.setter
    def frozen(self, value):
        self._frozen = value
        self.unpin()

    def unpin(self):
        while self.pins:
            self.pins.popitem()[1].close()

    def active(self):
        return self.running and not self.frozen

    def dead(self):
        t = self.cur
        return self.cleaning or self.stopping or t.killer is not None or not t.proc.alive

    def check(self, t):
        if self.stopping or self.cleaning:
            t.unwinding = True
            raise SimAbort()
        if t.killer is not None or not t.proc.alive:
            t.unwinding = True
            raise SimKilled()

    def abort(self, kind, text):
        if self.abort_reason is None:
            where = []
            for p in self.procs:
                for t in p.threads:
                    where.append("%s:%s" % (t.name, t.state))
            self.abort_reason = (kind, text + " [" + " ".join(where) + "]")
        self.stopping = True
        if self.cur is not None:
            self.cur.unwinding = True
        raise SimAbort()

    # ---------------------------------------------------------------- time
    def sleep(self, d):
        me = self.cur
        self.check(me)
        self.step("sleep", "")
        if d > 0:
            self.block(d)
            return
        if self.ready:
            # give way to the others: default is the longest waiting one
            k = self.choose(len(self.ready), "pick")
            t = self.ready.pop(k)
            self.ready.append(me)
            self._switch(t)
            self.check(me)
            return
        # a polling loop and nobody else can run: let the time pass
        self.idle_spins += 1
        if self.idle_spins <= 3:
            # the loop may be about to end, so do not let it oversleep
            self.t_mono += 1e-6
            return
        self._drop_stale()
        nxt = self.heap[0][0] if self.heap else None
        hint = self.deadline_hint
        if hint is not None and (nxt is None or hint < nxt) and self.idle_spins < 50:
            # the caller's time limit is the next thing to happen
            self.t_mono = max(self.t_mono, hint) + 1e-6
            return
        if nxt is None:
            self.t_mono += 0.01
            if self.idle_spins > 60:
                self.abort("hang", "polling for ever, nothing is running and no event is pending")
            return
        self._fire_next()
        self.check(me)

    def _drop_stale(self):
        while self.heap:
            at, _, what, token = self.heap[0]
            if isinstance(what, Th) and not (what.state == "blocked" and what.token == token):
                heapq.heappop(self.heap)
            else:
                break

    # ---------------------------------------------------------------- seams
    def step(self, kind, detail="", on_kill=None):
        """One step of a simulated process at a seam: may be its last one, may fail, may lose the processor.
        Returns the part of the data to be written in case of a short write, else None."""
        me = self.cur
        self.check(me)
        p = me.proc
        p.steps += 1
        self.steps += 1
        if self.steps - self.progress_at[1] > self.step_budget or self.steps > 20 * self.step_budget:
            self.abort("hang", "step budget exceeded")
        self.log(kind, detail)
        if p.kill_write is not None and kind == "write":
            p.kill_write -= 1
            if p.kill_write <= 0:
                p.kill_at = p.steps
        if p.kill_at is not None and p.steps >= p.kill_at:
            self.fire("kill:%s:%s" % (p.name.rstrip("0123456789"), kind.split(":")[0]))
            if on_kill is not None and p.kill_torn > 0:
                self.fire("torn_write")
                on_kill(p.kill_torn)
            self.kill(p)
        if p.fail_at is not None and p.steps >= p.fail_at and kind.startswith(WRITES) and kind != "h5w.shrink":
            if on_kill is not None and p.fail_torn > 0:
                # a short write first, the error comes with the next one
                self.fire("short_write")
                f, p.fail_torn = p.fail_torn, 0.0
                return f
            p.fail_left -= 1
            if p.fail_left <= 0:
                p.fail_at = None
            self.fire("ioerror:%s:%s" % (p.name.rstrip("0123456789"), kind.split(":")[0]))
            if p.on_fail is not None:
                p.on_fail()
            raise OSError(28, "simulated I/O error (%s)" % kind)
        for r in self.rules:
            if r["left"] is not None and kind.startswith(r["on"]) and p.name.startswith(r["proc"]) \
                    and (not r.get("path") or r["path"] in detail) and (not r.get("in_sample") or p.data.get("flow_rec")):
                r["left"] -= 1
                if r["left"] < 0:
                    r["more"] = r.get("more", 1) - 1
                    if r["more"] <= 0:
                        r["left"] = None
                    self.fire("oserror:%s" % r["on"])
                    rec = p.data.get("flow_rec")
                    if rec is not None:
                        rec["kind"] = "f_io"
                    raise OSError(r.get("errno", 28), "simulated I/O error (%s)" % kind)
        if self.ready:
            self.preempt("step")

    def progress(self):
        """Something what can happen only a finite number of times: the budgets start again"""
        self.progress_at = (self.lines, self.steps)

    def on_line(self):
        me = self.cur
        if me.unwinding:
            # 'with' and 'finally' blocks of a dead thread: their effects are dropped at the seams
            me.lines += 1
            if me.lines % 5000:
                return
            raise SimAbort() if self.stopping or self.cleaning else SimKilled()
        if self.stopping or self.cleaning:
            me.unwinding = True
            raise SimAbort()
        if me.killer is not None or not me.proc.alive:
            me.unwinding = True
            raise SimKilled()
        self.lines += 1
        if self.lines - self.progress_at[0] > self.line_budget or self.lines > 10000000:
            self.abort("hang", "line budget exceeded")
        self.spin_lines += 1
        if self.ready:
            if self.spin_lines > 3000:
                # end of the time slice: the longest waiting thread runs
                self.spin_lines = 0
                t = self.ready.pop(0)
                self.ready.append(me)
                self._switch(t)
                self.check(me)
            else:
                self.preempt("line")
        else:
            if self.spin_lines > 5000 and self.heap:
                # a loop which polls without sleeping: the time passes nevertheless
                self.spin_lines = 0
                self._drop_stale()
                if not self.heap:
                    return
                hint = self.deadline_hint
                if hint is not None and self.t_mono < hint < self.heap[0][0]:
                    self.t_mono = hint + 1e-6
                else:
                    self._fire_next()

    def add_rule(self, on, proc="", nth=0, **kw):
        self.rules.append(dict(on=on, proc=proc, left=nth, **kw))

    # ---------------------------------------------------------------- process death
    def kill(self, p, raise_=True):
        """Kill the process: its threads are unwound at once, nothing they do takes effect any more."""
        me = self.cur
        p.alive = False
        self.log("KILLED", p.name)
        for t in list(p.threads):
            if t is me:
                continue
            if t in self.ready:
                self.ready.remove(t)
            t.token += 1
            t.state = "dying"
            t.killer = me
            self.cur = t
            t.lk.release()
            me.lk.acquire()
            self.cur = me
            if t.on_exit is not None:
                t.on_exit(t)
        for c in p.data.get("children", ()):
            if c.alive:
                self.kill(c, raise_=False)
        for f in list(self.on_kill):
            f(p)
        if me.proc is p and raise_:
            me.unwinding = True
            raise SimKilled()

    def exit_proc(self, p):
        """Orderly end of a process (its remaining threads are discarded)."""
        if p.alive:
            p.alive = False
            me = self.cur
            for t in list(p.threads):
                if t is me:
                    continue
                if t in self.ready:
                    self.ready.remove(t)
                t.token += 1
                t.state = "dying"
                t.killer = me
                self.cur = t
                t.lk.release()
                me.lk.acquire()
                self.cur = me
            for c in p.data.get("children", ()):
                if c.alive:
                    self.kill(c, raise_=False)

    # ---------------------------------------------------------------- run
    def run(self, fn, cwd):
        """Run fn as the main thread of the 'world'; returns when it ends or the run is aborted."""
        world = Proc(self, "world", cwd, sys.argv)
        self.world = world
        self.main = self.spawn(world, "world", fn)
        self.ready.remove(self.main)
        old_cwd = os.open(".", os.O_PATH | os.O_DIRECTORY)
        old_argv = sys.argv
        self.running = True
        self._enter(self.main)
        self.main.lk.release()
        self.driver_lk.acquire()
        # unwind all what is left
        self.cleaning = True
        for p in list(self.procs):
            for t in list(p.threads):
                self.cur = t
                t.lk.release()
                self.driver_lk.acquire()
        self.running = False
        self.cur = None
        os.fchdir(old_cwd)
        os.close(old_cwd)
        sys.argv = old_argv
        for p in self.procs:
            try:
                os.close(p.cwd_fd)
            except OSError:
                pass
        if self.main.exc is not None:
            raise self.main.exc

    def digest(self):
        return self.hash.hexdigest()
