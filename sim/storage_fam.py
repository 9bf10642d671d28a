"""
S family: histories of storage calls with failing writes, crashes and reopenings against a reference model (C06, C10,
C15). F family: reopening a file with the same or another result format (C16). E family: estimates (C11).

The client is a simulated process; a crash kills it at a seam step and a new process reopens the file.
"""
import gc
import os
import random
import weakref

import numpy as np

from . import core, props, seams, testsim


class Fail(Exception):
    pass


def sid(level, k):
    return "L%02d_S%07d" % (level, k)


def sval(level, k, size, nan=False):
    """Value of a sample of the storage families: distinct, exactly representable"""
    f = np.array([level * 1e6 + k * 100 + j + 0.5 for j in range(size)])
    c = np.zeros(size) if level == 0 else -f / 2
    if nan:
        f[-1] = np.nan
    return f, c


def message(kind, k):
    return {"short": "failed %d" % k, "long": "m%d " % k + "x" * 3000, "uni": "chyba %d \u017elu\u0165 \U0001F600" % k, "empty": ""}[kind]


class Model:
    def __init__(self, L, size):
        self.L = L
        self.size = size
        self.sched = [[] for _ in range(L)]
        self.coll = [[] for _ in range(L)]      # (id, fine, coarse)
        self.failed = [[] for _ in range(L)]
        self.nops = [[0.0, 0] for _ in range(L)]

    def free(self, l):
        done = {c[0] for c in self.coll[l]} | set(self.failed[l])
        return [i for i in self.sched[l] if i not in done]


def read(storage, L):
    """What the storage says about samples: (sched, coll rows, failed) per level"""
    sched = storage.load_scheduled_samples()
    failed = storage.failed_samples()
    sp = storage.sample_pairs()
    out = []
    for l in range(L):
        s = [str(i) for i in sched.get(l, [])]
        fl = failed.get(str(l), failed.get(l, []))
        fl = [x if isinstance(x, str) else (x.decode() if isinstance(x, bytes) else str(x[0])) for x in fl]
        a = np.asarray(sp[l]) if l < len(sp) else np.zeros(0)
        rows = [] if a.size == 0 else [a[:, i, :] for i in range(a.shape[1])]
        out.append((s, rows, fl))
    return out


def row(c, l):
    return c[1][:, None] if l == 0 else np.stack([c[1], c[2]], axis=1)


def same_rows(rows, coll, l):
    return len(rows) == len(coll) and all(np.array_equal(r, row(c, l), equal_nan=True) for r, c in zip(rows, coll))


def same_format(a, b):
    return len(a) == len(b) and all((x.name, x.unit) == (y.name, y.unit) and np.array_equal(x.shape, y.shape) and
                                    np.array_equal(x.times, y.times) and np.array_equal(x.locations, y.locations) for x, y in zip(a, b))


class StorageClient:
    """One life of the process using the storage"""

    def __init__(self, w, start):
        self.w = w
        self.sim = w.sim
        self.sc = w.sc
        self.i = start
        self.hdf = None
        self.done = False

    def bad(self, oracle, text):
        self.w.bad(oracle, text)

    def frozen(self):
        return self.w.frozen_cm(self.sim)

    # ------------------------------------------------------------------ life
    def body(self):
        from .runner import Stop
        w = self.w
        try:
            self.guarded({"op": "reopen", "glob": True})
            while self.i < len(self.sc["ops"]):
                op = self.sc["ops"][self.i]
                w.cur_op = op
                self.sim.log("OP", self.i, op["op"])
                self.run_op(op)
                w.cur_op = None
                self.i += 1
            self.done = True
        except Stop:
            pass

    def arm(self, op):
        f = op.get("fault")
        proc = self.sim.cur.proc
        if not f:
            return
        if f["kind"] == "kill":
            proc.kill_at = proc.steps + f["step"]
        else:
            self.sim.add_rule(f["on"], "store", f["nth"], more=f.get("more", 1))

    def disarm(self):
        self.sim.rules = []

    def run_op(self, op):
        from .runner import Stop
        import traceback
        w = self.w
        proc = self.sim.cur.proc
        self.plan = self.make_plan(op)
        w.cur_plan = self.plan
        self.arm(op)
        failed = None
        n_fired = sum(self.sim.fired.values())
        try:
            self.apply(self.hdf, op, self.plan)
        except (Stop, core.HarnessError):
            raise
        except Exception as e:
            if sum(self.sim.fired.values()) == n_fired:
                self.bad("exception", "%s raised %s: %s\n%s" % (op["op"], type(e).__name__, str(e)[:200], traceback.format_exc()[-1200:]))
            failed = e
        finally:
            if not self.sim.dead():
                self.disarm()
        proc.kill_at = None
        if failed is not None:
            self.sim.probe("io_error_reached_client")
            with self.frozen():
                self.partial(op, self.plan)
            if op.get("reopen_after"):
                self.guarded({"op": "reopen", "glob": True})
            # the same call again
            self.guarded(op, self.plan)
        self.commit(op, self.plan)
        w.cur_plan = None
        with self.frozen():
            self.apply_memory(op, self.plan)
            self.check_all()

    def guarded(self, op, plan=None):
        """An operation without a fault: whatever it raises is a violation"""
        from .runner import Stop
        import traceback
        try:
            self.apply(self.hdf, op, plan)
        except (Stop, core.HarnessError):
            raise
        except Exception as e:
            self.bad("exception", "%s raised %s: %s\n%s" % (op["op"], type(e).__name__, str(e)[:200], traceback.format_exc()[-1200:]))

    # ------------------------------------------------------------------ operations
    def make_plan(self, op):
        m = self.w.model
        k = op["op"]
        if k == "sched":
            n0 = len(m.sched[op["level"]])
            return [sid(op["level"], n0 + j) for j in range(op["n"])]
        if k == "save":
            r = random.Random(op["seed"])
            ok, fail = {}, {}
            for l, n_ok, n_fail in op["levels"]:
                free = m.free(l)
                r.shuffle(free)
                a, b = free[:n_ok], free[n_ok:n_ok + n_fail]
                rows = []
                for i in a:
                    f, c = sval(l, int(i.split("S")[1]), m.size, nan=r.random() < op.get("p_nan", 0))
                    rows.append((i, f, c))
                if rows or op.get("empty"):
                    ok[l] = rows
                if b or op.get("empty"):
                    fail[l] = [(i, message(r.choice(op.get("msgs", ["short"])), int(i.split("S")[1]))) for i in b]
            return ok, fail
        return None

    def apply(self, st, op, plan):
        k = op["op"]
        if k == "reopen":
            from mlmc.sample_storage_hdf import SampleStorageHDF
            self.hdf = None
            st = SampleStorageHDF(self.w.hdf_path)
            if op["glob"]:
                st.save_global_data(level_parameters=self.sc["params"], result_format=testsim.make_format(self.sc["fmt"]))
            self.hdf = st
        elif k == "sched":
            st.save_scheduled_samples(op["level"], list(plan))
        elif k == "save":
            ok, fail = plan
            st.save_samples({l: [(i, (f.copy(), c.copy())) for i, f, c in v] for l, v in ok.items()},
                            {l: list(v) for l, v in fail.items()})
        elif k == "nops":
            st.save_n_ops([(l, [t, n]) for l, t, n in op["data"]])
        elif k == "clear":
            st.clear_failed()
        elif k == "query":
            pass
        else:
            raise core.HarnessError("unknown op %r" % (op,))

    def apply_memory(self, op, plan):
        import traceback
        from .runner import Stop
        if op["op"] in ("reopen", "query"):
            return
        try:
            self.apply(self.w.memory, op, plan)
        except Exception as e:
            self.bad("exception", "Memory: %s raised %s: %s\n%s" % (op["op"], type(e).__name__, str(e)[:200], traceback.format_exc()[-1200:]))

    def commit(self, op, plan):
        m = self.w.model
        k = op["op"]
        if k == "sched":
            m.sched[op["level"]] += plan
        elif k == "save":
            for l, rows in plan[0].items():
                m.coll[l] += rows
            for l, rows in plan[1].items():
                m.failed[l] += [i for i, _ in rows]
        elif k == "clear":
            m.failed = [[] for _ in range(m.L)]
        elif k == "nops":
            for l, t, n in op["data"]:
                if n > 0:
                    m.nops[l][0] += t
                    m.nops[l][1] += n

    # ------------------------------------------------------------------ oracles
    def partial(self, op, plan, adopt=False):
        """
        State after an interrupted operation: every sample of it is stored with its value or not at all, in order.
        adopt: take over what is stored (after a crash); else only check.
        """
        w, m = self.w, self.w.model
        k = op["op"]
        st = self.hdf
        if adopt:
            new_ok, new_fail, new_sched = {}, {}, {}
        now = read(st, m.L)
        for l, (sched, rows, fl) in enumerate(now):
            want = m.sched[l] + (plan if k == "sched" and op["level"] == l else [])
            if len(sched) < len(m.sched[l]) or sched != want[:len(sched)]:
                self.bad("partial_sched", "level %d: scheduled ids after the interrupted %s: %s" % (l, k, sched[-4:]))
            extra = plan[0].get(l, []) if k == "save" else []
            coll = m.coll[l] + extra
            if len(rows) < len(m.coll[l]) or not same_rows(rows, coll[:len(rows)], l):
                self.bad("partial_values", "level %d: %d rows after the interrupted %s, %d before it, %d to be stored; they are not the "
                         "values of the samples in order" % (l, len(rows), k, len(m.coll[l]), len(extra)))
            fextra = [i for i, _ in plan[1].get(l, [])] if k == "save" else []
            if k == "clear" and fl == []:
                pass
            else:
                fw = m.failed[l] + fextra
                if len(fl) < len(m.failed[l]) or fl != fw[:len(fl)]:
                    self.bad("partial_failed", "level %d: failed ids after the interrupted %s: %s" % (l, k, fl[-4:]))
            nf = st.n_finished()
            if int(nf[l]) != len(rows) + len(fl):
                self.bad("partial_counts", "level %d: %d finished reported, %d rows and %d failed stored" % (l, int(nf[l]), len(rows), len(fl)))
            nc = st.get_n_collected()
            if int(nc[l]) != len(rows):
                self.bad("partial_counts", "level %d: %d collected reported, %d rows" % (l, int(nc[l]), len(rows)))
            if adopt:
                n_new = len(rows) - len(m.coll[l])
                m.coll[l] = coll[:len(rows)]
                m.failed[l] = list(fl)
                m.sched[l] = list(sched)
                if k == "save":
                    new_ok[l] = extra[:n_new]
        un = sorted(str(i) for i in st.unfinished_ids())
        if adopt:
            want = sorted(i for l in range(m.L) for i in m.free(l))
            if un != want:
                self.bad("unfinished_ids", "unfinished %s expected %s" % (un[:5], want[:5]))
        self.layout(now)

    def layout(self, now):
        """Collected ids go with their own values (documented data sets of the file)"""
        with seams.REAL.H5File(self.w.hdf_path, "r") as f:
            for l, (_, rows, _) in enumerate(now):
                g = f.get("/Levels/%d" % l)
                if g is None or "collected_ids" not in g:
                    continue
                ids = [r[0].decode() if not isinstance(r, bytes) else r.decode() for r in g["collected_ids"][()]]
                if len(ids) != len(rows):
                    self.bad("alignment", "level %d: %d collected ids, %d values" % (l, len(ids), len(rows)))
                for i, v in zip(ids, rows):
                    j = next((t for t in range(len(v)) if np.isfinite(v[t, 0])), None)
                    if j is None:
                        continue
                    if v[j, 0] != l * 1e6 + int(i.split("S")[1] if "S" in i else -1) * 100 + j + 0.5:
                        self.bad("alignment", "level %d: id %r stored with the value %s" % (l, i, v[0]))

    def check_all(self):
        for name, st in (("HDF", self.hdf), ("Memory", self.w.memory)):
            self.check(name, st)

    def check(self, name, st):
        import traceback
        from .runner import Stop
        try:
            self._check(name, st)
        except (Stop, core.HarnessError):
            raise
        except Exception as e:
            self.bad("exception", "%s: query raised %s: %s\n%s" % (name, type(e).__name__, str(e)[:200], traceback.format_exc()[-1200:]))

    def _check(self, name, st):
        m = self.w.model
        now = read(st, m.L)
        for l, (sched, rows, fl) in enumerate(now):
            if sched != m.sched[l]:
                self.bad("sched", "%s level %d: scheduled %s, expected %s" % (name, l, sched[-4:], m.sched[l][-4:]))
            if not same_rows(rows, m.coll[l], l):
                self.bad("values", "%s level %d: %d collected rows, expected the values of %s" % (name, l, len(rows), [c[0] for c in m.coll[l]][-4:]))
            if fl != m.failed[l]:
                self.bad("failed", "%s level %d: failed %s, expected %s" % (name, l, fl[-4:], m.failed[l][-4:]))
        nf, nc = list(st.n_finished()), list(st.get_n_collected())
        if [int(x) for x in nf] != [len(m.coll[l]) + len(m.failed[l]) for l in range(m.L)]:
            self.bad("n_finished", "%s: finished %s" % (name, nf))
        if [int(x) for x in nc] != [len(m.coll[l]) for l in range(m.L)]:
            self.bad("n_collected", "%s: collected %s, expected %s" % (name, nc, [len(m.coll[l]) for l in range(m.L)]))
        un = sorted(str(i) for i in st.unfinished_ids())
        want = sorted(i for l in range(m.L) for i in m.free(l))
        if un != want:
            self.bad("unfinished_ids", "%s: unfinished %s expected %s" % (name, un[:5], want[:5]))
        if int(st.get_n_levels()) != m.L or [int(x) for x in st.get_level_ids()] != list(range(m.L)):
            self.bad("levels", "%s: levels %s %s" % (name, st.get_n_levels(), st.get_level_ids()))
        if not np.array_equal(np.asarray(st.get_level_parameters(), dtype=float), np.asarray(self.sc["params"], dtype=float)):
            self.bad("levels", "%s: level parameters %s" % (name, st.get_level_parameters()))
        if not same_format(st.load_result_format(), testsim.make_format(self.sc["fmt"])):
            self.bad("format", "%s: result format differs" % name)
        ops = [float(x) for x in st.get_n_ops()]
        want = [t / n if n else 0.0 for t, n in m.nops]
        if len(ops) != m.L or not np.allclose(ops, want, rtol=1e-9, atol=1e-12):
            if not self.w.nops_fuzzy:
                self.bad("n_ops", "%s: cost per sample %s, expected %s" % (name, ops, want))
        # chunks
        prop = self.sc.get("prop")
        if prop in props.ORACLES and not props.relevant(prop, "chunks") or self.i % 3 and self.i + 1 < len(self.sc["ops"]):
            return
        for l in range(m.L):
            if not m.coll[l]:
                continue
            rows = []
            for ch in st.chunks(level_id=l):
                a = st.sample_pairs_level(ch)
                rows += [a[:, i, :] for i in range(a.shape[1])]
            if not same_rows(rows, m.coll[l], l):
                self.bad("chunks", "%s level %d: chunks give %d rows of %d" % (name, l, len(rows), len(m.coll[l])))
            n = 1 + (len(m.coll[l]) * 2) // 3 % len(m.coll[l])
            a = st.sample_pairs_level(next(st.chunks(level_id=l, n_samples=n)))
            if not same_rows([a[:, i, :] for i in range(a.shape[1])], m.coll[l][:n], l):
                self.bad("chunks", "%s level %d: first %d samples" % (name, l, n))
        if all(m.coll[l] for l in range(m.L)):
            seen = {}
            for ch in st.chunks():
                a = st.sample_pairs_level(ch)
                seen.setdefault(int(ch.level_id), []).extend(a[:, i, :] for i in range(a.shape[1]))
            for l in range(m.L):
                if not same_rows(seen.get(l, []), m.coll[l], l):
                    self.bad("chunks", "%s level %d: chunks over all levels" % (name, l))


def storage_world(w, sim, sc, box):
    """Lives of the storage client"""
    from .runner import Stop
    import contextlib
    import traceback

    @contextlib.contextmanager
    def frozen_cm(s):
        s.frozen = True
        try:
            yield
        finally:
            s.frozen = False
    w.frozen_cm = frozen_cm
    w.model = Model(len(sc["params"]), testsim.format_size(sc["fmt"]))
    w.nops_fuzzy = False
    w.cur_op = w.cur_plan = None
    from mlmc.sample_storage import Memory
    w.memory = Memory()
    w.memory.save_global_data(level_parameters=sc["params"], result_format=testsim.make_format(sc["fmt"]))
    i = 0
    for life in range(40):
        w.life = life
        client = StorageClient(w, i)
        alive = run_proc(sim, w, "store%d" % life, client.body, client)
        if w.viol or alive and not client.done:
            return
        if client.done:
            break
        if True:
            # killed in operation i: see what has reached the file
            w.crashed = True
            sim.probe("master_crashed")
            op, plan = w.cur_op, w.cur_plan
            sim.frozen = True
            try:
                from mlmc.sample_storage_hdf import SampleStorageHDF
                probe = StorageClient(w, client.i)
                before = [len(c) for c in w.model.coll], [len(c) for c in w.model.failed], [len(c) for c in w.model.sched]
                try:
                    probe.hdf = SampleStorageHDF(w.hdf_path)
                    if probe.hdf.get_n_levels() != len(sc["params"]):
                        probe.hdf.save_global_data(level_parameters=sc["params"], result_format=testsim.make_format(sc["fmt"]))
                    m0 = [list(x) for x in w.model.coll], [list(x) for x in w.model.failed], [list(x) for x in w.model.sched]
                    probe.partial(op or {"op": "query"}, plan, adopt=True)
                except (Stop, core.HarnessError):
                    raise
                except Exception as e:
                    w.bad("exception", "reopening after a crash raised %s: %s\n%s" % (type(e).__name__, str(e)[:200], traceback.format_exc()[-1200:]))
                if op is not None:
                    memory_catch_up(w, m0)
                    if op["op"] == "nops":
                        w.nops_fuzzy = True
            except Stop:
                return
            finally:
                sim.frozen = False
            i = client.i + (0 if op is None else 1)
            sim.block(1.0)


def memory_catch_up(w, before):
    """The memory storage does not crash: give it what has survived"""
    coll, failed, sched = before
    m = w.model
    for l in range(m.L):
        new = m.sched[l][len(sched[l]):]
        if new:
            w.memory.save_scheduled_samples(l, new)
    ok = {l: [(i, (f.copy(), c.copy())) for i, f, c in m.coll[l][len(coll[l]):]] for l in range(m.L)}
    if any(len(failed[l]) > len(m.failed[l]) for l in range(m.L)):
        # interrupted clear_failed
        w.memory.clear_failed()
        fail = {l: [(i, "x") for i in m.failed[l]] for l in range(m.L)}
    else:
        fail = {l: [(i, "x") for i in m.failed[l][len(failed[l]):]] for l in range(m.L)}
    w.memory.save_samples({l: v for l, v in ok.items() if v}, {l: v for l, v in fail.items() if v})


def run_proc(sim, w, name, body, client):
    """Run body as the only thread of a new process, to its end or death"""
    proc = core.Proc(sim, name, os.path.join(sim.root, "cwd"))
    done = {}
    me = sim.cur

    def fin(t):
        done["x"] = t
        sim.wake(me)
    sim.spawn(proc, name, body, on_exit=fin)
    while "x" not in done:
        sim.block()
    t = done["x"]
    if t.exc is not None:
        e, t.exc = t.exc, None
        raise e
    alive = proc.alive
    if alive:
        sim.exit_proc(proc)
    return alive


# ------------------------------------------------------------------------------------------------ F family
def spec(d):
    from mlmc.quantity.quantity_spec import QuantitySpec
    return [QuantitySpec(name=n, unit=u, shape=tuple(s), times=list(t), locations=[tuple(x) if isinstance(x, list) else x for x in l])
            for n, u, s, t, l in d]


def dump(path):
    """Logical content of the file"""
    out = {}
    if not os.path.exists(path):
        return out

    def visit(name, o):
        out[name] = (str(getattr(o, "dtype", "")), getattr(o, "shape", None), o[()].tobytes() if hasattr(o, "dtype") else b"",
                     sorted((k, str(v)) for k, v in o.attrs.items()))
    with seams.REAL.H5File(path, "r") as f:
        f.visititems(visit)
        out["/"] = sorted((k, str(v)) for k, v in f.attrs.items())
    return out


class FormatFactory(testsim.Factory):
    def __init__(self, cfg, fmt):
        super().__init__(cfg)
        self.fmt = fmt

    def level_instance(self, fine_level_params, coarse_level_params):
        ls = super().level_instance(fine_level_params, coarse_level_params)
        return ls

    def result_format(self):
        return spec(self.fmt)

    @staticmethod
    def calculate(config, seed):
        return format_calc(config, seed)


def format_calc(cfg, seed):
    n = cfg["size"]
    f = np.arange(n) * 0.25 + int(seed) % 1000
    return f, (np.zeros(n) if cfg["coarse"] == 0 else f * 0.5)


def fmt_size(d):
    return int(sum(np.prod(s) * len(t) * len(l) for _, _, s, t, l in d))


def format_world(w, sim, sc, box):
    from .runner import Stop
    import traceback
    st = {"complete": False, "expect": None, "fmt": sc["base"]}

    def start(fmt):
        from mlmc.sampler import Sampler
        from mlmc.sampling_pool import OneProcessPool
        from mlmc.sample_storage_hdf import SampleStorageHDF
        cfg = dict(w.cfg, size=fmt_size(fmt))
        storage = SampleStorageHDF(w.hdf_path)
        return Sampler(storage, OneProcessPool(), FormatFactory(cfg, fmt), sc["params"])

    def snapshot(sampler):
        s = sampler.sample_storage
        return [[str(i) for i in v] for _, v in sorted(s.load_scheduled_samples().items())], \
            [np.asarray(a).tolist() for a in s.sample_pairs()]

    class C:
        pass

    for k, life in enumerate(sc["lives"]):
        w.life = k

        def body():
            proc = sim.cur.proc
            if life.get("kill") is not None:
                proc.kill_at = proc.steps + life["kill"]
            fmt = life["fmt"]
            same = spec(fmt) == spec(sc["base"]) if False else fmt == sc["base"]
            sim.frozen = True
            before = dump(w.hdf_path)
            sim.frozen = False
            sim.log("START", k, same)
            err = None
            try:
                sampler = start(fmt)
            except (core.SimKilled, core.SimAbort):
                raise
            except Exception as e:
                err = e
                tb = traceback.format_exc()
            sim.frozen = True
            try:
                if same and err is not None:
                    w.bad("same_refused", "start %d with the same format refused: %s: %s\n%s" % (k, type(err).__name__, str(err)[:200], tb[-900:]))
                if not same and st["complete"]:
                    if err is None:
                        w.bad("different_accepted", "start %d with another format (%s) accepted" % (k, life["change"]))
                    after = dump(w.hdf_path)
                    if after != before:
                        keys = [n for n in set(after) | set(before) if after.get(n) != before.get(n)]
                        w.bad("refused_changed", "the refused start (%s) has changed the file: %s" % (life["change"], keys[:4]))
                    sim.probe("format_refused")
                if same and st["complete"]:
                    now = snapshot(sampler)
                    if now != st["expect"]:
                        w.bad("content", "stored samples differ after reopening")
                    if not same_format(sampler.sample_storage.load_result_format(), spec(sc["base"])):
                        w.bad("content", "loaded format differs")
                    sim.probe("same_accepted")
            finally:
                sim.frozen = False
            if not same:
                if err is None and not st["complete"]:
                    st["void"] = True     # nothing had been recorded before: the file now belongs to this format
                return
            if life.get("n"):
                sampler.set_initial_n_samples(life["n"])
                sampler.schedule_samples()
                sampler.ask_sampling_pool_for_samples()
            proc.kill_at = None
            sim.frozen = True
            try:
                st["expect"] = snapshot(sampler)
                st["complete"] = True
            finally:
                sim.frozen = False

        def guarded():
            try:
                body()
            except Stop:
                pass
        killed = not run_proc(sim, w, "store%d" % k, guarded, None)
        if w.viol or st.get("void"):
            return
        if killed and life["fmt"] != sc["base"] and not st["complete"]:
            return                        # the same, the start may have recorded its format before it was killed
        if killed:
            sim.probe("master_crashed")
            if st["complete"]:
                # an interrupted continuation may have stored more: take over
                def adopt():
                    sim.frozen = True
                    try:
                        try:
                            sampler = start(sc["base"])
                        except Exception as e:
                            w.bad("same_refused", "reopening after a crash: %s: %s\n%s" % (type(e).__name__, str(e)[:200], traceback.format_exc()[-900:]))
                        now = snapshot(sampler)
                        old = st["expect"]
                        if [a[:len(b)] for a, b in zip(now[0], old[0])] != old[0]:
                            w.bad("content", "scheduled samples lost by a crash")
                        st["expect"] = now
                    except Stop:
                        pass
                    finally:
                        sim.frozen = False
                run_proc(sim, w, "adopt%d" % k, adopt, None)
                if w.viol:
                    return
