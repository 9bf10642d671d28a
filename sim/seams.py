"""
Seams: the standard library (and h5py) entry points through which mlmc meets scheduling, time, files, processes and
external commands. install() has to be called before mlmc is imported. Outside of a simulated run, or when the run is
frozen (oracles looking at the state), everything is passed through.
"""
import builtins
import io
import multiprocessing
import multiprocessing.pool
import os
import pickle
import random
import subprocess
import sys
import threading
import time
import types

from . import core, modstate

SIM = None            # the current core.Sim
REAL = types.SimpleNamespace()
_h5 = None


def active():
    s = SIM
    return s is not None and s.running and not s.frozen


def set_sim(s):
    global SIM
    SIM = s


# ------------------------------------------------------------------------------------------------ files
class SimRaw(io.FileIO):
    def write(self, b):
        s = SIM
        if not active():
            return super().write(b)
        if s.dead():
            return len(b)       # process is gone, nothing reaches the file
        data = bytes(b)
        sup = super().write

        def torn(f):
            sup(data[:max(1, int(len(data) * f))] if f < 1 else data)
        short = s.step("write", self.name, on_kill=torn)
        if short is not None:
            return sup(data[:max(1, int(len(data) * short))] if short < 1 else data)
        return sup(data)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not active() or isinstance(file, int) or opener is not None:
        return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    s = SIM
    path = os.fspath(file)
    s.step("open:" + mode, path)
    if not any(c in mode for c in "wax+"):
        return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rmode = mode.replace("b", "").replace("t", "")
    raw = SimRaw(path, rmode)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else s.knobs.get("bufsize", io.DEFAULT_BUFFER_SIZE)
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def _wrap_os(name):
    real = getattr(os, name)

    def f(*a, **k):
        if active():
            s = SIM
            s.step("os." + name, str(a[0]) if a else "")
            if s.dead():
                raise core.SimKilled()
        return real(*a, **k)
    f.__name__ = name
    setattr(REAL, "os_" + name, real)
    setattr(os, name, f)
    # keep "os.x in os.supports_*" tests of the standard library working
    for sup in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
        if real in sup:
            sup.add(f)


def sim_chdir(path):
    REAL.os_chdir(path)
    if active():
        p = SIM.cur.proc
        fd = os.open(".", os.O_PATH | os.O_DIRECTORY)
        os.close(p.cwd_fd)
        p.cwd_fd = fd
        SIM.log("chdir", path)
        if SIM.ready:
            SIM.preempt("step")


class PermScandir:
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _permute(items, key):
    items.sort(key=key)
    s = SIM
    k = s.choose(4, "perm") if len(items) > 1 else 0
    if k == 1:
        items.reverse()
    elif k > 1:
        random.Random(k * 1000003 + len(items)).shuffle(items)
    return items


def sim_scandir(path="."):
    it = REAL.os_scandir(path)
    if not active():
        return it
    with it:
        items = list(it)
    return PermScandir(_permute(items, lambda e: e.name))


def sim_listdir(path="."):
    items = REAL.os_listdir(path)
    if not active():
        return items
    return _permute(list(items), lambda e: e)


def sim_getpid():
    if active():
        return SIM.cur.proc.pid
    return REAL.os_getpid()


# ------------------------------------------------------------------------------------------------ time
def _now():
    s = SIM
    if s.dead():
        s.check(s.cur)
    s.t_mono += s.tick
    return s.t_mono


def sim_time():
    return _now() + SIM.wall_off if active() else REAL.time()


def sim_perf():
    return _now() if active() else REAL.perf_counter()


def sim_mono():
    return _now() if active() else REAL.monotonic()


def sim_ptime():
    return _now() if active() else REAL.process_time()


def _ns(f, r):
    return lambda: int(f() * 1e9) if active() else r()


def sim_sleep(d):
    if active():
        SIM.sleep(d)
    else:
        REAL.sleep(d)


# ------------------------------------------------------------------------------------------------ randomness
ENTROPY = random.Random(1)


def sim_urandom(n):
    return ENTROPY.randbytes(n) if active() else REAL.os_urandom(n)


def sim_randbits(n):
    return ENTROPY.getrandbits(n) if active() else REAL.randbits(n)


def reset_entropy(seed=1):
    """All sources of randomness start equal in each run; those kept by the modules and classes of mlmc as well"""
    import numpy as np
    import tempfile
    np.random.seed(seed)
    random.seed(seed)
    ENTROPY.seed(seed)
    tempfile._name_sequence = None
    if not _generators:
        for name, mod in sorted(sys.modules.items()):
            if name.split(".")[0] != "mlmc" or mod is None:
                continue
            spaces = [vars(mod)] + [vars(c) for _, c in sorted(vars(mod).items()) if isinstance(c, type) and c.__module__ == name]
            for ns in spaces:
                for k, v in list(ns.items()):
                    if isinstance(v, (np.random.Generator, np.random.RandomState, random.Random)) and not any(v is x for x, _ in _generators):
                        if v is getattr(np.random, "mtrand")._rand:
                            continue
                        _generators.append((v, None))
        _generators.append((None, None))
    for i, (g, _) in enumerate(_generators):
        if isinstance(g, np.random.Generator):
            g.bit_generator.state = type(g.bit_generator)(seed + i).state
        elif g is not None:
            g.seed(seed + i)


_generators = []


# ------------------------------------------------------------------------------------------------ locks
class SimLock:
    def __init__(self):
        self.locked_by = None
        self.waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        if not active():
            if self.locked_by is not None:
                if not blocking:
                    return False
                raise core.HarnessError("lock held while the run is frozen")
            self.locked_by = "outside"
            return True
        if s.dead():
            self.locked_by = s.cur
            return True
        s.log("lock")
        if s.ready:
            s.preempt("step")
        while self.locked_by is not None:
            if not blocking or timeout == 0:
                # waiting with zero timeout is a way to poll
                s.sleep(0)
                if self.locked_by is None:
                    break
                return False
            self.waiters.append(s.cur)
            t0 = s.t_mono
            s.block(timeout if timeout is not None and timeout > 0 else None)
            if s.cur in self.waiters:
                self.waiters.remove(s.cur)
            if self.locked_by is not None and timeout is not None and timeout > 0 and s.t_mono >= t0 + timeout:
                return False
        self.locked_by = s.cur
        return True

    __enter__ = acquire

    def release(self):
        if self.locked_by is None:
            raise RuntimeError("release unlocked lock")
        self.locked_by = None
        s = SIM
        if active() and self.waiters:
            s.wake(self.waiters.pop(0))

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.locked_by is not None

    def _at_fork_reinit(self):
        self.locked_by = None
        self.waiters = []


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = SIM.cur if active() else "outside"
        if self.locked_by is me and self.count:
            self.count += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.count = 1
        return r

    __enter__ = acquire

    def release(self):
        self.count -= 1
        if self.count == 0:
            super().release()

    def _is_owned(self):
        return self.locked_by is not None and self.locked_by is (SIM.cur if active() else "outside")

    def _release_save(self):
        c = self.count
        self.count = 0
        SimLock.release(self)
        return c

    def _acquire_restore(self, c):
        SimLock.acquire(self)
        self.count = c


def _of_mlmc():
    """Created by code of mlmc outside of a run (a lock of a module or of a class)"""
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        name = f.f_globals.get("__name__", "")
        if name.split(".")[0] == "mlmc":
            return True
        if name not in ("threading", "queue", __name__):
            return False
        f = f.f_back
    return False


def sim_lock():
    return SimLock() if active() or _of_mlmc() else REAL.Lock()


def sim_rlock():
    return SimRLock() if active() or _of_mlmc() else REAL.RLock()


# ------------------------------------------------------------------------------------------------ worker pools
class SimAsyncResult:
    def __init__(self, pool, callback, error_callback):
        self._pool = pool
        self._callback = callback
        self._error_callback = error_callback
        self._done = False
        self._waiters = []
        self._success = None
        self._value = None

    def ready(self):
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError("not ready")
        return self._success

    def wait(self, timeout=None):
        s = SIM
        if not self._done:
            self._waiters.append(s.cur)
            s.block(timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            raise multiprocessing.TimeoutError
        if self._success:
            return self._value
        raise self._value

    def _set(self, success, value):
        # same order as multiprocessing.pool.ApplyResult._set
        self._success, self._value = success, value
        if self._callback and success:
            self._callback(value)
        if self._error_callback and not success:
            self._error_callback(value)
        self._done = True
        for t in self._waiters:
            SIM.wake(t)


class SimPool:
    """
    Model of multiprocessing.pool.Pool / ThreadPool: n workers taking tasks first in first out, one result handler
    thread in the owner's process which runs the callbacks. As in the real pool an exception escaping from a callback
    ends the handler thread (KeyError is swallowed), and the arguments and results of a process pool are pickled.
    """
    threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        s = SIM
        if not active():
            raise core.HarnessError("pool created outside of a simulated run")
        n = processes or 4
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.owner = s.cur.proc
        self.tasks = []
        self.results = []
        self.idle = []
        self.handler_idle = None
        self.closed = False
        self.handler_error = None
        self.n_out = 0
        self.join_waiters = []
        s.probe("pool_threads" if self.threads else "pool_processes")
        for i in range(n):
            if self.threads:
                proc = self.owner
            else:
                proc = core.Proc(s, "worker%d" % len(s.procs), ".", self.owner.argv)
                proc.mod_state = modstate.capture()
                self.owner.data.setdefault("children", []).append(proc)
            s.spawn(proc, "w%d.%d" % (self.owner.pid, i), lambda i=i: self._worker(i, initializer, initargs))
        s.spawn(self.owner, "h%d" % self.owner.pid, self._handler)

    # -- API
    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        s = SIM
        if self.closed:
            raise ValueError("Pool not running")
        s.step("apply_async", "")
        res = SimAsyncResult(self, callback, error_callback)
        kwds = kwds or {}
        self.n_out += 1
        try:
            task = (func, args, kwds) if self.threads else bytes(_dumps((func, args, kwds)))
        except Exception as e:
            # the real task handler thread reports it through the result
            self.results.append((res, False, e))
            self._wake_handler()
            return res
        self.tasks.append((res, task))
        if self.idle:
            s.wake(self.idle.pop(0))
        return res

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def _many(self, func, argss, callback, error_callback):
        """One task for each item, one result with the list of values or with the first error"""
        res = SimAsyncResult(self, callback, error_callback)
        argss = list(argss)
        out = [None] * len(argss)
        left = [len(argss)]

        def one(i):
            def cb(value):
                out[i] = value
                left[0] -= 1
                if left[0] == 0 and not res._done:
                    res._set(True, out)
            return cb

        def err(e):
            if not res._done:
                res._set(False, e)
        if not argss:
            res._set(True, out)
        for i, args in enumerate(argss):
            self.apply_async(func, args, callback=one(i), error_callback=err)
        return res

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._many(func, [(x,) for x in iterable], callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._many(func, [tuple(x) for x in iterable], callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        for r in [self.apply_async(func, (x,)) for x in iterable]:
            yield r.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        done = []
        rs = [self.apply_async(func, (x,), callback=lambda v: done.append(v)) for x in iterable]
        for r in rs:
            r.wait()
            if not r.successful():
                raise r._value
        yield from done

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.tasks.clear()

    def join(self):
        while self.n_out > 0 and self.handler_error is None:
            self.join_waiters.append(SIM.cur)
            SIM.block()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    # -- internals
    def _wake_handler(self):
        if self.handler_idle is not None:
            t, self.handler_idle = self.handler_idle, None
            SIM.wake(t)

    def _worker(self, i, initializer, initargs):
        s = SIM
        if initializer:
            initializer(*initargs)
        while True:
            while not self.tasks:
                self.idle.append(s.cur)
                s.block()
            res, task = self.tasks.pop(0)
            s.step("task", "")
            try:
                func, args, kwds = task if self.threads else pickle.loads(task)
                out = (True, func(*args, **kwds))
            except Exception as e:
                out = (False, e)
            if not self.threads:
                try:
                    out = pickle.loads(bytes(_dumps(out)))
                except Exception as e:
                    out = (False, multiprocessing.pool.MaybeEncodingError(e, out[1]))
            s.step("result", "")
            self.results.append((res,) + out)
            self._wake_handler()
            if not self.owner.alive:
                return

    def _handler(self):
        s = SIM
        while True:
            while not self.results:
                self.handler_idle = s.cur
                s.block()
            res, ok, value = self.results.pop(0)
            s.step("callback", "")
            try:
                res._set(ok, value)
            except KeyError:
                pass
            except Exception as e:
                self.handler_error = e
                s.probe("handler_thread_died")
                raise
            self.n_out -= 1
            for t in self.join_waiters:
                s.wake(t)
            self.join_waiters = []


class SimThreadPool(SimPool):
    threads = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


def _dumps(obj):
    from multiprocessing.reduction import ForkingPickler
    return ForkingPickler.dumps(obj)


# ------------------------------------------------------------------------------------------------ external commands
class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, **kw):
        s = SIM
        if not active() and (s is None or not s.frozen or s.popen is None):
            raise core.HarnessError("command run outside of a simulated run: %r" % (args,))
        self.args = args
        self.pid = 0
        if isinstance(args, (str, bytes)):
            args = args.split()
        if s.popen is None:
            raise core.HarnessError("no command handler")
        if not s.frozen:
            s.step("popen:" + str(args[0]), "")
        rc, out, err = s.popen(s.cur.proc, [os.fspath(a) if not isinstance(a, str) else a for a in args])
        # the command has been executed; the caller may die before it hears about it
        if not s.frozen:
            s.step("popen_ret:" + str(args[0]), "")
        text = universal_newlines or kw.get("text") or kw.get("encoding")
        out_b, err_b = out.encode(), err.encode()
        if stderr == subprocess.STDOUT:
            out_b, err_b = out_b + err_b, b""
        self._out = (out_b.decode() if text else out_b) if stdout == subprocess.PIPE else None
        self._err = (err_b.decode() if text else err_b) if stderr == subprocess.PIPE else None
        for target, data in ((stdout, out_b), (stderr, err_b)):
            # the command writes to a file of its own
            if target is not None and not (isinstance(target, int) and target < 0) and data:
                os.write(target if isinstance(target, int) else target.fileno(), data)
        self.stdin = None
        self.stdout = (io.StringIO if text else io.BytesIO)(self._out) if self._out is not None else None
        self.stderr = (io.StringIO if text else io.BytesIO)(self._err) if self._err is not None else None
        self._rc = rc
        self.returncode = None

    def communicate(self, input=None, timeout=None):
        self.returncode = self._rc
        return self._out, self._err

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        self.returncode = self._rc
        return self._rc

    def kill(self):
        pass
    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


# ------------------------------------------------------------------------------------------------ h5py
def _install_h5():
    import h5py
    REAL.H5File = h5py.File

    class SimH5File(h5py.File):
        def __init__(self, name, mode="r", *a, **k):
            self._sim_key = None
            if active():
                s = SIM
                key = os.path.abspath(os.fspath(name))
                s.step("h5.open:" + mode, key)
                ses = s.h5.get(key)
                if ses is None:
                    snap = None
                    if s.want_snap and mode != "r":
                        snap = b""
                        if os.path.exists(key):
                            with REAL.open(key, "rb") as f:
                                snap = f.read()
                        else:
                            snap = None
                        snap = (snap,)
                    s.h5[key] = ses = {"n": 0, "snap": snap, "proc": s.cur.proc}
                ses["n"] += 1
                self._sim_key = key
                try:
                    super().__init__(name, mode, *a, **k)
                except BaseException:
                    self._sim_leave()
                    raise
            else:
                if SIM is not None and SIM.frozen:
                    if mode != "r":
                        SIM.unpin()
                    else:
                        key = os.path.abspath(os.fspath(name))
                        if key not in SIM.pins and os.path.exists(key):
                            SIM.pins[key] = REAL.H5File(key, "r")
                super().__init__(name, mode, *a, **k)

        def _sim_leave(self):
            s = SIM
            key, self._sim_key = self._sim_key, None
            if key is None or s is None:
                return
            ses = s.h5.get(key)
            if ses is None:
                return
            ses["n"] -= 1
            if ses["n"] == 0:
                del s.h5[key]
                if ses["snap"] is not None and not ses["proc"].alive:
                    # killed inside the session: nothing of it has reached the file
                    if ses["snap"][0] is None:
                        if os.path.exists(key):
                            REAL.os_remove(key)
                    else:
                        with REAL.open(key, "wb") as f:
                            f.write(ses["snap"][0])

        def close(self):
            if self._sim_key is None:
                return super().close()
            s = SIM
            if active() and not s.dead() and s.h5.get(self._sim_key, {}).get("snap") is not None:
                try:
                    s.step("h5.close", self._sim_key)
                except BaseException:
                    super().close()
                    self._sim_leave()
                    raise
            super().close()
            self._sim_leave()

    SimH5File.__name__ = "File"
    h5py.File = SimH5File

    def guard(cls, name, kind):
        real = getattr(cls, name)

        def f(self, *a, **k):
            if active():
                d = kind
                if kind == "h5w.resize":
                    # making a data set smaller needs no space
                    try:
                        new = a[0] if a else k.get("size")
                        new = int(new[0]) if isinstance(new, (tuple, list)) else int(new)
                        if new <= self.shape[0]:
                            d = "h5w.shrink"
                    except Exception:
                        pass
                SIM.step(d, str(getattr(self, "name", "")))
            return real(self, *a, **k)
        f.__name__ = name
        setattr(cls, name, f)
    guard(h5py.Dataset, "resize", "h5w.resize")
    guard(h5py.Dataset, "__setitem__", "h5w.set")
    guard(h5py.Group, "create_dataset", "h5w.create")
    guard(h5py.Group, "create_group", "h5w.group")
    guard(h5py.Group, "__delitem__", "h5w.del")
    guard(h5py.AttributeManager, "__setitem__", "h5w.attr")
    # chunk size knob: number of rows in one chunk
    import h5py._hl.filters as flt
    real_guess = flt.guess_chunk

    def guess(shape, maxshape, typesize):
        r = real_guess(shape, maxshape, typesize)
        if SIM is not None and SIM.running and SIM.knobs.get("chunk_rows") and len(r) == 1:
            return (SIM.knobs["chunk_rows"],)
        return r
    flt.guess_chunk = guess


# ------------------------------------------------------------------------------------------------ yaml
def _install_yaml():
    """Parsing is a pure function of the text and by far the slowest part of a run: parse each text once."""
    import copy
    import ruamel.yaml as ry
    cache = {}

    def wrap(real):
        def load(stream, *args, **kw):
            if SIM is None or not SIM.running or kw.get("version") or kw.get("preserve_quotes"):
                return real(stream, *args, **kw)
            text = stream.read() if hasattr(stream, "read") else stream
            key = (real, args, kw.get("Loader"), text)
            if key not in cache:
                if len(cache) > 400:
                    cache.clear()
                cache[key] = real(text, *args, **kw)
            return copy.deepcopy(cache[key])
        return load
    import ruamel.yaml.main
    for name in ("load", "safe_load"):
        f = wrap(getattr(ry, name))
        setattr(ry, name, f)
        setattr(ruamel.yaml.main, name, f)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert not any(m == "mlmc" or m.startswith("mlmc.") for m in sys.modules), "mlmc imported before the seams"
    import shutil
    shutil._USE_CP_SENDFILE = False
    REAL.open = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    for n in ("remove", "unlink", "rename", "replace", "mkdir", "rmdir", "symlink", "link", "chmod", "truncate"):
        _wrap_os(n)
    REAL.os_chdir, os.chdir = os.chdir, sim_chdir
    REAL.os_scandir, os.scandir = os.scandir, sim_scandir
    os.supports_fd.add(sim_scandir)
    REAL.os_listdir, os.listdir = os.listdir, sim_listdir
    REAL.os_getpid, os.getpid = os.getpid, sim_getpid
    for n, f in (("time", sim_time), ("perf_counter", sim_perf), ("monotonic", sim_mono), ("process_time", sim_ptime)):
        setattr(REAL, n, getattr(time, n))
        setattr(time, n, f)
        rn = getattr(time, n + "_ns")
        setattr(time, n + "_ns", _ns(f, rn))
    REAL.sleep, time.sleep = time.sleep, sim_sleep
    import queue
    threading._time = queue.time = sim_mono
    REAL.os_urandom, os.urandom = os.urandom, sim_urandom
    random._urandom = sim_urandom
    import numpy.random.bit_generator as bg
    REAL.randbits = bg.randbits
    bg.randbits = sim_randbits
    import tempfile
    tempfile._Random = lambda: random.Random(ENTROPY.getrandbits(32)) if active() else random.Random()
    REAL.Lock, threading.Lock = threading.Lock, sim_lock
    REAL.RLock, threading.RLock = threading.RLock, sim_rlock
    REAL.alloc, threading._allocate_lock = threading._allocate_lock, sim_lock
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    REAL.Popen, subprocess.Popen = subprocess.Popen, SimPopen
    _install_h5()
    _install_yaml()


# ------------------------------------------------------------------------------------------------ line events
TOOL = 3


def _line(code, line):
    s = SIM
    if s is not None and s.running and not s.frozen:
        s.on_line()


def _codes(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes(c, seen)


def collect_codes(obj, modfile, seen, done):
    """All code objects of a module's functions and classes that are defined in its file."""
    if id(obj) in done:
        return
    done.add(id(obj))
    if isinstance(obj, types.CodeType):
        if obj.co_filename == modfile:
            _codes(obj, seen)
    elif isinstance(obj, (staticmethod, classmethod)):
        collect_codes(obj.__func__, modfile, seen, done)
    elif isinstance(obj, property):
        for f in (obj.fget, obj.fset, obj.fdel):
            if f is not None:
                collect_codes(f, modfile, seen, done)
    elif isinstance(obj, types.FunctionType):
        collect_codes(obj.__code__, modfile, seen, done)
        w = getattr(obj, "__wrapped__", None)
        if w is not None:
            collect_codes(w, modfile, seen, done)
    elif isinstance(obj, type):
        for v in list(vars(obj).values()):
            collect_codes(v, modfile, seen, done)


def monitor(modules, extra_codes=()):
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "mlmc-sim")
        mon.register_callback(TOOL, mon.events.LINE, _line)
    seen = set()
    done = set()
    for m in modules:
        for v in list(vars(m).values()):
            collect_codes(v, m.__file__, seen, done)
    for c in extra_codes:
        _codes(c, seen)
    for c in seen:
        mon.set_local_events(TOOL, c, mon.events.LINE)
    return len(seen)
