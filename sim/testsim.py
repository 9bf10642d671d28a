"""
The simulation code run as samples (the user's part of the system). Values are exact functions of (seed, level
parameters), so the oracle can tell from a stored row which sample it belongs to and whether it is the right result.
"""
import hashlib
import os
import struct
import sys
import time
from typing import List

import numpy as np
import scipy.stats as stats

from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sim.simulation import Simulation
from mlmc.sim.synth_simulation import SynthSimulation, SynthSimulationWorkspace
from . import seams

WORLD = None      # the log of the current run (runner.World)


def h01(*key):
    """Pseudo-random number in [0, 1) given by the key"""
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return struct.unpack("<Q", d)[0] / 2.0 ** 64


FORMATS = {
    "one": [("q", "m", (1, 1), [0.0], ["a"])],
    "vec": [("q", "m", (2, 1), [1.0, 2.0], ["a", "b"])],
    "two": [("len", "m", (2, 1), [1, 2, 3], ["10", "20"]), ("wid", "mm", (2, 1), [1, 2, 3], ["30", "40"])],
    "mat": [("q", "m", (2, 2), [0.5], ["x1"])],
    "synth": [("head", "-", (2, 1), [1, 2, 3], ["10", "20"]), ("length", "m", (2, 1), [1, 2, 3], ["10", "20"]),
              ("width", "mm", (2, 1), [1, 2, 3], ["30", "40"])],
    "flow": [("head", "-", (2, 1), [1], ["0"]), ("conductivity", "m", (1, 1), [1], ["0"])],
    "big": [("q", "m", (60, 1), [0.0, 1.0], ["a", "b", "c"])],
}


def make_format(name):
    return [QuantitySpec(name=n, unit=u, shape=s, times=list(t), locations=list(l)) for n, u, s, t, l in FORMATS[name]]


def format_size(name):
    return int(sum(np.prod(s) * len(t) * len(l) for _, _, s, t, l in FORMATS[name]))


def value(seed, step, size, nan, salt=0):
    """Result vector of one simulation: seed, step, and further numbers depending on both"""
    v = np.empty(size)
    k = np.arange(size)
    v[:] = np.sin(0.37 * k + (int(seed) % 1000) * 0.01) * (1.0 + float(step)) + (int(seed) % 97) * 0.125
    v[0] = float(int(seed))
    if size > 1:
        v[1] = float(step)
    if nan:
        v[-1] = np.nan
    return v


def synth_value(seed, step, fine, nan):
    """Result of the simulation which comes with mlmc (SynthSimulation), behind seed and step"""
    x = np.random.RandomState(int(seed)).normal(1.0, 2.0, 2)
    v = [float(int(seed)), float(step)] + [0.0] * 10
    for q in range(2):
        for t in range(3):
            for loc in range(2):
                v.extend((x + step * np.sqrt(1e-4 + np.abs(x)) + (loc if fine else 0)))
    if nan:
        v[-1] = np.nan
    return np.array(v)


def expected_pair(seed, fine, coarse, size, nan, fmt=None):
    if fmt == "synth":
        return (synth_value(seed, fine, coarse != 0, nan),
                np.zeros(size) if coarse == 0 else synth_value(seed, coarse, True, nan))
    f = value(seed, fine, size, nan)
    c = np.zeros(size) if coarse == 0 else value(seed, coarse, size, nan)
    return f, c


# results which are returned but do not match the result format
BAD_RESULTS = ["short", "object", "c_short", "c_long", "f_short", "f_long", "both_long", "none", "tuple1", "text", "empty"]
FAIL_KINDS = ["raise", "long", "nonascii", "exit", "unpick_exc", "badstr", "surrogate", "memory", "recursion", "chain", "noargs"] + BAD_RESULTS
FORMS = ["array", "array", "list", "tuple", "strided", "shaped"]      # ways to return a right result


class BadStrError(Exception):
    def __str__(self):
        raise RuntimeError("no text")
    __repr__ = __str__


class UnpicklableError(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = lambda: b


class Factory(Simulation):
    """
    cfg: salt, size, fmt, params [[h], ...], p_fail, fail_kinds, p_nan, p_heal (a failed attempt succeeds when repeated),
         dur (mean duration), workspace, common [paths], missing [level], task [task size for each level]
    """

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        self.need_workspace = bool(cfg.get("workspace"))

    def level_instance(self, fine_level_params: List[float], coarse_level_params: List[float]) -> LevelSimulation:
        cfg = dict(self.cfg)
        cfg["fine"] = float(fine_level_params[0])
        cfg["coarse"] = float(coarse_level_params[0])
        level = [p[0] for p in self.cfg["params"]].index(fine_level_params[0])
        if cfg.get("unpick_level") == level:
            cfg["junk"] = lambda: 0      # can not be sent to another process
        if cfg["fmt"] == "synth":
            if getattr(self, "synth", None) is None:
                if cfg.get("workspace"):
                    self.synth = SynthSimulationWorkspace(dict(config_yaml=cfg["common"][0]))
                else:
                    self.synth = SynthSimulation(dict(distr=stats.norm(loc=1.0, scale=2.0), complexity=2))
            cfg["synth"] = self.synth.level_instance(fine_level_params, coarse_level_params).config_dict
        common = None
        if cfg.get("workspace"):
            common = list(cfg.get("common") or [])
        if cfg["fmt"] == "flow":
            if getattr(self, "flow", None) is None:
                from mlmc.tool.flow_mc import FlowSim
                self.flow = FlowSim(config=cfg["flow_config"], clean=cfg["clean"])
            ls = self.flow.level_instance(fine_level_params, coarse_level_params)
            cfg["flow"] = ls.config_dict
            common = ls.common_files
            WORLD.flow_levels[cfg["fine"]] = ls.config_dict
        return LevelSimulation(config_dict=cfg, common_files=common, need_sample_workspace=bool(cfg.get("workspace")),
                               task_size=self.cfg["task"][level])

    def __getstate__(self):
        d = dict(self.__dict__)
        d.pop("flow", None)
        return d

    def result_format(self):
        return make_format(self.cfg["fmt"])

    @staticmethod
    def calculate(config, seed):
        return run_sample(config, seed)


def outcome(cfg, seed, attempt):
    """What happens in this attempt: 'ok', 'nan' or a kind of failure"""
    salt = cfg["salt"]
    seed = int(seed)
    if h01(salt, seed, "fail") < cfg.get("p_fail", 0):
        if attempt == 0 or h01(salt, seed, attempt, "heal") >= cfg.get("p_heal", 0.5):
            kinds = cfg.get("fail_kinds") or ["raise"]
            return kinds[int(h01(salt, seed, "kind") * len(kinds))]
    if cfg["size"] > 2 and h01(salt, seed, "nan") < cfg.get("p_nan", 0):
        return "nan"
    return "ok"


def duration(cfg, seed, attempt):
    u = h01(cfg["salt"], int(seed), attempt, "dur")
    d = cfg.get("dur", 1.0)
    if h01(cfg["salt"], int(seed), "slow") < cfg.get("p_slow", 0.1):
        d *= 8
    return d * (0.05 + 1.9 * u)


LITTERS = ["subdir", "dangling", "outlink", "fifo", "chdir", "rmself", "editcommon", "hidden", "samename"]


def litter(cfg, seed, attempt):
    """What else the sample does to its directory"""
    if h01(cfg["salt"], int(seed), attempt, "litter") < cfg.get("p_litter", 0):
        return LITTERS[int(h01(cfg["salt"], int(seed), attempt, "litter_kind") * len(LITTERS))]


def leave_litter(kind, w, seed):
    if kind == "subdir":
        os.makedirs("a/b/c")
        with open("a/b/data.txt", "w") as f:
            f.write("y")
    elif kind == "dangling":
        os.symlink("not_there", "link")
    elif kind == "outlink":
        os.symlink(os.path.join(w.sim.root, "common"), "link")
    elif kind == "fifo":
        os.mkfifo("pipe")
    elif kind == "chdir":
        os.chdir(os.path.join(w.sim.root, "cwd"))
    elif kind == "rmself":
        here = os.getcwd()
        for n in sorted(seams.REAL.os_listdir(here)):
            os.remove(os.path.join(here, n))
        os.rmdir(here)
    elif kind == "editcommon":
        for n in sorted(seams.REAL.os_listdir(".")):
            with open(n, "a") as f:
                f.write("# changed")
    elif kind == "hidden":
        with open(".hidden", "w") as f:
            f.write("z")
    elif kind == "samename":
        os.makedirs(os.path.join(os.path.basename(os.getcwd()), "failed"))


def run_sample(cfg, seed):
    w = WORLD
    rec = w.begin(cfg, seed)
    kind = rec["kind"]
    if cfg.get("workspace"):
        rec["cwd"] = os.path.relpath(os.getcwd(), w.sim.root)
        rec["files"] = sorted(seams.REAL.os_listdir("."))
        for c in cfg.get("common") or []:
            b = os.path.basename(c)
            try:
                with seams.REAL.open(b) as f:
                    rec.setdefault("common", {})[b] = f.read()
            except OSError as e:
                rec.setdefault("common", {})[b] = None
        with open("out_%d_%d.txt" % (int(seed), rec["attempt"]), "w") as f:
            f.write("x" * 20)
    d = duration(cfg, seed, rec["attempt"])
    rec["dur"] = d
    if d and cfg["fmt"] != "flow":
        time.sleep(d)
    if cfg.get("workspace"):
        # whatever runs in this directory at the same time must not disturb us
        now = sorted(seams.REAL.os_listdir(".")) if os.path.isdir(".") else None
        rec["files_end"] = now
        kind_l = litter(cfg, seed, rec["attempt"]) if now is not None and cfg["fmt"] not in ("synth", "flow") else None
        if kind_l is not None:
            rec["litter"] = kind_l
            w.sim.probe("litter_" + kind_l)
            leave_litter(kind_l, w, seed)
    try:
        if cfg["fmt"] == "flow" and kind != "raise":
            from mlmc.tool.flow_mc import FlowSim
            data = w.sim.cur.proc.data
            data["flow_rec"] = rec
            try:
                f, c = FlowSim.calculate(cfg["flow"], seed)
            finally:
                data["flow_rec"] = None
            f = np.concatenate([[float(int(seed)), cfg["fine"]], f])
            c = np.concatenate([[float(int(seed)), cfg["coarse"]] if cfg["coarse"] else [0.0, 0.0], c])
            return f, c
        if kind == "raise":
            raise ValueError("sample failed")
        if kind == "long":
            raise ValueError("sample failed " + "long message " * 400)
        if kind == "nonascii":
            raise ValueError("v\u00fdpo\u010det selhal \u20ac \U0001F600 \x00 [" + "\u017e" * 600 + "]")
        if kind == "exit":
            sys.exit(3)
        if kind == "unpick_exc":
            raise UnpicklableError("sample failed", 1)
        if kind == "badstr":
            raise BadStrError()
        if kind == "surrogate":
            raise ValueError("broken text \udce9\udcff")
        if kind == "memory":
            raise MemoryError()
        if kind == "recursion":
            raise RecursionError("maximum recursion depth exceeded")
        if kind == "noargs":
            raise AssertionError
        if kind == "chain":
            try:
                raise KeyError("first")
            except KeyError as e:
                raise OSError(5, "Input/output error") from e
        if kind == "short":
            return np.zeros(max(0, cfg["size"] - 1)), np.zeros(max(0, cfg["size"] - 1))
        if kind in BAD_RESULTS and kind != "object":
            f, c = expected_pair(seed, cfg["fine"], cfg["coarse"], cfg["size"], False, cfg["fmt"])
            return {"c_short": lambda: (f, c[:-1]), "c_long": lambda: (f, np.append(c, [1.5])), "f_short": lambda: (f[:-1], c),
                    "f_long": lambda: (np.append(f, [1.5]), c), "both_long": lambda: (np.append(f, f), np.append(c, c)),
                    "none": lambda: None, "tuple1": lambda: (f,), "text": lambda: (["x"] * len(f), ["y"] * len(c)),
                    "empty": lambda: (np.zeros(0), np.zeros(0))}[kind]()
        if kind == "object":
            a = np.array([object()] * cfg["size"], dtype=object)
            return a, a
        if kind == "unpick_res":
            # numbers, but of a class which the other process does not know
            class Local(list):
                pass
            f, c = expected_pair(seed, cfg["fine"], cfg["coarse"], cfg["size"], False, cfg["fmt"])
            return Local(f), Local(c)
        if cfg["fmt"] == "synth":
            sim = SynthSimulationWorkspace if cfg.get("workspace") else SynthSimulation
            f, c = sim.calculate(cfg["synth"], seed)
            f = np.concatenate([[float(int(seed)), cfg["fine"]], np.zeros(10), f])
            c = np.concatenate([[float(int(seed)), cfg["coarse"]] if cfg["coarse"] else [0.0, 0.0], np.zeros(10), c])
            if kind == "nan":
                f[-1] = np.nan
                if cfg["coarse"]:
                    c[-1] = np.nan
        else:
            f, c = expected_pair(seed, cfg["fine"], cfg["coarse"], cfg["size"], kind == "nan")
        form = cfg.get("form", "array")
        if form == "list":
            return [float(x) for x in f], [float(x) for x in c]
        if form == "tuple":
            return [tuple(f), tuple(c)]
        if form == "strided":
            return np.repeat(f, 3)[::3], np.repeat(c, 2)[::2]
        if form == "shaped":
            return f.reshape((-1, 1)), c.reshape((1, -1))
        return f, c
    finally:
        w.end(rec)
