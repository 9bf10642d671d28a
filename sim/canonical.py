"""
Reference table of sample ids and seeds, learned from the code under test by a plain run (single process pool, memory
storage) in an interpreter of its own, without the simulator. Prints JSON {level: [[id, seed], ...]}.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")

LEVELS = 12
N = [1300] * 3 + [160] * (LEVELS - 3)


def main():
    out = sys.stdout
    sys.stdout = sys.stderr
    import numpy as np
    import mlmc
    assert os.path.abspath(mlmc.__file__).startswith(REPO + os.sep), mlmc.__file__
    from mlmc.sampler import Sampler
    from mlmc.sampling_pool import OneProcessPool
    from mlmc.sample_storage import Memory
    from sim import testsim

    calls = []

    class W:
        def begin(self, cfg, seed):
            calls.append((cfg["fine"], int(seed)))
            return {"attempt": 0, "kind": "ok"}

        def end(self, rec):
            pass
    testsim.WORLD = W()
    params = [[0.5 ** k] for k in range(LEVELS)]
    cfg = dict(salt=0, size=4, fmt="vec", params=params, task=[0.1] * LEVELS, dur=0.0)
    cfg["size"] = testsim.format_size("vec")
    storage = Memory()
    sampler = Sampler(storage, OneProcessPool(), testsim.Factory(cfg), params)
    sampler.set_initial_n_samples(list(N))
    sampler.schedule_samples()
    table = {}
    for level, ids in storage.load_scheduled_samples().items():
        seeds = [s for f, s in calls if f == params[level][0]]
        assert len(seeds) == len(ids) == N[level]
        table[str(level)] = [[str(i), s] for i, s in zip(ids, seeds)]
    json.dump(table, out)


if __name__ == "__main__":
    main()
