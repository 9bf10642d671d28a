"""Imports mlmc from /repo behind the seams and sets the line events."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class NullOut:
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def setup():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import seams
    if "mlmc" in sys.modules:
        return
    # third party modules first, they must not see the seams during their import
    import numpy, scipy.stats, h5py, ruamel.yaml, memoization, attr, matplotlib, gstools, sklearn.utils.extmath  # noqa
    seams.install()
    import mlmc
    assert os.path.abspath(mlmc.__file__).startswith(REPO + os.sep), mlmc.__file__
    import mlmc.sampler, mlmc.sampling_pool, mlmc.sampling_pool_pbs, mlmc.sample_storage, mlmc.sample_storage_hdf
    import mlmc.tool.hdf5, mlmc.tool.pbs_job, mlmc.sim.synth_simulation
    import mlmc.quantity.quantity, mlmc.quantity.quantity_estimate, mlmc.estimator
    import mlmc.tool.flow_mc
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    from . import modstate
    modstate.install()
    path = mlmc.tool.pbs_job.__file__
    with seams.REAL.open(path) as f:
        code = compile(f.read(), path, "exec")
    seams.monitor([mlmc.sampler, mlmc.sampling_pool, mlmc.sampling_pool_pbs, mlmc.sample_storage,
                   mlmc.sample_storage_hdf, mlmc.tool.hdf5, mlmc.tool.pbs_job, mlmc.sim.synth_simulation, mlmc.tool.flow_mc,
                   mlmc.quantity.quantity, mlmc.quantity.quantity_estimate], [code])
    env = sys.modules[__name__]
    env.job_code = code
    return env


job_code = None
