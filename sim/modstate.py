"""
State of the modules and classes of mlmc (global variables and class attributes holding plain data, caches of functions):
each simulated process has its own, although all of them live in one interpreter.
"""
import copy
import sys

PLAIN = (int, float, complex, str, bytes, bool, type(None), tuple, frozenset)
_places = []        # (namespace owner, name, pristine value) of plain values
_boxes = []         # (container, pristine content)
_caches = []
MODULES = ("mlmc.sampler", "mlmc.sampling_pool", "mlmc.sampling_pool_pbs", "mlmc.sample_storage", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5",
           "mlmc.tool.pbs_job", "mlmc.tool.flow_mc", "mlmc.level_simulation", "mlmc.sim.simulation", "mlmc.estimator", "mlmc.moments",
           "mlmc.quantity.quantity", "mlmc.quantity.quantity_estimate", "mlmc.quantity.quantity_spec", "mlmc.random.correlated_field",
           "mlmc.tool.gmsh_io")


def install():
    for name in MODULES:
        mod = sys.modules.get(name)
        if mod is None:
            continue
        for owner in [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == name]:
            for k, v in list(vars(owner).items()):
                if k.startswith("__") or isinstance(v, type):
                    continue
                if isinstance(v, (dict, list, set)):
                    try:
                        _boxes.append((v, copy.deepcopy(v)))
                        _places.append((owner, k, v))
                    except Exception:
                        pass
                elif isinstance(v, PLAIN):
                    _places.append((owner, k, v))
                elif hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
                    _caches.append(v)


def capture():
    """What differs from the state after import"""
    places = [(i, vars(o).get(k)) for i, (o, k, v) in enumerate(_places) if vars(o).get(k) is not v]
    boxes = [(i, copy.copy(b)) for i, (b, v) in enumerate(_boxes) if b != v]
    return places, boxes


def restore(state):
    places, boxes = state or ((), ())
    new = dict(places)
    for i, (o, k, v) in enumerate(_places):
        want = new[i] if i in new else v
        if vars(o).get(k) is not want:
            setattr(o, k, want)
    new = dict(boxes)
    for i, (b, v) in enumerate(_boxes):
        want = new[i] if i in new else v
        if b != want:
            if isinstance(b, list):
                b[:] = copy.deepcopy(want) if want is v else want
            else:
                b.clear()
                b.update(copy.deepcopy(want) if want is v else want)


def clear_caches():
    for c in _caches:
        c.cache_clear()
