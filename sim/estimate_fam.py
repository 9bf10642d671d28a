"""
E family (C11): estimates over histories of adding samples, estimating, creating and disposing of quantities and reopening
files. The oracle recomputes every estimate from the samples it has added itself.

Object identity is a seam: mlmc.quantity.quantity.id() hands out small numbers which are used again as soon as their object
has been deleted (what CPython does with addresses, but always and deterministically).
"""
import gc
import os
import sys
import weakref

import numpy as np

from . import core, seams, testsim


class Ids:
    """Numbers of objects, the one released last is used first"""

    def __init__(self):
        self.by_addr = {}
        self.free = []
        self.next = 140000000000000

    def __call__(self, obj):
        a = id(obj)
        if a in self.by_addr:
            return self.by_addr[a]
        try:
            weakref.finalize(obj, self.gone, a).atexit = False
        except TypeError:
            return a
        if self.free:
            n = self.free.pop()
        else:
            n = self.next
            self.next += 64
        self.by_addr[a] = n
        return n

    def gone(self, a):
        n = self.by_addr.pop(a, None)
        if n is not None:
            self.free.append(n)


# ------------------------------------------------------------------------------------------------ reference values
def layout(fmt):
    """name -> (start, shape, times, locations) in the flat result vector"""
    out, at = {}, 0
    for n, u, s, t, l in testsim.FORMATS[fmt]:
        out[n] = (at, s, t, l)
        at += int(np.prod(s)) * len(t) * len(l)
    return out, at


class Ref:
    """Quantity under test together with the function giving its samples from the raw array [M, N, 1 or 2]"""

    def __init__(self, q, fn, size, scalar=False):
        self.q = q
        self.fn = fn
        self.size = size
        self.scalar = scalar


def build(expr, root, fmt):
    """expr -> Ref"""
    k = expr[0]
    lay, total = layout(fmt)
    if k == "root":
        return Ref(root, lambda a: a, total)
    if k in ("item", "interp", "time", "loc", "elem"):
        at, s, times, locs = lay[expr[1]]
        n_s = int(np.prod(s))
        n_l = n_s * len(locs)
        q = root[expr[1]]
        if k == "item":
            return Ref(q, lambda a: a[at:at + n_l * len(times)], n_l * len(times))
        if k == "interp":
            t = expr[2]
            q = q.time_interpolation(t)
            i = max(j for j in range(len(times) - 1) if times[j] <= t)
            w = (t - times[i]) / (times[i + 1] - times[i])

            def interp(a):
                return (1 - w) * a[at + i * n_l: at + (i + 1) * n_l] + w * a[at + (i + 1) * n_l: at + (i + 2) * n_l]
            if len(expr) > 3:
                j = locs.index(expr[3])
                return Ref(q[expr[3]], lambda a: interp(a)[j * n_s:(j + 1) * n_s], n_s)
            return Ref(q, interp, n_l)
        i = times.index(expr[2])
        b = at + i * n_l
        q = q[expr[2]]
        if k == "time":
            return Ref(q, lambda a: a[b:b + n_l], n_l)
        j = locs.index(expr[3])
        q = q[expr[3]]
        b2 = b + j * n_s
        if k == "loc":
            return Ref(q, lambda a: a[b2:b2 + n_s], n_s)
        r, c = expr[4]
        q = q[r, c]
        o = b2 + r * s[1] + c
        return Ref(q, lambda a: a[o:o + 1], 1, True)
    if k == "arith":
        x = build(expr[2], root, fmt)
        if expr[1] == "affine":
            return Ref(x.q * expr[3] + expr[4], lambda a: x.fn(a) * expr[3] + expr[4], x.size, x.scalar)
        y = build(expr[3], root, fmt)
        if expr[1] == "add":
            return Ref(x.q + y.q, lambda a: x.fn(a) + y.fn(a), x.size, x.scalar)
        if expr[1] == "sub":
            return Ref(x.q - y.q, lambda a: x.fn(a) - y.fn(a), x.size, x.scalar)
        return Ref(x.q * y.q, lambda a: x.fn(a) * y.fn(a), x.size, x.scalar)
    if k == "ufunc":
        x = build(expr[2], root, fmt)
        f = {"sin": np.sin, "abs": np.abs, "maximum": lambda z: np.maximum(z, 1.0)}[expr[1]]
        return Ref(f(x.q), lambda a: f(x.fn(a)), x.size, False)
    if k == "array":
        xs = [build(e, root, fmt) for e in expr[1]]
        from mlmc.quantity.quantity import Quantity
        return Ref(Quantity.QArray([x.q for x in xs]), lambda a: np.concatenate([x.fn(a) for x in xs], axis=0), sum(x.size for x in xs))
    if k == "select":
        x = build(expr[1], root, fmt)
        y = build(expr[2], root, fmt)

        def sel(a):
            with np.errstate(invalid="ignore"):
                m = (y.fn(a) > expr[3]).all(axis=0).all(axis=1)
            return x.fn(a)[:, m, :]
        return Ref(x.q.select(y.q > expr[3]), sel, x.size, x.scalar)
    raise core.HarnessError("unknown expression %r" % (expr,))


def close(a, b, scale):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    inf = np.isinf(b)
    if not np.array_equal(np.isinf(a), inf):
        return False
    a, b, scale = a[~inf], b[~inf], np.broadcast_to(scale, inf.shape)[~inf]
    return bool(np.all(np.abs(a - b) <= 1e-9 * (np.abs(b) + scale + 1e-12)))


def reference(per_level):
    """per_level: arrays [M, N, 1 or 2] -> dict of the estimates, None if some level has no valid sample"""
    out = {"l_means": [], "l_vars": [], "n": [], "rm": [], "sm": [], "sv": []}
    for l, a in enumerate(per_level):
        mask = np.isnan(a).any(axis=0).any(axis=1)
        v = a[:, ~mask, :]
        n = v.shape[1]
        out["n"].append(n)
        out["rm"].append(int(mask.sum()))
        if n == 0:
            return None
        d = v[:, :, 0] if l == 0 else v[:, :, 0] - v[:, :, 1]
        out["l_means"].append(d.mean(axis=1))
        out["l_vars"].append(d.var(axis=1, ddof=1) if n > 1 else np.full(d.shape[0], np.inf))
        out["sm"].append(np.abs(d).mean(axis=1))
        out["sv"].append((d ** 2).sum(axis=1) / max(1, n - 1))
    out["mean"] = np.sum(out["l_means"], axis=0)
    out["var"] = np.sum([v / n for v, n in zip(out["l_vars"], out["n"])], axis=0)
    out["s_mean"] = np.sum(out["sm"], axis=0)
    out["s_var"] = np.sum([v / n for v, n in zip(out["sv"], out["n"])], axis=0)
    return out


def compare(bad, what, got, ref):
    """got: QuantityMean"""
    n = [int(x) for x in got.n_samples]
    if n != ref["n"]:
        bad("estimate_n", "%s: numbers of samples %s, there are %s" % (what, n, ref["n"]))
    rm = [int(x) for x in got.n_rm_samples]
    if rm != ref["rm"]:
        bad("estimate_n", "%s: numbers of removed samples %s, there are %s" % (what, rm, ref["rm"]))
    flat = lambda a: np.asarray(a, dtype=float).reshape(-1)
    for l in range(len(n)):
        if not close(flat(got.l_means[l]), ref["l_means"][l], ref["sm"][l]):
            bad("estimate_value", "%s: mean of level %d is %s, expected %s" % (what, l, flat(got.l_means[l])[:4], ref["l_means"][l][:4]))
        if not close(flat(got.l_vars[l]), ref["l_vars"][l], ref["sv"][l]):
            bad("estimate_value", "%s: variance of level %d is %s, expected %s" % (what, l, flat(got.l_vars[l])[:4], ref["l_vars"][l][:4]))
    if not close(flat(got.mean), ref["mean"], ref["s_mean"]):
        bad("estimate_value", "%s: mean %s, expected %s" % (what, flat(got.mean)[:4], ref["mean"][:4]))
    if not close(flat(got.var), ref["var"], ref["s_var"]):
        bad("estimate_value", "%s: variance %s, expected %s" % (what, flat(got.var)[:4], ref["var"][:4]))


def moments_ref(fn, a):
    """[M, N, c] -> [M * R, N, c]"""
    m = fn.eval_all(a)                   # [M, N, c, R]
    return m.transpose((0, 3, 1, 2)).reshape((-1, a.shape[1], a.shape[2]))


def cov_ref(fn, a):
    m = fn.eval_all(a)
    c = m[..., :, None] * m[..., None, :]        # [M, N, c, R, R]
    return c.transpose((0, 3, 4, 1, 2)).reshape((-1, a.shape[1], a.shape[2]))


def make_moments(spec):
    import mlmc.moments as mm
    cls = {"mono": mm.Monomial, "leg": mm.Legendre}[spec[0]]
    return cls(spec[1], domain=tuple(spec[2]), safe_eval=spec[3])


def check_estimate(bad, ref, storage, raw, op):
    """One estimate of the quantity against the raw samples (arrays [M, N, 1 or 2] for each level)"""
    import mlmc.quantity.quantity_estimate as qe
    from mlmc.estimator import Estimate
    kind = op["kind"]
    arrays = [ref.fn(a) for a in raw]
    what = "%s of %s" % (kind, op.get("text", ""))
    if any(a.shape[1] == 0 for a in arrays):
        return False
    if kind == "mean":
        want = reference(arrays)
        if want is None:
            return False
        got = qe.estimate_mean(ref.q)
        compare(bad, what, got, want)
    elif kind in ("moments", "cov", "moments_top", "diff_vars"):
        fn = make_moments(op["moments"])
        f = cov_ref if kind == "cov" else moments_ref
        want = reference([f(fn, a) for a in arrays])
        if want is None:
            return False
        est = Estimate(ref.q, storage, fn)
        flat = lambda a: np.asarray(a, dtype=float).reshape(-1)
        if kind == "diff_vars":
            v, n = est.estimate_diff_vars(fn)
            if [int(x) for x in n] != want["n"]:
                bad("estimate_n", "%s: numbers of samples %s, there are %s" % (what, list(n), want["n"]))
            for l in range(len(want["n"])):
                if not close(flat(v[l]), want["l_vars"][l], want["sv"][l]):
                    bad("estimate_value", "%s: variance of level %d %s, expected %s" % (what, l, flat(v[l])[:4], want["l_vars"][l][:4]))
            return True
        if kind == "moments_top":
            got = qe.estimate_mean(qe.moments(ref.q, fn, mom_at_bottom=False))
            perm = np.arange(ref.size * fn.size).reshape(ref.size, fn.size).T.reshape(-1)
            want = {k: ([np.asarray(x)[perm] for x in v] if k in ("l_means", "l_vars", "sm", "sv") else
                        (v if k in ("n", "rm") else np.asarray(v)[perm])) for k, v in want.items()}
            compare(bad, what, got, want)
            return True
        mean, var = est.estimate_covariance() if kind == "cov" else est.estimate_moments()
        if not close(flat(mean), want["mean"], want["s_mean"]):
            bad("estimate_value", "%s: %s, expected %s" % (what, flat(mean)[:4], want["mean"][:4]))
        if not close(flat(var), want["var"], want["s_var"]):
            bad("estimate_value", "%s: variance %s, expected %s" % (what, flat(var)[:4], want["var"][:4]))
    elif kind == "domain":
        qn = op.get("quantile")
        lo, hi = [], []
        for a in arrays:
            x = a[..., 0]
            x = x[~np.isnan(x)]
            if x.size == 0:
                return False
            p = 0.01 if qn is None else qn
            r = np.percentile(x, [100 * p, 100 * (1 - p)])
            lo.append(r[0])
            hi.append(r[1])
        got = Estimate.estimate_domain(ref.q, storage, quantile=qn)
        if not (abs(got[0] - min(lo)) < 1e-9 and abs(got[1] - max(hi)) < 1e-9):
            bad("estimate_value", "%s: (%g, %g), expected (%g, %g)" % (what, got[0], got[1], min(lo), max(hi)))
    elif kind == "level":
        est = Estimate(ref.q, storage)
        for l, a in enumerate(raw):
            if op.get("n_one"):
                n = 1
                got = est.get_level_samples(l, n_samples=1)
            else:
                n = a.shape[1]
                got = est.get_level_samples(l, n_samples=n)
            b = ref.fn(a[:, :n, :])
            if np.asarray(got).shape != b.shape or not np.allclose(got, b, rtol=1e-12, atol=0, equal_nan=True):
                bad("estimate_value", "%s: samples of level %d differ" % (what, l))
    elif kind == "subsample":
        return check_subsample(bad, ref, storage, arrays, op, what)
    elif kind == "bootstrap":
        if any(np.isnan(a).any() for a in arrays) or not ref.scalar:
            return False
        fn = make_moments(op["moments"])
        est = Estimate(ref.q, storage, fn)
        est.est_bootstrap(n_subsamples=op.get("draws", 3), sample_vector=sample_vector(arrays, op))
        lm = np.asarray(est.mean_bs_l_means, dtype=float)
        lm = lm.reshape(lm.shape[0], -1)
        tot = np.zeros(lm.shape[1])
        for l, a in enumerate(arrays):
            m = fn.eval_all(a).transpose((3, 0, 1, 2)).reshape((-1, a.shape[1], a.shape[2]))
            d = m[:, :, 0] if l == 0 else m[:, :, 0] - m[:, :, 1]
            lo, hi = d.min(axis=1), d.max(axis=1)
            eps = 1e-9 * (1 + np.abs(d).max())
            if l >= lm.shape[0] or lm[l].shape != lo.shape or not (np.all(lm[l] >= lo - eps) and np.all(lm[l] <= hi + eps)):
                bad("subsample_value", "%s: mean of level %d outside of the range of its samples" % (what, l))
            tot = tot + lm[l]
        if not np.allclose(np.asarray(est.mean_bs_mean, dtype=float).reshape(-1), tot, rtol=1e-9, atol=1e-9):
            bad("subsample_value", "%s: mean is not the sum of the means of levels" % what)
    else:
        raise core.HarnessError("unknown estimate %r" % kind)
    return True


def sample_vector(arrays, op):
    f = op["frac"]
    return [max(1, min(a.shape[1], int(round(f[l % len(f)] * a.shape[1])))) for l, a in enumerate(arrays)]


def check_subsample(bad, ref, storage, arrays, op, what):
    """Requested number of whole collected samples on each level"""
    import mlmc.quantity.quantity_estimate as qe
    k = op.get("k") or sample_vector(arrays, op)
    seen = [set() for _ in k]
    q = ref.q.subsample(sample_vec=list(k)) if op.get("kept") is None else op["kept"]
    for draw in range(op.get("draws", 1)):
        if draw and op.get("new"):
            q = ref.q.subsample(sample_vec=list(k))
        if draw % 2 == 0:
            got = qe.estimate_mean(q) if not any(np.isnan(a).any() for a in arrays) else None
            if got is not None and [int(x) for x in got.n_samples] != k:
                bad("subsample_n", "%s: %s samples requested, %s used (of %s)" % (what, k, list(got.n_samples), [a.shape[1] for a in arrays]))
        getattr(qe, "cache_clear", lambda: clear_cache(sys.modules["mlmc.quantity.quantity"], qe))()
        n = [0] * len(k)
        for ch in storage.chunks():
            b = np.asarray(q.samples(ch), dtype=float)
            l = int(ch.level_id)
            n[l] += b.shape[1]
            for i in range(b.shape[1]):
                x, a = b[:, i:i + 1, :], arrays[l]
                hit = ((np.abs(x - a) <= 1e-12 * (1 + np.abs(a))) | (np.isnan(x) & np.isnan(a))).all(axis=(0, 2)) if x.shape[::2] == a.shape[::2] else np.zeros(0)
                if not hit.any():
                    bad("subsample_value", "%s: drawn sample of level %d is none of the collected ones" % (what, l))
                seen[l].update(np.nonzero(hit)[0].tolist())
        if n != k:
            bad("subsample_n", "%s: %s samples requested, %s drawn (of %s)" % (what, k, n, [a.shape[1] for a in arrays]))
    if op.get("draws", 1) >= 40 and min(op["frac"]) >= 1.0:
        for l, a in enumerate(arrays):
            if len(seen[l]) != a.shape[1]:
                bad("subsample_cover", "%s: only %d of %d samples of level %d ever drawn" % (what, len(seen[l]), a.shape[1], l))
    return True


# ------------------------------------------------------------------------------------------------ world
class Store:
    def __init__(self, w, i, spec):
        self.spec = spec
        self.path = os.path.join(w.sim.root, "store", "est%d.hdf5" % i)
        self.fmt = spec["fmt"]
        self.L = spec["L"]
        self.raw = [[] for _ in range(self.L)]
        self.n = [0] * self.L
        self.roots = {}
        self.storage = None
        self.open(True)

    def open(self, new=False):
        from mlmc.sample_storage import Memory
        from mlmc.sample_storage_hdf import SampleStorageHDF
        if self.spec["kind"] == "mem":
            if not new:
                return
            self.storage = Memory()
        else:
            self.storage = SampleStorageHDF(self.path)
        self.storage.save_global_data(level_parameters=[[2.0 ** -l] for l in range(self.L)], result_format=testsim.make_format(self.fmt))

    def root(self):
        from mlmc.quantity.quantity import make_root_quantity
        return make_root_quantity(self.storage, self.storage.load_result_format())

    def add(self, op):
        r = np.random.RandomState(op["seed"])
        size = testsim.format_size(self.fmt)
        ok, fail = {}, {}
        for l, n, nf in op["levels"]:
            if l >= self.L:
                continue
            ids = ["L%02d_S%07d" % (l, self.n[l] + j) for j in range(n + nf)]
            self.n[l] += n + nf
            if not ids:
                continue
            self.storage.save_scheduled_samples(l, ids)
            order = list(ids)
            r.shuffle(order)
            rows = []
            for i in order[:n]:
                f = np.round(r.uniform(-2, 5, size), 3)
                c = np.zeros(size) if l == 0 else np.round(f + r.uniform(-0.5, 0.5, size) * 2.0 ** -l, 3)
                if r.uniform() < op.get("p_nan", 0):
                    k = r.randint(size)
                    if l and r.uniform() < 0.5:
                        c[k] = np.nan
                    else:
                        f[k] = np.nan
                rows.append((i, (f, c)))
            if rows:
                ok[l] = rows
            if order[n:]:
                fail[l] = [(i, "failed") for i in order[n:]]
            for _, (f, c) in rows:
                self.raw[l].append(f[:, None].copy() if l == 0 else np.stack([f, c], axis=1))
        self.storage.save_samples(ok, fail)

    def arrays(self):
        return [np.stack(r, axis=1) for r in self.raw]

    def ready(self):
        return all(self.raw)


def estimate_world(w, sim, sc, box):
    import mlmc.quantity.quantity as mq
    import mlmc.quantity.quantity_estimate as qe
    import traceback
    from .runner import Stop, in_repo
    from . import storage_fam

    def body():
        had = "id" in vars(mq)
        ids = Ids()
        if not had:
            mq.id = ids
        quantities = {}
        kept = {}
        try:
            clear_cache(mq, qe)
            stores = [Store(w, i, s) for i, s in enumerate(sc["stores"])]
            for i, op in enumerate(sc["ops"]):
                sim.log("OP", i, sorted(op.items(), key=str))
                k = op["op"]
                try:
                    if k == "add":
                        stores[op["s"]].add(op)
                    elif k == "mk":
                        st = stores[op["s"]]
                        if st.ready():
                            quantities[op["name"]] = (build(op["expr"], st.root(), st.fmt), st)
                    elif k == "del":
                        quantities.pop(op["name"], None)
                        kept.pop(op["name"], None)
                        gc.collect()
                    elif k == "reopen":
                        stores[op["s"]].open()
                    elif k == "est":
                        if op["name"] not in quantities:
                            continue
                        ref, st = quantities[op["name"]]
                        op2 = dict(op, text=op["name"])
                        if op["kind"] == "subsample" and op.get("keep") and all(r.shape[1] for r in map(ref.fn, st.arrays())):
                            # the same subsample evaluated again later, more samples may have been collected meanwhile
                            old = kept.get(op["name"])
                            if old is None or old[0] is not ref:
                                op2["frac"] = op["frac"]
                                v = sample_vector([ref.fn(a) for a in st.arrays()], op)
                                old = kept[op["name"]] = (ref, ref.q.subsample(sample_vec=list(v)), v)
                            op2["kept"], op2["k"] = old[1], old[2]
                            op2.pop("new", None)
                        if check_estimate(w.bad, ref, st.storage, st.arrays(), op2):
                            sim.probe("estimate_" + op["kind"])
                    else:
                        raise core.HarnessError("unknown op %r" % (op,))
                except (Stop, core.HarnessError, core.SimKilled, core.SimAbort):
                    raise
                except Exception as e:
                    tb = traceback.format_exc()
                    if in_repo(tb):
                        w.bad("exception", "%r raised %s: %s\n%s" % (op, type(e).__name__, str(e)[:200], tb[-1200:]))
                    raise
        except Stop:
            pass
        finally:
            quantities.clear()
            kept.clear()
            if not had and "id" in vars(mq):
                del mq.id
    storage_fam.run_proc(sim, w, "store0", body, None)


def clear_cache(mq, qe):
    """State which outlives a run in the same interpreter"""
    for f in (getattr(mq.Quantity, "samples", None), getattr(mq.QuantityConst, "samples", None)):
        if hasattr(f, "cache_clear"):
            f.cache_clear()
    gc.collect()
