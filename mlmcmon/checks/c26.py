"""C26: estimates reflect the samples stored at the moment of the call"""
import gc
import os
import numpy as np
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.moments import Legendre, Monomial
from mlmc.estimator import Estimate, estimate_domain
from mlmcmon.core import scenario
from mlmcmon import gen, quant
from mlmcmon.checks.c12 import leaves
from mlmcmon.checks.c16 import ref_transform, ref_values, DEFAULT_REF

RULE = """Random histories over several storages that grow between the calls (also through another object of the same file): saving
of samples, creation and deletion of quantities, of their combinations and selections, estimates of means, moments and
domains, reading of level samples and of chunks, interleaved in random order; every returned value is compared with the value computed
from the data saved up to that moment. A state is a distinct sequence of (action, storage) pairs of the length three."""


class Store:
    def __init__(self, ctx, rng, index, fmt, n_levels):
        self.fmt, self.n_levels, self.size = fmt, n_levels, gen.fmt_size(fmt)
        self.kind = str(rng.choice(["memory", "hdf"]))
        self.path = os.path.join(ctx.scratch, "s{}.hdf5".format(index))
        self.data = [np.empty((0, 2, self.size)) for _ in range(n_levels)]
        if self.kind == "memory":
            self.storage = gen.new_storage("memory", ctx.scratch)
        else:
            self.storage = SampleStorageHDF(self.path)
        self.storage.save_global_data(level_parameters=[[1.0 / 2 ** i] for i in range(n_levels)], result_format=fmt)
        for l in range(n_levels):
            self.append(rng, l, int(rng.integers(2, 12)))
        self.root = make_root_quantity(self.storage, fmt)

    def append(self, rng, level, n, writer=None):
        d = gen.random_data(rng, self.size, n, level, scale=float(rng.choice([1, 5])))
        start = len(self.data[level])
        ids = [gen.sample_id(level, start + i) for i in range(n)]
        w = writer or self.storage
        w.save_scheduled_samples(level, ids)
        w.save_samples({level: [(i, (p[0].copy(), p[1].copy())) for i, p in zip(ids, d)]}, {})
        self.data[level] = np.concatenate((self.data[level], d))

    def raw(self):
        return [np.transpose(d[:, :1] if l == 0 else d, (2, 0, 1)) for l, d in enumerate(self.data)]

    def offset(self, *args):
        return quant.Case.offset(self, *args)


@scenario("C26", quick=600, thorough=2500)
def histories(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 4)
    fmt = gen.random_format(rng, 10)
    stores = [Store(ctx, rng, i, fmt, n_levels) for i in range(int(rng.integers(1, 4)))]
    quantities = []    # (store, quantity, function of raw data -> values of the quantity, name)
    history = []

    def new_quantity(si):
        st = stores[si]
        kind, parts = leaves(rng, st, st.root)
        q, s = parts[int(rng.integers(len(parts)))]
        how = int(rng.integers(4))
        if how == 0:
            return si, q, (lambda raw, s=s: [v[s] for v in raw]), kind
        if how == 1:
            c = float(rng.integers(2, 9))
            return si, q * c + q, (lambda raw, s=s, c=c: [v[s] * c + v[s] for v in raw]), kind
        if how == 2:
            return si, np.square(q), (lambda raw, s=s: [np.square(v[s]) for v in raw]), kind
        bound = float(rng.normal()) - 1.5

        def selected(raw, s=s, bound=bound):
            out = []
            for v in raw:
                keep = np.all(v[s] > bound, axis=(0, 2))
                out.append(v[s][:, keep])
            return out
        return si, q.select(q > bound), selected, kind

    for step in range(int(rng.integers(12, 30))):
        si = int(rng.integers(len(stores)))
        st = stores[si]
        action = str(rng.choice(["append", "append", "new", "new", "delete", "mean", "mean", "mean", "moments", "level", "domain", "chunks", "other"]))
        if action in ("mean", "moments", "level", "domain", "chunks"):
            mine = [x for x in quantities if x[0] == si]
            if not mine:
                action = "new"
            else:
                _, q, fn, name = mine[int(rng.integers(len(mine)))]
                values = fn(st.raw())
        history.append((action, si))
        where = (st.kind, [len(d) for d in st.data], history[-6:])
        ctx.event(action)
        if action == "append":
            st.append(rng, int(rng.integers(n_levels)), int(rng.integers(1, 9)) if rng.random() < 0.9 else 400)
        elif action == "other" and st.kind == "hdf":
            st.append(rng, int(rng.integers(n_levels)), int(rng.integers(1, 9)), writer=SampleStorageHDF(st.path))
        elif action == "new":
            quantities.append(new_quantity(si))
        elif action == "delete" and quantities:
            quantities.pop(int(rng.integers(len(quantities))))
            q = None
            gc.collect()
            if rng.random() < 0.7:
                quantities.append(new_quantity(si))
        elif action == "mean":
            if all(v.shape[1] for v in values):
                est = estimate_mean(q)
                ref = quant.ref_estimate(values)
                scale = quant.scale_of(values)
                ctx.equal([int(x) for x in est.n_samples], ref["n"], "number-of-samples", where)
                ctx.close(np.reshape(est.l_means, (n_levels, -1)), ref["l_means"], "level-means", where, rtol=1e-9, atol=1e-10 * scale)
                ctx.close(np.ravel(est.mean), ref["mean"], "mean", where, rtol=1e-9, atol=1e-10 * scale)
        elif action == "moments":
            if all(v.shape[1] for v in values):
                domain = (-60.0, 60.0 + step)
                family = [Legendre, Monomial][int(rng.integers(2))]
                r = int(rng.integers(2, 5))

                def phi(v):
                    x = ref_values(family, ref_transform(domain, DEFAULT_REF[family], False, v), r)
                    x[~((v >= domain[0]) & (v <= domain[1]))] = np.nan
                    return np.moveaxis(x, -1, 1).reshape((-1,) + v.shape[1:])
                phis = [phi(v) for v in values]
                if any(not quant.valid(v).any() for v in phis):
                    continue        # an estimate needs a sample within the domain on each level
                e = Estimate(q, st.storage, family(r, domain))
                got, _ = e.estimate_moments() if rng.integers(2) else e.estimate_moments(family(r, domain))
                ref = quant.ref_estimate(phis)
                ctx.close(np.ravel(got), ref["mean"], "moments", where, rtol=1e-7, atol=1e-9)
        elif action == "level":
            level = int(rng.integers(n_levels))
            n = len(st.data[level])
            e = Estimate(q, st.storage, None)
            # Also more samples than stored, so that the same number is asked for again after more of them are stored
            k = None if rng.random() < 0.3 else int(rng.integers(1, n + 1)) if rng.integers(2) else int(rng.choice([5, 20, 40]))
            got = np.asarray(e.get_level_samples(level, n_samples=k))
            if name == "root" and got.shape[1] and k is not None and values[level].shape[1] == n:
                ctx.equal(got.shape[1], min(k, n), "number-of-level-samples", where)
            m = got.shape[1]
            # Selected quantities return selected of the first k samples
            first = fn([v[:, :k] if k is not None else v for v in st.raw()])[level]
            if k is None:
                ctx.check(m > 0 or values[level].shape[1] == 0 or st.kind == "hdf", "level-samples-empty", where)
                ctx.same(got, values[level][:, :m], "level-samples", where)
                if st.kind == "memory" or n <= 60:
                    ctx.equal(m, values[level].shape[1], "number-of-level-samples", where)
            else:
                ctx.same(got, first, "level-samples", where)
        elif action == "domain":
            if all(v.shape[1] for v in values):
                quantile = float(rng.choice([0.01, 0.1, 0.25]))
                got = (estimate_domain if rng.integers(2) else Estimate.estimate_domain)(q, st.storage, quantile=quantile)
                ranges = [np.percentile(v[..., 0].ravel(), [100 * quantile, 100 * (1 - quantile)]) for v in values]
                expected = (min(r[0] for r in ranges), max(r[1] for r in ranges))
                ctx.close(got, expected, "domain", where, rtol=1e-9, atol=1e-9)
        elif action == "chunks":
            level = int(rng.integers(n_levels))
            got = quant.samples(st.storage, q, level)
            ctx.same(got, values[level], "samples", where)
        if len(history) >= 3:
            ctx.state(*[(a, stores[i].kind) for a, i in history[-3:]])
    ctx.note([a for a, _ in history])


@scenario("C26", quick=120, thorough=800)
def repeated_level_reads(ctx, rng):
    """The same read repeated over a growing storage, with no other estimate in between that would clear cached samples"""
    n_levels = int(rng.integers(1, 4))
    fmt = gen.random_format(rng, 10)
    st = Store(ctx, rng, 0, fmt, n_levels)
    kind, parts = leaves(rng, st, st.root)
    q, s = parts[int(rng.integers(len(parts)))]
    c = float(rng.integers(2, 9))
    derived = q * c
    e, e2 = Estimate(q, st.storage, None), Estimate(derived, st.storage, None)
    k, level = int(rng.choice([5, 20, 40])), int(rng.integers(n_levels))
    for step in range(int(rng.integers(3, 9))):
        st.append(rng, level if rng.random() < 0.8 else int(rng.integers(n_levels)), int(rng.integers(1, 9)))
        ctx.event("append")
        for est, factor in ((e, 1), (e2, c)):
            if rng.random() < 0.3:
                continue
            how = int(rng.integers(3))
            raw = st.raw()[level][s]
            where = (st.kind, raw.shape, k, how, step)
            if how < 2:
                got = np.asarray(est.get_level_samples(level, n_samples=k))
                ctx.same(got, raw[:, :k] * factor, "repeated-level-samples", where)
            else:
                got = estimate_domain(est.quantity, st.storage, quantile=0.1) if raw.shape[0] == 1 else None
                if got is None:
                    continue
                ranges = [np.percentile(v[s][..., 0].ravel() * factor, [10, 90]) for v in st.raw()]
                ctx.close(got, (min(r[0] for r in ranges), max(r[1] for r in ranges)), "repeated-domain", where, rtol=1e-9, atol=1e-9)
            ctx.event("reads")
            ctx.state(st.kind, how, factor == 1, min(step, 3), raw.shape[1] < k)
    ctx.note((st.kind, k, [len(d) for d in st.data]))


@scenario("C26", quick=120, thorough=1000)
def one_estimator(ctx, rng):
    """All estimates of one estimator object used again and again, while samples come and its quantity and functions change"""
    n_levels = gen.n_levels(rng, 1, 5)
    st = Store(ctx, rng, 0, gen.random_format(rng, 8), n_levels)
    st.storage.save_n_ops([(l, [float(rng.integers(1, 9)), 1]) for l in range(n_levels)])
    parts = []
    while len(parts) < 3:
        kind, found = leaves(rng, st, st.root)
        if kind == "element":
            parts.append(found[int(rng.integers(len(found)))])
    domain = (-1000.0, 1000.0)
    fns = [Legendre(int(rng.integers(2, 5)), domain) for _ in range(2)]
    current, s = parts[0]
    est = Estimate(current, st.storage, fns[0])
    history = []
    for step in range(int(rng.integers(6, 16))):
        action = str(rng.choice(["append", "append", "quantity", "moments", "covariance", "diff_vars", "diff_vars", "regression", "bootstrap"]))
        fn = fns[int(rng.integers(2))]
        given = action in ("diff_vars", "regression", "bootstrap") or "bootstrap" in history or bool(rng.integers(2))
        used = fn if given else fns[0]
        arg = fn if given else None
        history.append(action)
        ctx.event(action)
        where = (st.kind, n_levels, [len(d) for d in st.data], history)
        if action == "append":
            for l in range(n_levels):
                if rng.random() < 0.6:
                    st.append(rng, l, int(rng.integers(1, 9)))
            continue
        if action == "quantity":
            current, s = parts[int(rng.integers(3))]
            est.quantity = current
            continue
        phis = [np.moveaxis(ref_values(Legendre, ref_transform(domain, (-1, 1), False, v[s][0]), used.size), -1, 0) for v in st.raw()]
        ref = quant.ref_estimate(phis)
        if action == "moments":
            mean, var = est.estimate_moments(arg)
            ctx.close(np.ravel(mean), ref["mean"], "estimator-moments", where, rtol=1e-7, atol=1e-10)
            ctx.close(np.ravel(var), ref["var"], "estimator-moments-var", where, rtol=1e-5, atol=1e-10)
        elif action == "covariance":
            r = used.size
            cov = quant.ref_estimate([np.einsum("ink,jnk->ijnk", v, v).reshape((r * r,) + v.shape[1:]) for v in phis])
            mean, var = est.estimate_covariance(arg)
            ctx.close(mean, cov["mean"].reshape((r, r)), "estimator-covariance", where, rtol=1e-7, atol=1e-10)
            ctx.close(var, cov["var"].reshape((r, r)), "estimator-covariance-var", where, rtol=1e-5, atol=1e-10)
        elif action == "diff_vars":
            var, n = est.estimate_diff_vars(fn)
            ctx.close(var, ref["l_vars"], "estimator-variances", where, rtol=1e-5, atol=1e-10)
            ctx.equal([int(x) for x in n], ref["n"], "estimator-numbers", where)
        elif action == "regression":
            var, n_ops = est.estimate_diff_vars_regression(st.storage.get_n_collected(), fn)
            if n_levels < 3:
                ctx.close(var, ref["l_vars"], "estimator-regression", where, rtol=1e-5, atol=1e-10)
            else:
                # No state is kept: a new estimator gives the same
                var2, _ = Estimate(current, st.storage, fns[0]).estimate_diff_vars_regression(st.storage.get_n_collected(), fn)
                ctx.same(var, var2, "estimator-regression-repeated", where)
                ctx.close(var[0], ref["l_vars"][0], "estimator-regression", where, rtol=1e-5, atol=1e-10)
        elif action == "bootstrap":
            est.est_bootstrap(n_subsamples=3, moments_fn=fn)
            # Level mean of the first function (linear) of the first level is within the range of the current data
            v0 = st.raw()[0][s].ravel()
            lo, hi = ref_values(Legendre, ref_transform(domain, (-1, 1), False, np.array([v0.min(), v0.max()])), 2)[:, 1]
            got = np.ravel(est.mean_bs_l_means[0])[1]
            ctx.check(lo - 1e-9 <= got <= hi + 1e-9, "estimator-bootstrap", lambda: "{} {} {}".format(where, got, (lo, hi)))
            ctx.equal(np.shape(est.mean_bs_l_means), (n_levels, fn.size), "estimator-bootstrap-shape", where)
        ctx.state(st.kind, n_levels, *history[-3:])
    ctx.note((st.kind, history))
