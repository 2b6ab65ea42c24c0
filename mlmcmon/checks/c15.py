"""C15: subsampling and bootstrap"""
import numpy as np
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, cache_clear, moments
from mlmc.estimator import Estimate
from mlmc.moments import Legendre, Monomial
from mlmcmon.core import scenario
from mlmcmon import gen, quant
from mlmcmon.checks.c12 import leaves

RULE = """Random data, quantities and numbers of samples to pick, repeated evaluations; the picked rows are matched with rows of the
raw data (each row made unique, so that fine, coarse and all components have to come from one sample) and counted per level.
Frequencies of the picked samples over many repetitions are compared with uniform ones, bootstrap statistics with the
values known for the resampled data, both with bounds far behind the statistical error (probability below 1e-9).
A state is a distinct (structure, numbers of samples, numbers of picked samples, number of chunks)."""
ASSUMPTIONS = ["statistical bounds with false alarm probability below 1e-9 per comparison, generators seeded per case"]


def pick_vector(rng, case):
    return [int(rng.integers(1, v.shape[1] + 1)) for v in case.raw]


def match(ctx, got, values, key, where):
    """Columns of got [M, k, c] are columns of values [M, n, c]; :return: indices"""
    table = {values[:, i].tobytes(): i for i in range(values.shape[1])}
    out = []
    for j in range(got.shape[1]):
        b = np.ascontiguousarray(got[:, j]).tobytes()
        ctx.check(b in table, key, lambda: "{} picked {} is no sample".format(where, got[:, j]))
        out.append(table[b])
    return out


@scenario("C15", quick=100, thorough=1200)
def picked(ctx, rng):
    case = quant.Case(ctx, rng, n_range=(1, 40) if rng.random() < 0.6 else (200, 1500))
    root = make_root_quantity(case.storage, case.root_fmt)
    kind, parts = leaves(rng, case, root)
    q, s = parts[int(rng.integers(len(parts)))]
    vals = [v[s] for v in case.raw]
    how = int(rng.integers(3))
    if how == 1:
        q, vals = 2 * q, [2 * v for v in vals]
    vec = pick_vector(rng, case)
    if how == 2:
        # Number of levels is taken from data, not from the vector type
        vec = np.array(vec)
    sub = q.subsample(vec)
    n_chunks = [len(list(case.storage.chunks(level_id=l))) for l in range(case.n_levels)]
    where = (case.kind, kind, [v.shape[1] for v in vals], list(vec), n_chunks)
    picks = []
    for repeat in range(3):
        cache_clear()
        for l in range(case.n_levels):
            got = quant.samples(case.storage, sub, l)
            ctx.equal(got.shape[1], int(vec[l]), "number-of-picked", where + ("level", l, "repeat", repeat))
            picks.append((l, tuple(match(ctx, got, np.ascontiguousarray(vals[l]), "not-a-sample", where))))
            ctx.event("picked", got.shape[1])
    est = estimate_mean(sub)
    ctx.equal([int(x) for x in est.n_samples], [int(x) for x in vec], "estimate-of-subsample-n", where)
    mean = estimate_mean(moments(sub, Legendre(3, (-100, 100)), mom_at_bottom=False))
    ctx.equal([int(x) for x in mean.n_samples], [int(x) for x in vec], "moments-of-subsample-n", where)
    # The original is untouched
    for l in range(case.n_levels):
        ctx.same(quant.samples(case.storage, q, l), vals[l], "original-changed", where)
    ctx.event("distinct_picks", len(set(picks)))
    ctx.state(kind, tuple(v.shape[1] for v in vals), tuple(int(x) for x in vec), tuple(n_chunks))
    ctx.note(where)


@scenario("C15", quick=16, thorough=120)
def uniform(ctx, rng):
    """Every sample, in any chunk, has the same chance and evaluations differ"""
    case = quant.Case(ctx, rng, fmt=gen.simple_format(1 if rng.integers(2) else 20), n_levels=int(rng.integers(1, 3)),
                      n_range=(20, 60) if rng.integers(2) else (800, 1100))
    root = make_root_quantity(case.storage, case.root_fmt)
    vec = [max(1, v.shape[1] // int(rng.integers(2, 8))) for v in case.raw]
    sub = root.subsample(vec)
    repeats = 150
    counts = [np.zeros(v.shape[1]) for v in case.raw]
    chunk_of = []
    seen = [set() for _ in case.raw]
    for l in range(case.n_levels):
        bounds = np.cumsum([sp.chunk_slice.stop - sp.chunk_slice.start for sp in case.storage.chunks(level_id=l)])
        chunk_of.append(np.searchsorted(bounds, np.arange(case.raw[l].shape[1]), side="right"))
    for _ in range(repeats):
        cache_clear()
        for l in range(case.n_levels):
            idx = match(ctx, quant.samples(case.storage, sub, l), np.ascontiguousarray(case.raw[l]), "not-a-sample", l)
            np.add.at(counts[l], idx, 1)
            seen[l].add(tuple(idx))
    for l in range(case.n_levels):
        n, k = case.raw[l].shape[1], vec[l]
        ctx.equal(int(counts[l].sum()), repeats * k, "total", l)
        ctx.check(len(seen[l]) > repeats // 2, "picks-repeat", "level {} only {} different picks of {}".format(l, len(seen[l]), repeats))
        expect = repeats * k / n
        z = (counts[l] - expect) / np.sqrt(1.3 * expect)
        # Poisson-like counts: generous for a small mean
        ctx.check(np.max(z) < 8 + 8 / np.sqrt(expect) and np.min(z) > -8, "not-uniform", lambda: (case.kind, l, n, k, z.min(), z.max()))
        if expect > 40:
            ctx.check(np.min(counts[l]) > 0, "never-picked", lambda: (l, np.nonzero(counts[l] == 0)[0][:10]))
        # Groups: chunks and thirds of the level, sampled without replacement among chunks
        for name, groups in (("chunk", chunk_of[l]), ("third", np.arange(n) * 3 // n)):
            for g in np.unique(groups):
                m = int(np.sum(groups == g))
                p = m / n
                sd = np.sqrt(repeats * k * p * (1 - p) + 1e-9) + 1e-6
                obs = counts[l][groups == g].sum()
                ctx.check(abs(obs - repeats * k * p) < 8 * sd + 1, "group-not-uniform",
                          lambda: (case.kind, name, int(g), "observed", obs, "expected", repeats * k * p, "sd", sd))
                ctx.event("groups")
        ctx.state(case.kind, n, k, len(np.unique(chunk_of[l])))


@scenario("C15", quick=24, thorough=200)
def bootstrap(ctx, rng):
    """Statistics of bootstrap estimates of moments"""
    n_levels = gen.n_levels(rng, 1, 4)
    fmt = gen.simple_format(1)
    data = [gen.random_data(rng, 1, int(rng.integers(80, 400)), l) for l in range(n_levels)]
    case = quant.Case(ctx, rng, fmt=fmt, n_levels=n_levels, data=data)
    q = make_root_quantity(case.storage, fmt)["q"][1.0]['0'][0, 0]
    r = int(rng.integers(2, 5))
    fn = Legendre(r, (-20, 20)) if rng.integers(2) else Monomial(r, (-20, 20))
    vec = [int(rng.integers(60, v.shape[1] + 1)) for v in case.raw]
    default = rng.random() < 0.3
    if default:
        vec = [v.shape[1] for v in case.raw]
    n_sub = 200
    est = Estimate(q, case.storage, fn)
    given = None if default else list(vec) + ([7] if rng.integers(2) else [])
    est.est_bootstrap(n_subsamples=n_sub, sample_vector=given, moments_fn=fn if rng.integers(2) else None)
    l_means, l_vars = [], []
    for l, v in enumerate(case.raw):
        m = fn.eval_all(v[0])  # [n, k, R]
        d = m[:, 0] - (m[:, 1] if l > 0 else 0)
        l_means.append(d.mean(axis=0))
        l_vars.append(d.var(axis=0, ddof=1))
    l_means, l_vars = np.array(l_means), np.array(l_vars)
    n = np.array(vec)
    ref_var = (l_vars / n[:, None]).sum(axis=0)
    where = (case.kind, vec, [v.shape[1] for v in case.raw], r)
    err = np.sqrt(ref_var / n_sub) + 1e-12
    ctx.close((np.ravel(est.mean_bs_mean) - l_means.sum(axis=0)) / err, np.zeros(r), "bootstrap-mean", where, atol=8)
    ratio = np.ravel(est.var_bs_mean)[1:] / ref_var[1:]
    # Sampling without replacement among chunks of a file decreases the variance of a nearly complete pick
    low = 0.4 if case.kind == "memory" else 0.0
    ctx.check(np.all((ratio > low) & (ratio < 2.2)), "bootstrap-variance-of-mean", lambda: where + (ratio,))
    ratio = np.ravel(est.mean_bs_var)[1:] / ref_var[1:]
    ctx.check(np.all((ratio > 0.6) & (ratio < 1.6)), "bootstrap-mean-of-variance", lambda: where + (ratio,))
    got = np.reshape(est.mean_bs_l_vars, l_vars.shape)[:, 1:] / l_vars[:, 1:]
    ctx.check(np.all((got > 0.5) & (got < 1.7)), "bootstrap-level-variance", lambda: where + (got,))
    lm = np.abs(np.reshape(est.mean_bs_l_means, l_means.shape) - l_means) / (np.sqrt(l_vars / n[:, None] / n_sub) + 1e-12)
    ctx.check(np.all(lm < 8), "bootstrap-level-means", lambda: where + (lm,))
    ctx.close(np.ravel(est.mean_bs_mean)[0], 1.0, "zero-moment-mean", where)
    ctx.close(np.ravel(est.var_bs_mean)[0], 0.0, "zero-moment-variance", where, atol=1e-12)
    ctx.event("bootstrap_estimates", n_sub)
    ctx.state(case.kind, tuple(vec), r)


STATISTICS = [("mean", "mean"), ("var", "var"), ("l_means", "l_means"), ("l_vars", "l_vars")]


@scenario("C15", quick=12, thorough=120)
def bootstrap_statistics(ctx, rng):
    """Bootstrap statistics are averages and unbiased variances of the single estimates, few repetitions of them"""
    n_levels = gen.n_levels(rng, 1, 4)
    fmt = gen.simple_format(1)
    data = [gen.random_data(rng, 1, int(rng.integers(5, 60)), l) for l in range(n_levels)]
    case = quant.Case(ctx, rng, fmt=fmt, n_levels=n_levels, data=data)
    q = make_root_quantity(case.storage, fmt)["q"][1.0]['0'][0, 0]
    own, other = Legendre(int(rng.integers(2, 5)), (-20, 20)), Monomial(int(rng.integers(2, 6)), (-30, 25))
    est = Estimate(q, case.storage, own)
    # The estimates the object makes are observed at the function that makes them
    import mlmc.quantity.quantity_estimate as qe
    real, seen = qe.estimate_mean, []

    def recorded(quantity):
        result = real(quantity)
        seen.append(result)
        return result
    vec = [int(rng.integers(2, v.shape[1] + 1)) for v in case.raw]
    n_sub = int(rng.integers(2, 9))
    given = other if rng.integers(2) else None
    qe.estimate_mean = recorded
    try:
        est.est_bootstrap(n_subsamples=n_sub, sample_vector=vec, moments_fn=given)
    finally:
        qe.estimate_mean = real
    where = (case.kind, vec, n_sub, "other functions" if given is not None else "own functions")
    size = (given or own).size
    ctx.equal(np.size(est.mean_bs_mean), size, "bootstrap-functions", where)
    if len(seen) == n_sub:
        # Estimates made another way are covered by the other scenarios
        for name, attribute in STATISTICS:
            values = np.array([np.asarray(getattr(s, attribute), dtype=float) for s in seen])
            ctx.close(np.ravel(getattr(est, "mean_bs_" + name)), np.ravel(values.mean(axis=0)), "average-" + name, where, rtol=1e-9, atol=1e-12)
            ctx.close(np.ravel(getattr(est, "var_bs_" + name)), np.ravel(values.var(axis=0, ddof=1)), "variance-" + name, where, rtol=1e-7, atol=1e-12)
        ctx.event("recorded_estimates", n_sub)
    ctx.event("bootstrap_estimates", n_sub)
    ctx.state(case.kind, tuple(vec), n_sub, given is None)


@scenario("C15", quick=10, thorough=100)
def bootstrap_exact(ctx, rng):
    """Constant levels: all bootstrap statistics are known exactly"""
    n_levels = int(rng.integers(1, 4))
    fine, coarse = rng.uniform(-3, 3, n_levels), rng.uniform(-3, 3, n_levels)
    data = [np.tile(np.array([[fine[l]], [coarse[l] if l else 0.0]]), (int(rng.integers(5, 300)), 1, 1)) for l in range(n_levels)]
    case = quant.Case(ctx, rng, fmt=gen.simple_format(1), n_levels=n_levels, data=data)
    q = make_root_quantity(case.storage, case.root_fmt)["q"][1.0]['0'][0, 0]
    fn = Monomial(4, (-4, 4))
    est = Estimate(q, case.storage, fn)
    est.est_bootstrap(n_subsamples=5, sample_vector=[int(rng.integers(2, len(d) + 1)) for d in data])
    f, c = fn.eval_all(fine), fn.eval_all(coarse)
    l_means = np.array([f[l] - (c[l] if l else 0) for l in range(n_levels)])
    ctx.close(np.ravel(est.mean_bs_mean), l_means.sum(axis=0), "exact-mean", rtol=1e-7, atol=1e-9)
    ctx.close(np.reshape(est.mean_bs_l_means, l_means.shape), l_means, "exact-level-means", rtol=1e-7, atol=1e-9)
    for name in ("mean_bs_var", "mean_bs_l_vars", "var_bs_mean", "var_bs_var", "var_bs_l_means", "var_bs_l_vars"):
        ctx.close(np.max(np.abs(getattr(est, name))), 0.0, "exact-" + name, atol=1e-9)
    ctx.event("bootstrap_estimates", 5)
    ctx.state(case.kind, n_levels, tuple(len(d) for d in data))
