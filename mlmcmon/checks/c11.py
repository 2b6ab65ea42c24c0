"""C11: variances of the estimate"""
import numpy as np
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean
from mlmcmon.core import scenario
from mlmcmon import gen, quant
from mlmcmon.checks.c10 import random_quantity

RULE = """Random storages, formats, level sizes including single samples, NaN patterns and quantities; level variances and the
variance of the estimate are compared with the unbiased sample variance of the raw differences. Replicated data sets
check that the estimator variance is what an ensemble of estimates shows. A state is a distinct (storage, quantity,
numbers of samples)."""


@scenario("C11", quick=160, thorough=2000)
def reference(ctx, rng):
    big = rng.random() < 0.3
    case = quant.Case(ctx, rng, n_range=(300, 1500) if big else (1, 12), nan_prob=float(rng.choice([0, 0, 0.2])),
                      scale=float(10 ** rng.uniform(-2, 3)))
    if any(not quant.valid(v).any() for v in case.raw):
        case = quant.Case(ctx, rng, kind=case.kind, name="other.hdf5", n_range=(1, 50))
    root = make_root_quantity(case.storage, case.root_fmt)
    for _ in range(3):
        name, q, f = random_quantity(rng, case, root)
        values = [f(v) for v in case.raw]
        if any(not quant.valid(v).any() for v in values):
            continue
        ref = quant.ref_estimate(values)
        est = estimate_mean(q)
        tol = 1e-11 * quant.scale_of(values) ** 2
        l_vars = np.reshape(est.l_vars, ref["l_vars"].shape)
        ctx.close(l_vars, ref["l_vars"], "level-variances", (case.kind, name, ref["n"]), rtol=1e-6, atol=tol)
        ctx.close(np.ravel(est.var), ref["var"], "estimator-variance", (case.kind, name, ref["n"]), rtol=1e-6, atol=tol)
        for level, n in enumerate(ref["n"]):
            if n == 1:
                ctx.check(np.all(np.isinf(l_vars[level])), "single-sample-variance", l_vars[level])
                ctx.check(np.all(np.isinf(np.ravel(est.var))), "single-sample-estimator-variance", est.var)
                ctx.event("single_sample_levels")
        ctx.check(np.all(l_vars >= -tol), "negative-variance", l_vars)
        ctx.event("estimates")
        ctx.state(case.kind, name, tuple(ref["n"]), tuple(ref["n_rm"]))
        if name in ("root", "const"):
            ctx.note("{} {} n {} var {}".format(case.kind, name, ref["n"], np.ravel(est.var)[:4]))


@scenario("C11", quick=40, thorough=400)
def scaling(ctx, rng):
    """Variance of a*Q + b is a^2 var Q; replicating the data k times keeps the level variance up to n - 1 correction"""
    case = quant.Case(ctx, rng, kind="memory", n_range=(2, 60))
    k, a, b = int(rng.integers(2, 5)), float(rng.uniform(-5, 5)), float(rng.uniform(-5, 5))
    root = make_root_quantity(case.storage, case.root_fmt)
    est = estimate_mean(root)
    lin = estimate_mean(root * a + b)
    # Constant shift cancels out on all levels but the zero one, where it does not change the variance
    ctx.close(lin.var, a * a * est.var, "variance-scaling", rtol=1e-6, atol=1e-9)
    rep = quant.Case(ctx, rng, kind="hdf", fmt=case.fmt, n_levels=case.n_levels, data=[np.concatenate([d] * k) for d in case.data])
    many = estimate_mean(make_root_quantity(rep.storage, case.fmt))
    n = np.array(est.n_samples)
    factor = ((n - 1) * k / (n * k - 1)).reshape((-1,) + (1,) * (np.ndim(est.l_vars) - 1))
    ctx.close(many.l_vars, est.l_vars * factor, "variance-replicated", rtol=1e-6, atol=1e-9)
    ctx.state(case.n_levels, k, tuple(n))


@scenario("C11", quick=12, thorough=100)
def ensemble(ctx, rng):
    """Estimated variance agrees with the spread of independent estimates (very loose statistical limits)"""
    n_levels = gen.n_levels(rng, 1, 4)
    fmt = gen.simple_format(1)
    n = [int(x) for x in rng.integers(20, 80, n_levels)]
    means, variances = [], []
    for i in range(80):
        data = [gen.random_data(np.random.default_rng(int(rng.integers(2 ** 31))), 1, n[l], l) for l in range(n_levels)]
        for l, d in enumerate(data):
            # Remove the random shift of data, keep pairs correlated
            x = rng.normal(size=n[l])
            d[:, 0, 0] = x
            d[:, 1, 0] = 0.0 if l == 0 else x + 0.3 * rng.normal(size=n[l])
        case = quant.Case(ctx, rng, kind="memory", fmt=fmt, n_levels=n_levels, data=data)
        est = estimate_mean(make_root_quantity(case.storage, fmt))
        means.append(float(np.ravel(est.mean)[0]))
        variances.append(float(np.ravel(est.var)[0]))
    ratio = np.var(means, ddof=1) / np.mean(variances)
    # chi2 with 79 dof / 79: P(outside) < 1e-9
    ctx.check(0.3 < ratio < 2.4, "variance-vs-spread", ratio)
    ctx.event("estimates", 80)
    ctx.state(n_levels, tuple(n))


@scenario("C11", quick=60, thorough=600)
def far_from_zero(ctx, rng):
    """Values whose spread is small against their size: constant ones have variance zero, others a variance correct in the precision of the data"""
    n_levels = gen.n_levels(rng, 1, 4)
    n = [int(x) for x in rng.integers(2, 400 if rng.integers(2) else 20, n_levels)]
    offset = float(rng.choice([-1, 1]) * 10 ** rng.uniform(0, 7))
    constant = bool(rng.integers(2))
    m = int(rng.integers(1, 4))
    data = []
    for l in range(n_levels):
        d = np.zeros((n[l], 2, m))
        spread = 0.0 if constant else float(10 ** rng.uniform(-2, 1))
        d[:, 0] = offset + spread * rng.normal(size=(n[l], m))
        # The difference of the levels is far from zero as well
        d[:, 1] = 0.0 if l == 0 else 0.3 * d[:, 0] + rng.normal() * (not constant)
        data.append(d)
    case = quant.Case(ctx, rng, fmt=gen.simple_format(m), n_levels=n_levels, data=data)
    est = estimate_mean(make_root_quantity(case.storage, case.root_fmt))
    ref = quant.ref_estimate(case.raw)
    l_vars = np.reshape(est.l_vars, ref["l_vars"].shape)
    where = (case.kind, n, offset, constant)
    ctx.check(np.all(l_vars >= 0) and np.all(np.ravel(est.var) >= 0), "negative-variance", lambda: "{} {}".format(where, l_vars))
    if constant:
        ctx.close(l_vars, np.zeros(l_vars.shape), "constant-variance", where, rtol=0, atol=(1e-13 * offset) ** 2)
    else:
        ctx.close(l_vars, ref["l_vars"], "level-variances", where, rtol=1e-4, atol=1e-9)
        ctx.close(np.ravel(est.var), ref["var"], "estimator-variance", where, rtol=1e-4, atol=1e-9)
    ctx.close(np.ravel(est.mean), ref["mean"], "mean", where, rtol=1e-9, atol=1e-12)
    ctx.event("estimates")
    ctx.state(case.kind, tuple(n), constant)
