"""C17: quantities of moments and covariances"""
import numpy as np
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moment, moments, covariance
from mlmc.moments import Monomial, Fourier, Legendre, TransformedMoments
from mlmc.estimator import Estimate
from mlmcmon.core import scenario
from mlmcmon import gen, quant
from mlmcmon.checks.c12 import leaves
from mlmcmon.checks.c16 import ref_transform, ref_values, DEFAULT_REF, random_matrix

RULE = """Random quantities (root, parts, scalar elements), data with values outside the domain and NaN, moment functions of all families
and their linear combinations; samples and estimates of moment, moments and covariance quantities in both layouts are
compared with functions evaluated by independent formulas on the raw data. A state is a distinct
(quantity, functions, layout, numbers of used samples)."""


def setup(ctx, rng, scalar=False, n_range=(2, 40), max_r=7):
    case = quant.Case(ctx, rng, n_range=n_range if rng.random() < 0.85 else (300, 900), nan_prob=float(rng.choice([0, 0.1])),
                      fmt=gen.random_format(rng, 12))
    root = make_root_quantity(case.storage, case.root_fmt)
    kind, parts = leaves(rng, case, root)
    while scalar and kind != "element":
        kind, parts = leaves(rng, case, root)
    q, s = parts[int(rng.integers(len(parts)))]
    values = [v[s] for v in case.raw]
    every = np.concatenate([v.ravel() for v in values])
    every = every[~np.isnan(every)]
    if rng.random() < 0.5:
        lo, hi = every.min() - 0.1, every.max() + 0.1
    else:
        lo, hi = np.quantile(every, [0.05, 0.95])
        hi = max(hi, lo + 0.1)
    # No sample is at the very end of the domain
    domain = (float(lo) + 1e-7, float(hi) + 1e-7)
    family = [Monomial, Fourier, Legendre][int(rng.integers(3))]
    r = int(rng.integers(1 if family is not Fourier else 2, max_r))
    fn = family(r, domain)
    mat = np.eye(r)
    if rng.random() < 0.3 and family is not Fourier:
        mat = random_matrix(rng, r, r)
        fn = TransformedMoments(fn, mat)

    def ref_fn(x):
        # Independent of the implementation; values outside the domain are masked
        t = ref_transform(domain, DEFAULT_REF[family], False, x)
        out = ref_values(family, t, r) @ mat.T
        out[~((x >= domain[0]) & (x <= domain[1]))] = np.nan
        return out
    return case, kind, q, values, fn, ref_fn, r, (case.kind, kind, family.__name__, r, domain)


def fix_const(a, ref):
    """The constant function may be 1 also for masked values"""
    a = np.array(a, dtype=float)
    if a.shape == ref.shape:
        a[np.isnan(ref) & (a == 1)] = np.nan
    return a


def compare_estimate(ctx, est, values, r_const, key, where):
    if any(not quant.valid(v).any() for v in values):
        return False
    ref = quant.ref_estimate(values)
    ctx.equal([int(x) for x in est.n_samples], ref["n"], key + "-n", where)
    ctx.equal([int(x) for x in est.n_rm_samples], ref["n_rm"], key + "-removed", where)
    scale = quant.scale_of(values)
    ctx.close(np.ravel(est.mean), ref["mean"], key + "-mean", where, rtol=1e-7, atol=1e-9 * max(1, scale))
    ctx.close(np.reshape(est.l_vars, ref["l_vars"].shape), ref["l_vars"], key + "-level-vars", where, rtol=1e-5,
              atol=1e-8 * max(1, scale ** 2))
    return True


@scenario("C17", quick=120, thorough=1500)
def moment_quantities(ctx, rng):
    case, kind, q, values, fn, ref_fn, r, where = setup(ctx, rng)
    ref = [ref_fn(v) for v in values]  # [M, n, k, R]
    bottom = [np.transpose(v, (0, 3, 1, 2)).reshape((-1,) + v.shape[1:3]) for v in ref]
    top = [np.transpose(v, (3, 0, 1, 2)).reshape((-1,) + v.shape[1:3]) for v in ref]
    i = int(rng.integers(r))
    single = [v[..., i] for v in ref]
    M = values[0].shape[0]
    for name, quantity, want, size in (("bottom", moments(q, fn), bottom, M * r), ("bottom", moments(q, fn, mom_at_bottom=True), bottom, M * r),
                                       ("top", moments(q, fn, mom_at_bottom=False), top, M * r), ("single", moment(q, fn, i), single, M)):
        ctx.equal(int(quantity.size()), size, name + "-size", where)
        for l in rng.permutation(case.n_levels):
            got = quant.samples(case.storage, quantity, int(l))
            tol = 1e-8 * max(1, np.nanmax(np.abs(want[l])) if not np.all(np.isnan(want[l])) else 1)
            ctx.close(fix_const(got, want[l]), want[l], name + "-samples", where + ("level", int(l)), rtol=1e-6, atol=tol)
            ctx.event("values", got.size)
        if r > 1 and not (name == "single" and i == 0):
            if all(quant.valid(v).any() for v in want):
                if compare_estimate(ctx, estimate_mean(quantity), want, None, name, where):
                    ctx.event("estimates")
    ctx.state(*where[:4], tuple(v.shape[1] for v in values), i)
    ctx.note(where)


@scenario("C17", quick=80, thorough=1000)
def covariance_quantities(ctx, rng):
    case, kind, q, values, fn, ref_fn, r, where = setup(ctx, rng, max_r=5)
    r = max(r, 1)
    ref = [ref_fn(v) for v in values]
    cov = [np.einsum("...i,...j->...ij", v, v) for v in ref]  # [M, n, k, R, R]
    bottom = [np.transpose(c, (0, 3, 4, 1, 2)).reshape((-1,) + c.shape[1:3]) for c in cov]
    top = [np.transpose(c, (3, 4, 0, 1, 2)).reshape((-1,) + c.shape[1:3]) for c in cov]
    M = values[0].shape[0]
    for name, quantity, want in (("cov-bottom", covariance(q, fn), bottom), ("cov-top", covariance(q, fn, cov_at_bottom=False), top)):
        ctx.equal(int(quantity.size()), M * r * r, name + "-size", where)
        for l in rng.permutation(case.n_levels):
            got = quant.samples(case.storage, quantity, int(l))
            tol = 1e-8 * max(1, np.nanmax(np.abs(want[l])) if not np.all(np.isnan(want[l])) else 1)
            ctx.close(fix_const(got, want[l]), want[l], name + "-samples", where + ("level", int(l)), rtol=1e-6, atol=tol)
            ctx.event("values", got.size)
        if r > 1 and all(quant.valid(v).any() for v in want):
            est = estimate_mean(quantity)
            compare_estimate(ctx, est, want, None, name, where)
            mat = np.ravel(est.mean)
            mat = mat.reshape((M, r, r)) if name == "cov-bottom" else np.transpose(mat.reshape((r, r, M)), (2, 0, 1))
            ctx.close(mat, np.transpose(mat, (0, 2, 1)), "cov-symmetric", where, rtol=1e-9, atol=1e-9)
            ctx.event("estimates")
    ctx.state(*where[:4], tuple(v.shape[1] for v in values))


@scenario("C17", quick=80, thorough=1000)
def estimator(ctx, rng):
    """Estimates of moments and covariance of a scalar quantity by the estimator"""
    case, kind, q, values, fn, ref_fn, r, where = setup(ctx, rng, scalar=True, n_range=(20, 80))
    ref = [ref_fn(v)[0] for v in values]  # [n, k, R]
    mom = [np.transpose(v, (2, 0, 1)) for v in ref]
    if r < 2 or any(quant.valid(v).sum() < 2 for v in mom):
        ctx.state("small", r)
        return
    want = quant.ref_estimate(mom)
    scale = max(1, quant.scale_of(mom))
    with_fn = bool(rng.integers(2))
    est = Estimate(q, case.storage, fn if with_fn else Monomial(2, (0, 1)))
    arg = None if with_fn else fn
    mean, var = est.estimate_moments(arg)
    ctx.close(np.ravel(mean), want["mean"], "estimate-moments", where, rtol=1e-7, atol=1e-9 * scale)
    ctx.close(np.ravel(var), want["var"], "estimate-moments-var", where, rtol=1e-5, atol=1e-8 * scale ** 2)
    ctx.close(np.ravel(mean)[0], 1.0, "first-moment", where)
    cov = [np.einsum("nki,nkj->ijnk", v, v) for v in ref]
    wcov = quant.ref_estimate([c.reshape((r * r,) + c.shape[2:]) for c in cov])
    cmean, cvar = est.estimate_covariance(arg)
    ctx.close(cmean, wcov["mean"].reshape((r, r)), "estimate-covariance", where, rtol=1e-7, atol=1e-9 * scale ** 2)
    ctx.close(cvar, wcov["var"].reshape((r, r)), "estimate-covariance-var", where, rtol=1e-5, atol=1e-8 * scale ** 4)
    # Covariance with the constant function are the moments
    ctx.close(cmean[0], np.ravel(mean), "covariance-first-row", where, rtol=1e-8, atol=1e-9 * scale)
    l_vars, n = est.estimate_diff_vars(arg)
    ctx.close(l_vars, want["l_vars"], "diff-vars", where, rtol=1e-5, atol=1e-8 * scale ** 2)
    ctx.equal([int(x) for x in n], want["n"], "diff-vars-n", where)
    ctx.event("estimates", 3)
    ctx.state(*where[:4], tuple(want["n"]))
