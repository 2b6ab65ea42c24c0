"""C23: orthogonal moment functions"""
import numpy as np
from mlmc.moments import Monomial, Fourier, Legendre
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments, covariance
from mlmc.tool.simple_distribution import construct_ortogonal_moments
from mlmcmon.core import scenario
from mlmcmon import gen, quant
from mlmcmon.checks.c16 import ref_transform, ref_values, DEFAULT_REF

RULE = """Covariances of random measures and of stored multilevel samples, of all families of moment functions, with thresholds given and
detected; the constructed functions are evaluated independently and their mean and covariance with respect to the same
measure or samples is compared with the first unit vector and with the identity matrix, their number with the number of
eigenvalues above the threshold. A state is a distinct (family, size, threshold, number of functions kept)."""


def check_functions(ctx, fns, info, cov, r, tol, where, detected=False):
    evals, threshold, mat = np.asarray(info[0]), int(info[1]), np.asarray(info[2])
    m = np.eye(r)
    m[:, 0] = -cov[:, 0]
    ref_evals = np.linalg.eigvalsh(m @ cov @ m.T)
    ctx.close(evals, ref_evals, "eigenvalues", where, rtol=1e-6, atol=1e-9)
    ctx.equal(int(fns.size), r - threshold, "size", where)
    ctx.equal(mat.shape, (r - threshold, r), "matrix-shape", where)
    if not detected:
        ctx.check(np.all(ref_evals[threshold:] > tol * (1 - 1e-6) - 1e-12), "kept-below-threshold", lambda: "{} {}".format(where, ref_evals))
        ctx.check(np.all(ref_evals[:threshold] <= tol * (1 + 1e-6) + 1e-12), "cut-above-threshold", lambda: "{} {}".format(where, ref_evals))
    kept = ref_evals[threshold:]
    ctx.check(np.all(kept > 0), "not-positive", where)
    acc = 1e-9 + 1e-13 / kept.min() * r
    k = r - threshold
    ctx.close(mat @ cov @ mat.T, np.eye(k), "not-orthonormal", where, rtol=0, atol=acc * 100)
    mean = np.zeros(k)
    mean[0] = 1.0
    ctx.close(mat @ cov[:, 0], mean, "mean", where, rtol=0, atol=acc * 100)
    # The first function is one
    e0 = np.zeros(r)
    e0[0] = 1.0
    ctx.close(mat[0], e0, "constant", where, rtol=0, atol=1e-5 + acc * 100)
    ctx.state(*where, k)
    ctx.event("functions", k)
    return mat


@scenario("C23", quick=1200, thorough=3000)
def measure(ctx, rng):
    """Covariance with respect to a discrete measure"""
    family = [Monomial, Fourier, Legendre][int(rng.integers(3))]
    r = int(rng.integers(2, 14))
    domain = (float(rng.normal()), 0)
    domain = (domain[0], domain[0] + float(10 ** rng.uniform(-1, 1)))
    n = int(rng.integers(2, 200))
    x = domain[0] + rng.beta(*rng.uniform(0.5, 3, 2), n) * (domain[1] - domain[0])
    w = rng.random(n) + 0.1
    w /= w.sum()
    fn = family(r, domain)

    def values(t):
        return ref_values(family, ref_transform(domain, DEFAULT_REF[family], False, t), r)
    phi = values(x)
    cov = (phi * w[:, None]).T @ phi
    copy = cov.copy()
    tol = float(10 ** rng.uniform(-7, -1))
    where = (family.__name__, r, "%.1g" % tol)
    fns, info = construct_ortogonal_moments(fn, cov, tol=tol)
    ctx.same(cov, copy, "covariance-changed", where)
    mat = check_functions(ctx, fns, info, cov, r, tol, where)
    y = rng.uniform(*domain, 9)
    ctx.close(fns.eval_all(y), values(y) @ mat.T, "evaluation", where, rtol=1e-6, atol=1e-7 * (1 + np.abs(mat).max()))
    ctx.equal(tuple(fns.domain), tuple(domain), "domain", where)
    # Covariance of the new functions in the same measure
    new = np.asarray(fns.eval_all(x))
    acc = 1e-7 + 1e-10 / tol
    ctx.close((new * w[:, None]).T @ new, np.eye(fns.size), "covariance", where, rtol=0, atol=acc)
    ctx.note("{} kept {}".format(where, fns.size))


@scenario("C23", quick=200, thorough=600)
def detected(ctx, rng):
    """The threshold is detected in the spectrum"""
    r = int(rng.integers(10, 30))
    domain = (-2.0, 2.0)
    n = int(rng.integers(500, 2000))
    x = np.clip(rng.normal(0, 0.5, n), *domain)
    phi = ref_values(Legendre, ref_transform(domain, (-1, 1), False, x), r)
    cov = phi.T @ phi / n
    noise = rng.normal(size=cov.shape) * 10 ** rng.uniform(-9, -5)
    noise[:, 0] = noise[0, :] = 0
    cov = cov + noise + noise.T
    fns, info = construct_ortogonal_moments(Legendre(r, domain), cov)
    where = (r,)
    # Positive eigenvalues only
    check_functions(ctx, fns, info, cov, r, None, where, detected=True)


@scenario("C23", quick=200, thorough=600)
def stored_samples(ctx, rng):
    """Estimates from the multilevel samples"""
    data = [gen.random_data(rng, 1, int(rng.integers(30, 400)), l, nan_prob=float(rng.choice([0, 0.05]))) for l in range(int(rng.integers(1, 4)))]
    case = quant.Case(ctx, rng, fmt=gen.simple_format(1), data=data, n_levels=len(data))
    q = make_root_quantity(case.storage, case.root_fmt)['q'][1.0]['0'][0, 0]
    every = np.concatenate([v.ravel() for v in case.raw])
    lo, hi = np.nanquantile(every, [0.03, 0.97]) if rng.random() < 0.5 else (np.nanmin(every) - 0.01, np.nanmax(every) + 0.01)
    domain = (float(lo) + 1e-7, float(hi) + 2e-7)
    family = [Monomial, Fourier, Legendre][int(rng.integers(3))]
    r = int(rng.integers(2, 9))
    tol = float(10 ** rng.uniform(-4, -2))
    fn = family(r, domain)
    cov = estimate_mean(covariance(q, fn)).mean
    where = (family.__name__, r, case.n_levels, "%.1g" % tol)

    def values(t):
        v = ref_values(family, ref_transform(domain, DEFAULT_REF[family], False, t), r)
        v[~((t >= domain[0]) & (t <= domain[1]))] = np.nan
        return v

    def pairs(v):
        p = values(v[0])     # [n, k, r]
        c = p[..., :, None] * p[..., None, :]
        return c.reshape(c.shape[0], c.shape[1], -1).transpose(2, 0, 1)
    ref = quant.ref_estimate([pairs(v) for v in case.raw])["mean"].reshape(r, r)
    ctx.close(cov, ref, "covariance-estimate", where, rtol=1e-7, atol=1e-9)
    fns, info = construct_ortogonal_moments(fn, np.array(cov), tol=tol)
    check_functions(ctx, fns, info, ref, r, tol, where)
    new_cov = estimate_mean(covariance(q, fns)).mean
    mean = estimate_mean(moments(q, fns)).mean
    ctx.close(new_cov, np.eye(fns.size), "estimated-covariance", where, rtol=0, atol=1e-6)
    ctx.close(mean, np.eye(fns.size)[0], "estimated-mean", where, rtol=0, atol=1e-6)
