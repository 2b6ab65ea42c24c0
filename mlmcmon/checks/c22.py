"""C22: reconstruction of the density from moments"""
import numpy as np
from mlmc.moments import Monomial, Fourier, Legendre, TransformedMoments
from mlmc.quantity.quantity import make_root_quantity
from mlmc.estimator import Estimate
from mlmc.tool import simple_distribution as sd
from mlmc.tool import distribution as legacy
from mlmcmon.core import scenario
from mlmcmon import gen, quant
from mlmcmon.checks.c16 import ref_transform, ref_values, DEFAULT_REF, random_matrix

RULE = """Moments of random densities of the exponential families, with random sizes, domains, weights of the moments and subdomains, and
moments estimated from stored samples of several levels are given to the reconstruction; the resulting density, its
integral, moments and distribution function are integrated by an independent composite Gauss rule and compared with the
prescribed moments, with the generating density and with the empirical distribution. A state is a distinct parametrisation."""

PT, W = np.polynomial.legendre.leggauss(30)


def rule(a, b, k=80):
    e = np.linspace(a, b, k + 1)
    h = (e[1:] - e[:-1])[:, None]
    return ((PT[None] + 1) / 2 * h + e[:-1, None]).ravel(), (W[None] * h / 2).ravel()


def functions(family, n, domain, mat=None):
    """Independent evaluation of the moment functions"""
    def fn(x):
        v = ref_values(family, ref_transform(domain, DEFAULT_REF[family], False, x), n)
        return v if mat is None else v @ mat.T
    return fn


def exponential_density(rng, fn, n, a, b, amplitude=1.2):
    """Density exp(polynomial) on (a, b)"""
    c = rng.normal(size=n) * amplitude / np.arange(1, n + 1)
    c[0] = 0.0
    x, w = rule(a, b)
    log = -fn(x) @ c
    shift = log.max()
    z = np.exp(log - shift) @ w
    return lambda y: np.exp(-fn(np.atleast_1d(y)) @ c - shift) / z


def check_density(ctx, rng, distr, domain, where):
    """Non-negative, integral one, distribution function"""
    a, b = domain
    x, w = rule(a, b)
    y = np.asarray(distr.density(x))
    ctx.equal(y.shape, x.shape, "density-shape", where)
    ctx.check(np.all(np.isfinite(y)) and np.all(y >= 0), "density-negative", where)
    ctx.close(y @ w, 1.0, "density-integral", where, rtol=1e-6)
    # Distribution function
    grid = np.linspace(a, b, 41)
    edges, ref = grid, np.zeros(41)
    for i in range(40):
        xi, wi = rule(grid[i], grid[i + 1], 2)
        ref[i + 1] = ref[i] + np.asarray(distr.density(xi)) @ wi
    outside = np.array([a - 1.0, b + 1.0, a - 1e-9 * (b - a), b + 1e-9 * (b - a)])
    # Close to the ends
    eps = (b - a) * 10 ** rng.uniform(-4, -2, 2)
    xl, wl = rule(a, a + eps[0], 2)
    xr, wr = rule(b - eps[1], b, 2)
    ends = [np.asarray(distr.density(xl)) @ wl, 1 - np.asarray(distr.density(xr)) @ wr]
    points = np.concatenate((edges, outside, [a + eps[0], b - eps[1]]))
    expected = np.concatenate((ref, [0, 1, 0, 1], ends))
    order = rng.permutation(len(points))
    got = np.asarray(distr.cdf(points[order]))
    ctx.close(got, expected[order], "cdf", where, rtol=0, atol=1e-5)
    inc = np.asarray(distr.cdf(points[np.argsort(points, kind="stable")]))
    ctx.check(np.all(np.diff(inc) >= -1e-9), "cdf-decreasing", where)
    if rng.random() < 0.2:
        # Values close to each other
        step = (b - a) * 10 ** rng.uniform(-8, -5)
        start = rng.uniform(a, b - 1500 * step)
        points = start + step * np.arange(1500)
        xi, wi = rule(start, points[-1], 2)
        x0, w0 = rule(a, start, 80)
        first = np.asarray(distr.cdf(points[:1]))
        ctx.close(first, [np.asarray(distr.density(x0)) @ w0], "cdf-one-value", where, rtol=0, atol=1e-4)
        got = np.asarray(distr.cdf(points))
        ctx.close(got[-1] - got[0], np.asarray(distr.density(xi)) @ wi, "cdf-close-values", where, rtol=1e-3, atol=1e-12)
        ctx.event("dense_cdf")
    ctx.event("densities")
    return x, w, y


@scenario("C22", quick=240, thorough=1500)
def exact_moments(ctx, rng):
    family = [Monomial, Fourier, Legendre][int(rng.integers(3))]
    n = int(rng.integers(2, 7 if family is Monomial else 11))
    a = float(rng.normal() * 10 ** rng.uniform(-1, 1.5))
    domain = (a, a + float(10 ** rng.uniform(-1, 1.5)))
    if rng.random() < 0.2:
        # Other units
        unit = 10 ** rng.uniform(-18, 10)
        domain = (domain[0] * unit, domain[1] * unit)
    mat, moments = None, family(n, domain)
    if rng.random() < 0.3 and family is Legendre:
        # Combinations of the functions with the constant kept the first one
        mat = np.eye(n)
        mat[1:] = random_matrix(rng, n, n)[1:]
        mat[1:] += 2 * np.eye(n)[1:]
        moments = TransformedMoments(moments, mat)
    fn = functions(family, n, domain, mat)
    sub = domain
    kwargs = {}
    if rng.random() < 0.25 and family is Legendre and mat is None:
        width = domain[1] - domain[0]
        sub = (domain[0] + rng.uniform(0, 0.2) * width, domain[1] - rng.uniform(0, 0.2) * width)
        kwargs["domain"] = sub
    # Densities that are too narrow for the number of iterations
    hard = rng.random() < 0.25
    density = exponential_density(rng, functions(family, n, domain), n, *sub, amplitude=10 ** rng.uniform(0.7, 2) if hard else 1.2)
    x, w = rule(*sub)
    mu = (density(x) * w) @ fn(x)
    unit = rng.random() < 0.6
    var = np.ones(n) if unit else 10 ** rng.uniform(-1.5, 0.5, n)
    if rng.random() < 0.3:
        kwargs["force_decay"] = (bool(rng.integers(2)), bool(rng.integers(2)))
    where = (family.__name__, n, domain, sub, "unit" if unit else "weighted", "combined" if mat is not None else "")
    data = np.stack((mu, var), axis=1)
    copy = data.copy()
    # The number of given moments may be lower than the size of the functions
    if rng.random() < 0.25 and mat is None:
        moments = family(n + int(rng.integers(1, 4)), domain)
    tol = float(10 ** rng.uniform(-9, -3))
    distr = sd.SimpleDistribution(moments, data, **kwargs)
    result = distr.estimate_density_minimize(tol)
    ctx.same(data, copy, "moments-changed", where)
    x, w, y = check_density(ctx, rng, distr, sub, where)
    ctx.event("converged" if result.success else "not converged")
    if unit and mat is None and not hard:
        # Rounding may stop the minimization a bit above the tolerance
        ctx.check(result.success or result.fun_norm < 1e-5, "not-converged", lambda: "{} {}".format(where, result.message))
    if result.success:
        res = ((y * w) @ fn(x) - mu) / np.sqrt(var)
        # Quadrature of the code is adapted to the last function only, other moments are then precise to about 1e-5
        ctx.check(np.linalg.norm(res) <= 10 * tol + 3e-5, "success-residual", lambda: "{} tol {} residual {}".format(where, tol, np.linalg.norm(res)))
    if result.fun_norm <= 1e-5:
        res = ((y * w) @ fn(x) - mu) / np.sqrt(var)
        # The density is scaled after the minimization
        ctx.close(res, np.zeros(n), "moments", (where, result.fun_norm), atol=20 * max(tol, result.fun_norm, 1e-9))
        if unit and family is not Monomial and mat is None and not hard and result.fun_norm <= 3e-7:
            ctx.close(y * (sub[1] - sub[0]), density(x) * (sub[1] - sub[0]), "density", where, rtol=2e-3, atol=2e-3)
    if rng.random() < 0.3:
        # Single values
        p = float(rng.uniform(*sub))
        ctx.close(np.ravel(distr.density(p)), [np.interp(p, x, y)], "density-scalar", where, rtol=1e-2, atol=1e-2 / (sub[1] - sub[0]))
        ctx.equal(float(np.ravel(distr.cdf(sub[0] - 1.0))[0]), 0.0, "cdf-scalar", where)
        ctx.equal(float(np.ravel(distr.cdf(sub[1] + 1.0))[0]), 1.0, "cdf-scalar", where)
    ctx.state(*where, bool(result.success))
    ctx.note("{} iterations {} residual {:.2g} integral {:.12g}".format(where, result.nit, result.fun_norm, y @ w))


@scenario("C22", quick=60, thorough=300)
def from_samples(ctx, rng):
    """Density of a quantity estimated from multilevel samples"""
    n_levels = int(rng.integers(1, 4))
    shape = str(rng.choice(["normal", "mixture", "beta", "exp"]))

    def draw(n):
        if shape == "normal":
            return rng.normal(2, 0.7, n)
        if shape == "mixture":
            return np.where(rng.random(n) < 0.4, rng.normal(-1, 0.5, n), rng.normal(1.5, 0.6, n))
        if shape == "beta":
            return rng.beta(2, 3, n) * 4
        return rng.exponential(1.0, n)
    counts = [int(rng.integers(2500, 5000)) // (1 if l == 0 else 4) for l in range(n_levels)]
    data = []
    for l in range(n_levels):
        fine = draw(counts[l])
        coarse = fine + 0.5 ** (l + 2) * 0.1 * rng.normal(size=counts[l])
        data.append(np.stack((fine, coarse if l else np.zeros_like(fine)), axis=1)[:, :, None])
    case = quant.Case(ctx, rng, fmt=gen.simple_format(1), data=data, n_levels=n_levels)
    root = make_root_quantity(case.storage, case.root_fmt)
    q = root['q'][1.0]['0'][0, 0]
    domain = Estimate.estimate_domain(q, case.storage, quantile=0.005)
    family = [Legendre, Monomial][int(rng.random() < 0.15)]
    r = int(rng.integers(5, 14)) if family is Legendre else int(rng.integers(4, 7))
    estimate = Estimate(quantity=q, sample_storage=case.storage, moments_fn=family(r, domain))
    tol = 1e-7
    distr, info, result, fns = estimate.construct_density(tol=tol, orth_moments_tol=float(10 ** rng.uniform(-5, -3)))
    where = (shape, n_levels, family.__name__, r, fns.size)
    x, w, y = check_density(ctx, rng, distr, domain, where)
    ctx.event("converged" if result.success else "not converged")
    # Moments of the density are the estimated ones; moments in a different basis
    if result.success:
        mat = np.asarray(info[2])
        fn = functions(family, r, domain)
        ref = quant.ref_estimate([np.stack([_masked(fn, v[0, :, k], domain) for k in range(v.shape[2])], axis=2)
                                  for v in case.raw])
        got = (y * w) @ (fn(x) @ mat.T)
        ctx.close(got, mat @ ref["mean"], "estimated-moments", where, rtol=1e-5, atol=1e-5)
        # Empirical distribution of the finest samples inside the domain
        s = np.sort(case.raw[-1][0, :, 0])
        s = s[(s > domain[0]) & (s < domain[1])]
        p = np.asarray(distr.cdf(s))
        ks = np.max(np.abs(p - (np.arange(len(s)) + 0.5) / len(s)))
        ctx.check(ks < (0.12 if fns.size >= 7 or (shape != "mixture" and fns.size >= 5) else 0.3), "empirical-distribution", lambda: "{} distance {}".format(where, ks))
        ctx.note("{} residual {:.2g} distance from the empirical distribution {:.3f}".format(where, result.fun_norm, ks))
    ctx.raises(lambda: Estimate(root['q'], case.storage, family(r, domain)).construct_density(), "non-scalar-density", where)
    ctx.state(*where, bool(result.success))


def _masked(fn, x, domain):
    v = fn(x)
    v[~((x >= domain[0]) & (x <= domain[1]))] = np.nan
    return v.T


@scenario("C22", quick=60, thorough=400)
def integrals(ctx, rng):
    """Moments, covariances and distances of given densities"""
    family = [Monomial, Fourier, Legendre][int(rng.integers(3))]
    n = int(rng.integers(2, 8)) if rng.random() < 0.8 else int(rng.integers(11, 14))
    if n > 8 and family is Monomial:
        n = 7
    a = float(rng.normal() * 3)
    domain = (a, a + float(10 ** rng.uniform(-0.5, 1)))
    moments = family(n, domain)
    fn = functions(family, n, domain)
    x, w = rule(*domain)
    base = functions(Legendre, 5, domain)
    p = exponential_density(rng, base, 5, *domain)
    q = exponential_density(rng, base, 5, *domain)
    where = (family.__name__, n, domain)

    def scalar(d):
        return lambda t: d(t)[0] if np.ndim(t) == 0 else d(t)
    mu = (p(x) * w) @ fn(x)
    cov = (fn(x) * (p(x) * w)[:, None]).T @ fn(x)
    tol = dict(rtol=1e-6, atol=1e-8)
    ctx.close(sd.compute_exact_moments(moments, scalar(p)), mu, "exact-moments", where, **tol)
    ctx.close(sd.compute_semiexact_moments(moments, scalar(p)), mu, "semiexact-moments", where, **tol)
    ctx.close(sd.compute_exact_cov(moments, scalar(p)), cov, "exact-cov", where, **tol)
    ctx.close(sd.compute_semiexact_cov(moments, scalar(p)), cov, "semiexact-cov", where, **tol)
    kl = (p(x) * np.log(p(x) / q(x)) - p(x) + q(x)) @ w
    ctx.close(sd.KL_divergence(scalar(p), scalar(q), *domain), max(kl, 1e-10), "divergence", where, **tol)
    ctx.check(sd.KL_divergence(scalar(p), scalar(p), *domain) <= 1e-8, "divergence-self", where)
    ctx.close(sd.L2_distance(scalar(p), scalar(q), *domain), np.sqrt((p(x) - q(x)) ** 2 @ w), "distance", where, rtol=1e-5, atol=1e-6)
    ctx.close(legacy.compute_exact_moments(moments, scalar(p)), mu, "legacy-moments", where, rtol=1e-4, atol=1e-3)
    ctx.close(legacy.KL_divergence(scalar(p), scalar(q), *domain), max((p(x) * np.log(p(x) / q(x))) @ w, 1e-10), "legacy-divergence", where, **tol)
    ctx.close(legacy.L2_distance(scalar(p), scalar(q), *domain), np.sqrt((p(x) - q(x)) ** 2 @ w), "legacy-distance", where, rtol=1e-5, atol=1e-6)
    # Distant densities, the divergence is large although one of them is almost zero where the other one is not
    s1, s2 = rng.uniform(0.5, 1, 2)
    c1, c2 = 0.0, float(rng.uniform(3, 12))

    def normal(c, s):
        return lambda t: np.exp(-0.5 * ((t - c) / s) ** 2) / s / np.sqrt(2 * np.pi)
    lo, hi = -9.0, 9.0 + c2
    far = np.log(s2 / s1) + (s1 ** 2 + (c1 - c2) ** 2) / (2 * s2 ** 2) - 0.5
    ctx.close(sd.KL_divergence(normal(c1, s1), normal(c2, s2), lo, hi), far, "divergence-distant", (s1, s2, c2), rtol=1e-3)
    # Densities with a narrow peak
    centre = domain[0] + rng.uniform(0.15, 0.85) * (domain[1] - domain[0])
    sigma = rng.uniform(0.02, 0.06) * (domain[1] - domain[0])
    part = rng.uniform(0.2, 0.8)

    def peak(t):
        t = np.atleast_1d(t)
        return part / (domain[1] - domain[0]) + (1 - part) * np.exp(-0.5 * ((t - centre) / sigma) ** 2) / sigma / np.sqrt(2 * np.pi)
    x, w = rule(*domain, 400)
    mu = (peak(x) * w) @ fn(x)
    cov = (fn(x) * (peak(x) * w)[:, None]).T @ fn(x)
    where = where + (centre, sigma)
    ctx.close(sd.compute_exact_moments(moments, scalar(peak)), mu, "exact-moments-peak", where, **tol)
    if family is not Monomial:
        # The quadrature is adapted to the last moment, high powers do not see the left part
        ctx.close(sd.compute_semiexact_moments(moments, scalar(peak)), mu, "semiexact-moments-peak", where, rtol=1e-4, atol=1e-4)
        ctx.close(sd.compute_semiexact_cov(moments, scalar(peak)), cov, "semiexact-cov-peak", where, rtol=1e-4, atol=1e-4)
    if n < 5:
        ctx.close(sd.compute_exact_cov(moments, scalar(peak)), cov, "exact-cov-peak", where, **tol)
    qx = peak(x)
    px = p(x)
    kl = (qx * np.log(qx / px) - qx + px) @ w
    ctx.close(sd.KL_divergence(scalar(peak), scalar(p), *domain), max(kl, 1e-10), "divergence-peak", where, **tol)
    ctx.close(sd.L2_distance(scalar(p), scalar(peak), *domain), np.sqrt((px - qx) ** 2 @ w), "distance-peak", where, rtol=1e-5, atol=1e-6)
    ctx.state(*where)
    ctx.event("integrals", 2 * (n * n + n))
