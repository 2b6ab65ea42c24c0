"""C18: numbers of samples for a target variance"""
import numpy as np
from mlmc.estimator import Estimate, estimate_n_samples_for_target_variance
from mlmc.quantity.quantity import make_root_quantity
from mlmc.moments import Legendre, Monomial
from mlmcmon.core import scenario
from mlmcmon import gen, quant

RULE = """Random level variances (decaying, growing, zero, of very different sizes among moments), costs and target variances over many
orders; the returned numbers are checked against the variance they give, the optimal cost (Lagrange multipliers), bounds,
invariances and monotonicity. Variance regression is compared with an independent least squares fit and with data that satisfy
the model exactly. A state is a distinct (number of levels, moments, profile, decade of the target)."""


def random_problem(rng):
    L, R = int(rng.integers(1, 8)), int(rng.integers(2, 9))
    profile = str(rng.choice(["decay", "grow", "random"]))
    l = np.arange(L)
    base = 10 ** rng.uniform(-4, 2, R)
    if profile == "decay":
        var = base[None] * np.exp(-l[:, None] * rng.uniform(0.3, 3))
    elif profile == "grow":
        var = base[None] * np.exp(l[:, None] * rng.uniform(0.1, 1))
    else:
        var = base[None] * 10 ** rng.uniform(-3, 3, (L, R))
    var[:, 0] = 0
    if rng.random() < 0.2:
        var[int(rng.integers(L)), int(rng.integers(R))] = 0
    n_ops = np.exp(l * rng.uniform(0, 2)) * 10 ** rng.uniform(-3, 3) if rng.integers(2) else 10 ** rng.uniform(-2, 3, L)
    target = float(np.max(var) * 10 ** (rng.uniform(-5, 0) if rng.random() < 0.85 else rng.uniform(-11, -7))) or 1e-3
    return L, R, profile, var, n_ops, target


def reference(var, n_ops, target):
    """Optimal numbers (real), L x R"""
    root = np.sqrt(var * n_ops[:, None])
    return np.sqrt(var / n_ops[:, None]) * root.sum(axis=0) / target


@scenario("C18", quick=400, thorough=6000)
def optimal(ctx, rng):
    L, R, profile, var, n_ops, target = random_problem(rng)
    v0, c0 = var.copy(), n_ops.copy()
    n = np.asarray(estimate_n_samples_for_target_variance(target, var, n_ops, n_levels=L))
    where = dict(var=var.tolist(), n_ops=n_ops.tolist(), target=target)
    ctx.same(var, v0, "argument-changed")
    ctx.same(n_ops, c0, "argument-changed")
    ctx.equal(n.shape, (L,), "shape", where)
    ctx.check(np.all(n == np.round(n)) and np.all(n >= 2), "at-least-two", lambda: (n, where))
    ref = reference(var, n_ops, target)
    cap = var * L / target
    want = np.max(np.maximum(np.minimum(np.round(ref), cap), 2), axis=1)
    ctx.check(np.all(np.abs(n - want) <= 1 + 1e-9 * want), "optimal-numbers", lambda: (n, want, where))
    # Variance of the estimate of each moment; a level is never asked for less than one half of what the optimum needs
    got = np.sum(var / n[:, None], axis=0)
    ctx.check(np.all(got <= 2 * target * 1.5), "variance-not-reached", lambda: (got, target, where))
    # Without the cap the target is reached up to rounding
    big = np.all((ref <= cap) | (var == 0), axis=0) & np.all((ref > 50) | (var == 0), axis=0)
    ctx.check(np.all(got[big] <= target * 1.05), "target-variance", lambda: (got, target, big, where))
    # No level gets more than the moment that needs the most of it
    ctx.check(np.all(n <= np.maximum(np.max(ref, axis=1) + 1, 2)), "more-than-optimal", lambda: (n, ref, where))
    cost = float(np.sum(n * n_ops))
    bound = float(np.sum((np.maximum(np.max(ref, axis=1) + 1, 2)) * n_ops))
    ctx.check(cost <= bound * (1 + 1e-9), "cost", lambda: (cost, bound, where))
    # Units: costs and variances are relative
    f = float(2.0 ** rng.integers(-6, 7))
    ctx.check(np.all(np.abs(estimate_n_samples_for_target_variance(target, var, n_ops * f, L) - n) <= 1), "cost-units", where)
    ctx.check(np.all(np.abs(estimate_n_samples_for_target_variance(target * f, var * f, n_ops, L) - n) <= 1), "variance-units", where)
    # More accuracy does not need fewer samples
    more = estimate_n_samples_for_target_variance(target / rng.uniform(1, 10), var, n_ops, L)
    ctx.check(np.all(more >= n - 1), "monotone", lambda: (n, more, where))
    perm = rng.permutation(R)
    ctx.same(estimate_n_samples_for_target_variance(target, var[:, perm], n_ops, L), n, "order-of-moments", where)
    ctx.event("problems")
    ctx.event("capped_levels", int(np.sum(ref > cap)))
    ctx.state(L, R, profile, int(np.floor(np.log10(target))))
    ctx.note("L {} R {} {} target {:.3g} n {}".format(L, R, profile, target, n))


def make_storage(ctx, rng, L, steps, n, costs):
    fmt = gen.simple_format(1)
    base = [rng.normal(size=k) for k in n]
    data = []
    params, steps = steps, steps / (1 + 0.3 * steps)       # values in the domain of the functions
    for l in range(L):
        fine = base[l] + 0.3 * steps[l] * np.sin(3 * base[l])
        coarse = base[l] + 0.3 * steps[l - 1] * np.sin(3 * base[l]) if l else np.zeros(n[l])
        data.append(np.stack([fine, coarse], axis=1)[:, :, None])
    case = quant.Case.__new__(quant.Case)
    case.kind = str(rng.choice(["memory", "hdf"]))
    case.fmt, case.size, case.n_levels, case.data = fmt, 1, L, data
    case.storage = gen.fill(gen.new_storage(case.kind, ctx.scratch), rng, fmt, data, level_parameters=[[float(s)] for s in params])
    case.storage.save_n_ops([(l, (float(costs[l]) * n[l], n[l])) for l in range(L)])
    if case.kind == "hdf" and rng.random() < 0.3:
        case.storage = gen.new_storage(case.kind, ctx.scratch)
    case.root_fmt = case.storage.load_result_format() if rng.random() < 0.4 else fmt
    case.raw = [np.transpose(d[:, :1] if l == 0 else d, (2, 0, 1)) for l, d in enumerate(data)]
    return case


@scenario("C18", quick=60, thorough=600)
def regression(ctx, rng):
    L = int(rng.integers(1, 8))
    steps = np.sort(10 ** (rng.uniform(-3, 0.5, L) if rng.random() < 0.7 else rng.uniform(-6, 3, L)))[::-1]
    n = [int(x) for x in rng.integers(10, 40, L)]
    costs = 10 ** rng.uniform(-3, 2, L)
    case = make_storage(ctx, rng, L, steps, n, costs)
    q = make_root_quantity(case.storage, case.root_fmt)["q"][1.0]['0'][0, 0]
    R = int(rng.integers(2, 6))
    fn = Legendre(R, (-6, 6))
    est = Estimate(q, case.storage, fn)
    how = str(rng.choice(["model", "noise", "samples"]))
    kwargs = {}
    if how == "samples":
        raw, _ = est.estimate_diff_vars(fn)
        raw = np.array(raw)
        if rng.integers(2):
            kwargs["moments_fn"] = fn
    else:
        raw = np.zeros((L, R))
        x = np.log(steps)
        for m in range(1, R):
            a, b, c = rng.normal(), rng.uniform(0.5, 2), rng.uniform(-0.1, 0.1)
            raw[:, m] = np.exp(a + b * x + c * x ** 2 + (rng.normal(size=L) * 0.5 if how == "noise" else 0))
            raw[0, m] = 10 ** rng.uniform(-2, 2)
        kwargs["raw_vars"] = raw.copy()
    variances, n_ops = est.estimate_diff_vars_regression(n, **kwargs)
    where = (how, L, R, steps.tolist())
    ctx.close(np.asarray(n_ops, dtype=float), costs, "costs", where, rtol=1e-9)
    ctx.equal(np.shape(variances), (L, R), "shape", where)
    ctx.close(variances[0], raw[0], "level-0", where, rtol=1e-9, atol=1e-15)
    ctx.close(variances[:, 0], np.zeros(L), "constant-moment", where, atol=1e-10)
    ctx.check(np.all(variances[:, 1:] > 0), "positive", lambda: (variances, where))
    if L < 3 or how == "model":
        ctx.close(variances, raw, "model-reproduced", where, rtol=1e-5, atol=1e-14)
    elif L == 3:
        ctx.close(variances, raw, "interpolated", where, rtol=1e-5, atol=1e-14)
    else:
        x = np.log(steps[1:])
        for m in range(1, R):
            fit = np.polynomial.Polynomial.fit(x, np.log(raw[1:, m]), 2)
            ctx.close(np.log(variances[1:, m]), fit(x), "least-squares", where, rtol=1e-4, atol=1e-4)
    ctx.event("fits", R - 1)
    ctx.state(how, L, R, case.kind)
    # The chain: variances -> numbers of samples
    target = float(np.max(variances)) * 1e-2
    ns = estimate_n_samples_for_target_variance(target, variances, n_ops, n_levels=L)
    ctx.check(np.all(np.sum(variances / ns[:, None], axis=0) <= 3 * target), "chain-variance", lambda: (ns, variances, target))


@scenario("C18", quick=12, thorough=80, timeout=100)
def bootstrap_numbers(ctx, rng):
    """Numbers of samples estimated from bootstrap variances agree with those from the variances of all samples"""
    L = int(rng.integers(1, 4))
    steps = np.array([1.0, 0.3, 0.05])[:L]
    n = [int(x) for x in rng.integers(100, 200, L)]
    costs = 10.0 ** np.arange(L) * rng.uniform(0.5, 2)
    case = make_storage(ctx, rng, L, steps, n, costs)
    q = make_root_quantity(case.storage, case.root_fmt)["q"][1.0]['0'][0, 0]
    fn = Monomial(3, (-8, 8))
    est = Estimate(q, case.storage, fn)
    raw, _ = est.estimate_diff_vars(fn)
    target = float(np.max(raw[0])) / 1000
    want = estimate_n_samples_for_target_variance(target, np.array(raw), costs, L)
    got = est.bs_target_var_n_estimated(target, sample_vec=None if rng.integers(2) else n)
    ratio = np.asarray(got, dtype=float) / want
    ctx.equal(np.shape(got), (L,), "bs-shape")
    ctx.check(np.all((ratio > 0.4) & (ratio < 2.5) | (np.abs(got - want) <= 5)), "bootstrap-numbers", lambda: (got, want, n))
    ctx.event("bootstrap_estimates", 300)
    ctx.state(L, tuple(n), case.kind)
