"""C31: statistical tests of means and variances"""
import contextlib
import io
import numpy as np
import scipy.special as special
from mlmc.tool import stats_tests
from mlmcmon.core import scenario

RULE = """Random samples of several distributions, sizes, scales and shifts from the tested value are given to the statistical tests; the
answer is compared with the p value of the independently evaluated statistic, and the rate of refusals of right samples over many
repetitions with the given probability. A state is a distinct (test, size, level of significance, answer)."""


def p_of_t(samples, mu):
    n = len(samples)
    t = (np.mean(samples) - mu) / (np.std(samples, ddof=1) / np.sqrt(n))
    return float(special.betainc((n - 1) / 2, 0.5, (n - 1) / (n - 1 + t * t)))


def p_of_chi2(samples, var):
    n = len(samples)
    stat = np.sum((samples - np.mean(samples)) ** 2) / var
    low = float(special.gammainc((n - 1) / 2, stat / 2))
    high = float(special.gammaincc((n - 1) / 2, stat / 2))
    return 2 * min(low, high)


def p_of_f(groups):
    k, n = len(groups), sum(len(g) for g in groups)
    mean = np.sum([np.sum(g) for g in groups]) / n
    between = sum(len(g) * (np.mean(g) - mean) ** 2 for g in groups) / (k - 1)
    within = sum(np.sum((g - np.mean(g)) ** 2) for g in groups) / (n - k)
    f = between / within
    return float(special.betainc((n - k) / 2, (k - 1) / 2, (n - k) / (n - k + (k - 1) * f)))


def accepted(fn, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            result = fn(*args, **kwargs)
        except AssertionError:
            return False
    return True if result is None else bool(result)


def data(rng, n, scale):
    kind = int(rng.integers(3))
    x = rng.normal(size=n) if kind == 0 else (rng.exponential(size=n) - 1 if kind == 1 else rng.uniform(-1, 1, n) * np.sqrt(3))
    return x * scale


@scenario("C31", quick=400, thorough=5000)
def single(ctx, rng):
    n = int(rng.integers(3, 200))
    scale = float(10 ** rng.uniform(-3, 3))
    mean = float(rng.normal() * scale * 10 ** rng.uniform(-1, 1))
    p_max = float(rng.choice([0.001, 0.01, 0.05, 0.2]))
    samples = data(rng, n, scale) + mean
    before = samples.copy()
    mu = mean + float(rng.normal() * rng.choice([0, 1, 2, 4])) * scale / np.sqrt(n)
    given = list(samples) if rng.random() < 0.3 else samples
    for p, default in ((p_max, False), (0.01, True)):
        expected = p_of_t(samples, mu)
        kwargs = {} if default else dict(max_p_val=p)
        if abs(expected - p) > 1e-9:
            got = accepted(stats_tests.t_test, mu, given, **kwargs)
            ctx.equal(got, expected > p, "t-test", (n, scale, p, expected))
            ctx.state("t", n, p, got)
        var = float(scale ** 2 * np.exp(rng.normal() * rng.choice([0.1, 1]) * np.sqrt(2 / n) * 2))
        expected = p_of_chi2(samples, var)
        if abs(expected - p) > 1e-9:
            got = accepted(stats_tests.chi2_test, var, given, **kwargs)
            ctx.equal(got, expected > p, "chi2-test", (n, scale, p, expected))
            ctx.state("chi2", n, p, got)
    groups = [data(rng, int(rng.integers(3, 60)), scale) + mean for _ in range(int(rng.integers(2, 6)))]
    if rng.integers(2):
        groups[int(rng.integers(len(groups)))] += scale * rng.normal()
    expected = p_of_f(groups)
    if abs(expected - 0.05) > 1e-9:
        got = accepted(stats_tests.anova, groups)
        ctx.equal(got, expected > 0.05, "anova", (len(groups), scale, expected))
        ctx.state("anova", len(groups), got)
    ctx.check(np.array_equal(samples, before), "samples-changed", n)
    ctx.event("tests", 5)


@scenario("C31", quick=10, thorough=60)
def rates(ctx, rng):
    """Right samples are refused with the given probability"""
    n, p, repeats = int(rng.integers(5, 60)), float(rng.choice([0.05, 0.1, 0.2])), 1000
    mean, dev = float(rng.normal() * 5), float(10 ** rng.uniform(-1, 1))
    refused = np.zeros(2)
    found = np.zeros(2)
    for _ in range(repeats):
        samples = mean + dev * rng.normal(size=n)
        refused += [not accepted(stats_tests.t_test, mean, samples, max_p_val=p), not accepted(stats_tests.chi2_test, dev ** 2, samples, max_p_val=p)]
        found += [not accepted(stats_tests.t_test, mean + 10 * dev, samples, max_p_val=p),
                  not accepted(stats_tests.chi2_test, dev ** 2 * 1000, samples, max_p_val=p)]
    bound = 6 * np.sqrt(p * (1 - p) / repeats)
    for name, r, f in zip(("t-test", "chi2-test"), refused / repeats, found / repeats):
        ctx.check(abs(r - p) < bound, name + "-rate", (n, p, r))
        ctx.check(f > 0.9, name + "-power", (n, p, f))
    ctx.state("rate", n, p)
    ctx.event("repeats", repeats)
