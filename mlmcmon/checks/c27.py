"""C27: estimated domain of moments"""
import numpy as np
from mlmc.quantity.quantity import make_root_quantity
from mlmc.estimator import Estimate, estimate_domain
from mlmcmon.core import scenario
from mlmcmon import gen, quant
from mlmcmon.checks.c12 import leaves

RULE = """Random data of several levels with different ranges on the levels, several chunks, NaN values, quantities and their functions,
and quantiles; the domain is compared with the smallest lower and largest upper quantile of the fine values of the levels
obtained by sorting, and the share of fine values inside it with the quantile. A state is a distinct (structure, numbers of
samples, quantile, level giving the ends)."""


def quantile_of(values, p):
    s = np.sort(values)
    h = p * (len(s) - 1)
    i = int(np.floor(h))
    return s[i] if i + 1 >= len(s) or h == i else s[i] + (h - i) * (s[i + 1] - s[i])


@scenario("C27", quick=500, thorough=6000)
def domain(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 5)
    fmt = gen.random_format(rng, 12)
    size = gen.fmt_size(fmt)
    data = []
    p = float(rng.choice([0.0, 0.001, 0.01, 0.05, 0.2, 0.4]))
    inf = p >= 0.05 and rng.random() < 0.3
    for l in range(n_levels):
        n = int(rng.integers(1, 60)) if rng.random() < 0.85 else int(rng.integers(400, 1500))
        d = gen.random_data(rng, size, n, l, nan_prob=float(rng.choice([0, 0.15])))
        d = d * 10 ** rng.uniform(-1, 1.5) + rng.normal() * float(rng.choice([0, 1, 30]))
        if l:
            # Coarse values do not matter
            d[:, 1] = d[:, 1] * float(rng.choice([1, 20])) + float(rng.choice([0, 1000, -1000]))
        else:
            d[:, 1] = 0
        if n == 1:
            d = np.nan_to_num(d, nan=0.5)
        if inf and n > 40:
            # Infinite values outside of the prescribed share
            rows = rng.permutation(n)[:int(rng.integers(1, max(2, int(n * p / 2))))]
            d[rows, 0] = np.inf * float(rng.choice([-1, 1]))
        data.append(d)
    case = quant.Case(ctx, rng, fmt=fmt, data=data, n_levels=n_levels)
    root = make_root_quantity(case.storage, fmt)
    kind, parts = leaves(rng, case, root)
    q, s = parts[int(rng.integers(len(parts)))]
    values = [v[s] for v in case.raw]
    fn = int(rng.integers(3))
    if fn == 1:
        q, values = 3 * q - 1, [3 * v - 1 for v in values]
    elif fn == 2:
        q, values = np.arctan(q), [np.arctan(v) for v in values]
    where = (case.kind, kind, [v.shape[1] for v in values], p)
    fine = [v[:, :, 0].ravel() for v in values]
    fine = [f[~np.isnan(f)] for f in fine]
    if any(len(f) == 0 for f in fine):
        ctx.event("level without values")
        return
    how = int(rng.integers(3))
    if how == 0:
        got = estimate_domain(q, case.storage, quantile=p)
    elif how == 1:
        got = Estimate.estimate_domain(q, case.storage, p)
    else:
        got = Estimate(q, case.storage).estimate_domain(q, case.storage, quantile=p)
    lower, upper = [quantile_of(f, p) for f in fine], [quantile_of(f, 1 - p) for f in fine]
    if not np.all(np.isfinite(lower + upper)):
        ctx.event("infinite bound")
        return
    scale = max(np.max(np.abs(f[np.isfinite(f)]), initial=1e-30) for f in fine)
    ctx.event("infinite values", int(sum(np.sum(np.isinf(f)) for f in fine)))
    ctx.equal(len(got), 2, "bounds", where)
    ctx.close(got, [min(lower), max(upper)], "domain", where, rtol=1e-9, atol=1e-10 * scale)
    for f in fine:
        inside = np.mean((f >= got[0] - 1e-9 * scale) & (f <= got[1] + 1e-9 * scale))
        ctx.check(inside >= 1 - 2 * p - 2.0 / len(f), "share-inside", lambda: "{} {}".format(where, inside))
    ctx.state(kind, case.kind, tuple(len(f) for f in fine), p, int(np.argmin(lower)), int(np.argmax(upper)))
    ctx.event("domains")
    ctx.note((where, [float(x) for x in got]))
