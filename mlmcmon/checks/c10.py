"""C10: MLMC estimate of the mean"""
import numpy as np
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean
from mlmcmon.core import scenario
from mlmcmon import gen, quant

RULE = """Random storages (memory, and files of one to many chunks), formats, level sizes, NaN patterns and quantities (root, its
parts, nonlinear functions of them); the estimate is compared with the telescoping sum computed directly from the raw
data. Metamorphic cases permute and re-batch samples and move data between storages. A state is a distinct
(storage, quantity, used and removed numbers of samples)."""


def random_quantity(rng, case, root):
    """:return: (name, quantity, f(raw values [M, n, k]))"""
    q = case.fmt[int(rng.integers(len(case.fmt)))]
    t = q.times[int(rng.integers(len(q.times)))]
    loc = q.locations[int(rng.integers(len(q.locations)))]
    kind = str(rng.choice(["root", "named", "time", "location", "square", "ratio", "const", "ufunc"]))
    part, _ = case.offset(q.name, t, loc)
    if kind == "root":
        return kind, root, lambda v: v
    if kind == "named":
        part, _ = case.offset(q.name)
        return kind, root[q.name], lambda v: v[part]
    if kind == "time":
        part, _ = case.offset(q.name, t)
        return kind, root[q.name][t], lambda v: v[part]
    leaf = root[q.name][t][loc]
    if kind == "location":
        return kind, leaf, lambda v: v[part]
    if kind == "square":
        return kind, leaf * leaf, lambda v: v[part] ** 2
    if kind == "ratio":
        return kind, leaf / (leaf * leaf + 1.0), lambda v: v[part] / (v[part] ** 2 + 1)
    if kind == "const":
        return kind, 3 - 2 * leaf, lambda v: 3 - 2 * v[part]
    return kind, np.exp(-1 * leaf * leaf), lambda v: np.exp(-v[part] ** 2)


def check_mean(ctx, est, values, where):
    ref = quant.ref_estimate(values)
    tol = 1e-10 * quant.scale_of(values)
    ctx.equal([int(x) for x in est.n_samples], ref["n"], "n-samples", where)
    ctx.equal([int(x) for x in est.n_rm_samples], ref["n_rm"], "n-removed", where)
    ctx.close(np.ravel(est.mean), ref["mean"], "mean", where, rtol=1e-8, atol=tol)
    ctx.close(np.reshape(est.l_means, ref["l_means"].shape), ref["l_means"], "level-means", where, rtol=1e-8, atol=tol)
    return ref


@scenario("C10", quick=160, thorough=2000)
def reference(ctx, rng):
    big = rng.random() < 0.3
    case = quant.Case(ctx, rng, n_range=(300, 1500) if big else (1, 50), nan_prob=float(rng.choice([0, 0, 0.2])),
                      scale=float(10 ** rng.uniform(-3, 3)))
    # At least one valid sample on each level
    if any(not quant.valid(v).any() for v in case.raw):
        case = quant.Case(ctx, rng, kind=case.kind, name="other.hdf5", n_range=(1, 50))
    root = make_root_quantity(case.storage, case.root_fmt)
    for _ in range(3):
        name, q, f = random_quantity(rng, case, root)
        values = [f(v) for v in case.raw]
        if any(not quant.valid(v).any() for v in values):
            continue
        est = estimate_mean(q)
        ref = check_mean(ctx, est, values, (case.kind, name))
        ctx.event("estimates")
        ctx.event("samples_removed", sum(ref["n_rm"]))
        ctx.state(case.kind, name, tuple(ref["n"]), tuple(ref["n_rm"]))
        if name in ("named", "const"):
            ctx.note("{} {} n {} removed {} mean {}".format(case.kind, name, ref["n"], ref["n_rm"], np.ravel(est.mean)[:4]))
    n_chunks = len(list(case.storage.chunks()))
    ctx.event("chunks", n_chunks)


@scenario("C10", quick=40, thorough=400)
def invariance(ctx, rng):
    """Order of samples, batches and type of storage do not change the estimate; result is linear"""
    case = quant.Case(ctx, rng, kind="memory", n_range=(2, 800), nan_prob=0.1)
    if any(not quant.valid(v).any() for v in case.raw):
        case = quant.Case(ctx, rng, kind="memory", n_range=(2, 800))
    perm = [d[rng.permutation(len(d))] for d in case.data]
    other = quant.Case(ctx, rng, kind="hdf", fmt=case.fmt, n_levels=case.n_levels, data=perm)
    a = estimate_mean(make_root_quantity(case.storage, case.root_fmt))
    b = estimate_mean(make_root_quantity(other.storage, case.fmt))
    tol = 1e-10 * quant.scale_of(case.raw)
    ctx.close(a.mean, b.mean, "order-dependent", case.n_levels, rtol=1e-8, atol=tol)
    ctx.equal(list(a.n_samples), list(b.n_samples), "order-dependent-n")
    c = estimate_mean(2.5 * make_root_quantity(case.storage, case.root_fmt) - 1)
    ctx.close(c.mean, 2.5 * a.mean - (1.0), "linearity", rtol=1e-8, atol=10 * tol + 1e-9)
    ctx.state(case.n_levels, tuple(a.n_samples), case.size)


@scenario("C10", quick=40, thorough=400)
def nan_patterns(ctx, rng):
    """Systematic NaN positions: fine or coarse, any component, also whole chunks"""
    n_levels = gen.n_levels(rng, 1, 4)
    fmt = gen.random_format(rng, 12)
    size = gen.fmt_size(fmt)
    data = [gen.random_data(rng, size, int(rng.integers(3, 700)), l) for l in range(n_levels)]
    for level, d in enumerate(data):
        where = str(rng.choice(["fine", "coarse", "both", "first_half", "all_but_one", "none"]))
        idx = rng.choice(len(d), max(1, len(d) // 4), replace=False)
        if where == "fine":
            d[idx, 0, rng.integers(size, size=len(idx))] = np.nan
        elif where == "coarse" and level > 0:
            d[idx, 1, rng.integers(size, size=len(idx))] = np.nan
        elif where == "both":
            d[idx, 0] = np.nan
            if level > 0:
                d[idx, 1] = np.nan
        elif where == "first_half":
            d[:len(d) // 2 + 1, 0, int(rng.integers(size))] = np.nan
        elif where == "all_but_one":
            keep = int(rng.integers(len(d)))
            d[np.arange(len(d)) != keep, 0, 0] = np.nan
        ctx.state(level, where, len(d))
    case = quant.Case(ctx, rng, fmt=fmt, n_levels=n_levels, data=data)
    est = estimate_mean(make_root_quantity(case.storage, fmt))
    ref = check_mean(ctx, est, case.raw, (case.kind, "nan"))
    ctx.equal([int(a + b) for a, b in zip(est.n_samples, est.n_rm_samples)], [len(d) for d in data], "used-plus-removed")


@scenario("C10", quick=16, thorough=160)
def infinite_values(ctx, rng):
    """Infinite values are values: just NaN means a missing one"""
    n_levels = gen.n_levels(rng, 1, 4)
    fmt = gen.random_format(rng, 12)
    size = gen.fmt_size(fmt)
    data = [gen.random_data(rng, size, int(rng.integers(3, 300)), l) for l in range(n_levels)]
    for level, d in enumerate(data):
        idx = rng.choice(len(d), max(1, len(d) // 5), replace=False)
        part = int(rng.integers(2)) if level > 0 else 0
        what = str(rng.choice(["none", "inf", "-inf", "both"]))
        if what != "none":
            d[idx, part, int(rng.integers(size))] = dict([("inf", np.inf), ("-inf", -np.inf)]).get(what, np.inf)
        if what == "both":
            d[idx[:1], part] = np.nan
    case = quant.Case(ctx, rng, fmt=fmt, n_levels=n_levels, data=data)
    with np.errstate(all="ignore"):
        est = estimate_mean(make_root_quantity(case.storage, fmt))
        ref = quant.ref_estimate(case.raw)
        ctx.equal([int(x) for x in est.n_samples], ref["n"], "infinite-n-samples", case.kind)
        ctx.equal([int(x) for x in est.n_rm_samples], ref["n_rm"], "infinite-n-removed", case.kind)
        ctx.close(np.ravel(est.mean), ref["mean"], "infinite-mean", case.kind, rtol=1e-8, atol=1e-8)
    ctx.event("estimates")
    ctx.state(n_levels, tuple(ref["n"]), tuple(ref["n_rm"]))
