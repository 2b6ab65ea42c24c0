"""C13: structure of results: access by name, time, location and index, interpolation in time, composed quantities"""
import numpy as np
from mlmc.quantity.quantity import make_root_quantity, Quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments
from mlmc.moments import Monomial, Legendre
from mlmcmon.core import scenario
from mlmcmon import gen, quant

RULE = """Random result formats (differing shapes, times, named or coordinate locations), random access paths and index keys
(integers, negative, slices, tuples), composed quantities (arrays, dictionaries, time series, fields, nested) and times of
interpolation; samples of the accessed quantity are compared with the corresponding entries of the raw results and the item of
an estimate with the estimate of the item. A state is a distinct (access path, key, format)."""


def random_key(rng, shape):
    """Index of an array: int, slice, tuple of them"""
    def one(n):
        kind = int(rng.integers(4))
        if kind == 0:
            return int(rng.integers(n))
        if kind == 1:
            return -int(rng.integers(1, n + 1))
        a = int(rng.integers(n))
        b = int(rng.integers(a + 1, n + 1))
        if kind == 2:
            return slice(a, b)
        return slice(None, None, int(rng.choice([1, 2]))) if rng.integers(2) else slice(a, None)
    if len(shape) == 1 or rng.random() < 0.3:
        return one(shape[0])
    return tuple(one(n) for n in shape)


def flat_key(shape, key):
    """Flat indices selected by key"""
    return np.ravel(np.arange(int(np.prod(shape))).reshape(shape)[key])


def compare(ctx, case, q, select, key, where):
    """Samples of q are select(raw)"""
    for level in range(case.n_levels):
        v = select(case.raw[level])
        ctx.same(quant.samples(case.storage, q, level), v, key, where)
        ctx.event("values", v.size)
    ctx.equal(int(q.size()), select(case.raw[0]).shape[0], key + "-size", where)


def compare_mean(ctx, mean, values, key, where):
    ref = quant.ref_estimate(values)
    tol = 1e-10 * quant.scale_of(values)
    with np.errstate(all="ignore"):
        ctx.close(np.ravel(mean.mean), ref["mean"], key + "-mean", where, rtol=1e-8, atol=tol)
        ctx.close(np.reshape(mean.l_means, ref["l_means"].shape), ref["l_means"], key + "-level-means", where, rtol=1e-8, atol=tol)
        ctx.close(np.reshape(mean.l_vars, ref["l_vars"].shape), ref["l_vars"], key + "-level-vars", where, rtol=1e-6,
                  atol=tol * quant.scale_of(values))
        ctx.close(np.ravel(mean.var), ref["var"], key + "-var", where, rtol=1e-6, atol=tol * quant.scale_of(values))
    ctx.equal([int(n) for n in mean.n_samples], ref["n"], key + "-n", where)
    ctx.equal([int(n) for n in mean.n_rm_samples], ref["n_rm"], key + "-n-removed", where)


@scenario("C13", quick=80, thorough=1000)
def access(ctx, rng):
    case = quant.Case(ctx, rng, n_range=(1, 20) if rng.random() < 0.9 else (400, 900), fmt=gen.random_format(rng, 60))
    root = make_root_quantity(case.storage, case.root_fmt)
    mean = estimate_mean(root)
    # Linear function keeps the structure
    scaled = 3 * root if rng.integers(2) else root * 3
    for q in case.fmt:
        s, _ = case.offset(q.name)
        compare(ctx, case, root[q.name], lambda v: v[s], "by-name", q.name)
        compare_mean(ctx, mean[q.name], [v[s] for v in case.raw], "by-name", q.name)
        for t in q.times:
            st, _ = case.offset(q.name, t)
            compare(ctx, case, root[q.name][t], lambda v: v[st], "by-time", (q.name, t))
            for loc in q.locations:
                sl, _ = case.offset(q.name, t, loc)
                leaf = root[q.name][t][loc]
                where = (case.kind, q.name, t, loc, q.shape)
                compare(ctx, case, leaf, lambda v: v[sl], "by-location", where)
                ctx.equal(np.shape(estimate_mean(leaf).mean), q.shape, "shape", where)
                leaf_mean = mean[q.name][t][loc]
                compare_mean(ctx, leaf_mean, [v[sl] for v in case.raw], "by-location", where)
                ctx.equal(np.shape(leaf_mean.mean), q.shape, "mean-shape", where)
                for _ in range(2):
                    key = random_key(rng, q.shape)
                    flat = flat_key(q.shape, key)
                    where2 = where + (key,)
                    compare(ctx, case, leaf[key], lambda v: v[sl][flat], "by-index", where2)
                    compare(ctx, case, scaled[q.name][t][loc][key], lambda v: 3 * v[sl][flat], "by-index-scaled", where2)
                    compare_mean(ctx, leaf_mean[key], [v[sl][flat] for v in case.raw], "by-index", where2)
                    compare_mean(ctx, estimate_mean(leaf[key]), [v[sl][flat] for v in case.raw], "estimate-by-index", where2)
                    shape = np.empty(q.shape)[key].shape
                    if len(flat) > 1 or len(shape) > 1:
                        ctx.equal(np.shape(leaf_mean[key].mean), shape, "index-shape", where2)
                        ctx.equal(np.shape(estimate_mean(leaf[key]).mean), shape, "index-shape", where2)
                        # Index into the part
                        key2 = random_key(rng, shape)
                        flat2 = flat[flat_key(shape, key2)]
                        compare(ctx, case, leaf[key][key2], lambda v: v[sl][flat2], "by-two-indices", where2 + (key2,))
                        compare_mean(ctx, leaf_mean[key][key2], [v[sl][flat2] for v in case.raw], "by-two-indices", where2 + (key2,))
                    ctx.state(q.shape, str(key), len(q.times), len(q.locations), case.kind)
    q = case.fmt[0]
    for bad in (lambda: root["no such name"], lambda: root[q.name][-123.5], lambda: root[q.name][q.times[0]]["nowhere"],
                lambda: mean["no such name"], lambda: root[q.name][q.times[0]][q.locations[0]][q.shape[0] + 1]):
        ctx.raises(bad, "missing-key", case.fmt)
        ctx.event("refused")
    ctx.note("{} {}".format(case.kind, [(q.name, q.shape, q.times, q.locations) for q in case.fmt]))


@scenario("C13", quick=30, thorough=300)
def items_of_mean(ctx, rng):
    """Items of an estimate are based on the samples of the whole quantity, some of them removed"""
    case = quant.Case(ctx, rng, n_range=(12, 60), nan_prob=0.15)
    root = make_root_quantity(case.storage, case.root_fmt)
    mean = estimate_mean(root)
    ok = [quant.valid(v) for v in case.raw]
    removed = [int(np.sum(~m)) for m in ok]
    kept = [v[:, m] for v, m in zip(case.raw, ok)]

    def item(m, s, where):
        ctx.equal([int(n) for n in m.n_rm_samples], removed, "removed", where)
        ref = quant.ref_estimate([v[s] for v in kept])
        ctx.equal([int(n) for n in m.n_samples], ref["n"], "kept", where)
        with np.errstate(all="ignore"):
            tol = 1e-10 * quant.scale_of(kept)
            ctx.close(np.ravel(m.mean), ref["mean"], "mean", where, rtol=1e-8, atol=tol)
            ctx.close(np.ravel(m.var), ref["var"], "var", where, rtol=1e-6, atol=tol * quant.scale_of(kept))
        ctx.event("items")
    for q in case.fmt:
        item(mean[q.name], case.offset(q.name)[0], q.name)
        t, loc = q.times[int(rng.integers(len(q.times)))], q.locations[int(rng.integers(len(q.locations)))]
        item(mean[q.name][t], case.offset(q.name, t)[0], (q.name, t))
        s = case.offset(q.name, t, loc)[0]
        item(mean[q.name][t][loc], s, (q.name, t, loc))
        key = random_key(rng, q.shape)
        item(mean[q.name][t][loc][key], s.start + flat_key(q.shape, key), (q.name, t, loc, key))
        ctx.state(q.shape, str(key), tuple(removed), case.kind)


@scenario("C13", quick=60, thorough=800)
def composed(ctx, rng):
    case = quant.Case(ctx, rng, n_range=(2, 25))
    root = make_root_quantity(case.storage, case.root_fmt)
    q = case.fmt[int(rng.integers(len(case.fmt)))]
    parts = []
    for t in q.times:
        for loc in q.locations:
            s, _ = case.offset(q.name, t, loc)
            parts.append((root[q.name][t][loc], np.arange(s.start, s.stop)))
    scalar = bool(rng.integers(2))
    if scalar:
        key = (int(rng.integers(q.shape[0])), int(rng.integers(q.shape[1])))
        k = key[0] * q.shape[1] + key[1]
        parts = [(p[key], idx[k:k + 1]) for p, idx in parts]
    chosen = [parts[int(i)] for i in rng.integers(len(parts), size=int(rng.integers(1, 5)))]
    inner_shape = () if scalar else q.shape
    kind = str(rng.choice(["array", "array2", "dict", "times", "field"]))
    where = (kind, scalar, q.shape, len(chosen))
    all_idx = np.concatenate([i for _, i in chosen])
    # Names in any order
    names = ["{}{}".format(str(rng.choice(["k", "B", "z", "a", " "])), int(i)) for i in rng.permutation(20)[:len(chosen)]]
    if kind == "field" and rng.integers(2):
        names = [(float(rng.integers(-5, 5)), float(i), 0.5) for i in rng.permutation(20)[:len(chosen)]]
    if kind == "array":
        c = Quantity.QArray([p for p, _ in chosen])
        shape = (len(chosen),)
        table = np.array([i for _, i in chosen])
    elif kind == "array2":
        chosen = [parts[int(i)] for i in rng.integers(len(parts), size=4)]
        all_idx = np.concatenate([i for _, i in chosen])
        c = Quantity.QArray([[chosen[0][0], chosen[1][0]], [chosen[2][0], chosen[3][0]]])
        shape = (2, 2)
        table = np.array([i for _, i in chosen]).reshape((2, 2, -1))
    elif kind == "dict":
        c = Quantity.QDict([(name, p) for name, (p, _) in zip(names, chosen)])
    elif kind == "times":
        times = np.cumsum(rng.uniform(0.1, 2, len(chosen)))
        if rng.random() < 0.3:
            times = rng.permutation(times)
        c = Quantity.QTimeSeries([(t, p) for t, (p, _) in zip(times, chosen)])
    else:
        c = Quantity.QField([(name, p) for name, (p, _) in zip(names, chosen)])
    compare(ctx, case, c, lambda v: v[all_idx], "composed", where)
    mean = estimate_mean(c)
    compare_mean(ctx, mean, [v[all_idx] for v in case.raw], "composed", where)
    if kind in ("array", "array2"):
        for _ in range(3):
            key = random_key(rng, shape)
            idx = np.ravel(table[key])
            compare(ctx, case, c[key], lambda v: v[idx], "array-item", where + (key,))
            compare_mean(ctx, estimate_mean(c[key]), [v[idx] for v in case.raw], "array-item", where + (key,))
            compare_mean(ctx, mean[key], [v[idx] for v in case.raw], "mean-array-item", where + (key,))
            sub = np.empty(shape)[key].shape
            if sub == () and not scalar:
                # Item has the structure of the original
                inner = random_key(rng, inner_shape)
                fi = idx[flat_key(inner_shape, inner)]
                compare(ctx, case, c[key][inner], lambda v: v[fi], "array-item-index", where + (key, inner))
            ctx.state(kind, scalar, q.shape, str(key))
    else:
        for i, (p, idx) in enumerate(chosen):
            key = times[i] if kind == "times" else names[i]
            compare(ctx, case, c[key], lambda v: v[idx], "item", where + (key,))
            compare_mean(ctx, mean[key], [v[idx] for v in case.raw], "mean-item", where + (key,))
            if not scalar:
                inner = random_key(rng, inner_shape)
                fi = idx[flat_key(inner_shape, inner)]
                compare(ctx, case, c[key][inner], lambda v: v[fi], "item-index", where + (key, inner))
            ctx.state(kind, scalar, q.shape, i)
    if kind == "times":
        for at in [times[0], times[-1], *rng.uniform(min(times), max(times), 2)]:
            interp = c.time_interpolation(at)
            for level in range(case.n_levels):
                nodes = np.array([case.raw[level][idx] for _, idx in chosen])
                ctx.close(quant.samples(case.storage, interp, level), interpolate(times, nodes, at), "interpolation", where + (at,),
                          rtol=1e-8, atol=1e-10)
            ctx.event("interpolations")


def interpolate(times, nodes, at):
    """Piecewise linear; nodes [T, M, n, k]"""
    order = np.argsort(times)
    times, nodes = np.asarray(times)[order], np.asarray(nodes)[order]
    if len(times) == 1:
        return nodes[0]
    i = min(max(int(np.searchsorted(times, at, side="right")) - 1, 0), len(times) - 2)
    w = (at - times[i]) / (times[i + 1] - times[i])
    return (1 - w) * nodes[i] + w * nodes[i + 1]


@scenario("C13", quick=40, thorough=500)
def time_interpolation(ctx, rng):
    """Interpolation of the stored results in time and access to the structure of the interpolated quantity"""
    single = rng.random() < 0.15
    while True:
        fmt = gen.random_format(rng, 60)
        named = [q for q in fmt if (len(q.times) > 1) != single]
        if named:
            break
    case = quant.Case(ctx, rng, fmt=fmt, n_range=(1, 30))
    root = make_root_quantity(case.storage, case.root_fmt)
    q = named[int(rng.integers(len(named)))]
    times = np.array(q.times, dtype=float)
    size = int(np.prod(q.shape))
    for at in [float(rng.choice(times)), *[float(x) for x in rng.uniform(min(times), max(times), 3)]]:
        interp = root[q.name].time_interpolation(at)
        li = int(rng.integers(len(q.locations)))
        key = random_key(rng, q.shape)
        values = []
        for level in range(case.n_levels):
            nodes = np.array([case.raw[level][case.offset(q.name, t)[0]] for t in q.times])
            values.append(interpolate(times, nodes, at))
        where = (q.name, q.times, at)
        for level, v in enumerate(values):
            ctx.close(quant.samples(case.storage, interp, level), v, "stored-interpolation", where, rtol=1e-8, atol=1e-10)
            loc = v[li * size:(li + 1) * size]
            ctx.close(quant.samples(case.storage, interp[q.locations[li]], level), loc, "interpolated-location", where,
                      rtol=1e-8, atol=1e-10)
            ctx.close(quant.samples(case.storage, interp[q.locations[li]][key], level), loc[flat_key(q.shape, key)],
                      "interpolated-index", where + (key,), rtol=1e-8, atol=1e-10)
            ctx.event("values", v.size)
        est = estimate_mean(interp)
        ctx.close(np.ravel(est.mean), quant.ref_estimate(values)["mean"], "interpolation-mean", where, rtol=1e-7, atol=1e-9)
        ctx.state(len(q.times), len(q.locations), q.shape, str(key), case.kind)
    # There are no values out of the range of times
    for at in (min(times) - 0.01, max(times) + 0.01):
        ctx.raises(lambda: estimate_mean(root[q.name].time_interpolation(at)), "extrapolation", (q.name, q.times, at))


@scenario("C13", quick=20, thorough=200)
def function_structure(ctx, rng):
    """A function of a part is the part of the function for structure preserving operations (moments included)"""
    case = quant.Case(ctx, rng, n_range=(2, 25))
    root = make_root_quantity(case.storage, case.root_fmt)
    q = case.fmt[int(rng.integers(len(case.fmt)))]
    t, loc = q.times[int(rng.integers(len(q.times)))], q.locations[int(rng.integers(len(q.locations)))]
    key = (int(rng.integers(q.shape[0])), int(rng.integers(q.shape[1])))
    fn = Legendre(int(rng.integers(1, 5)), (-5, 5), safe_eval=False)
    r = fn.size
    bottom = moments(root, fn, mom_at_bottom=True)
    top = moments(root, fn, mom_at_bottom=False)
    leaf = moments(root[q.name][t][loc][key], fn)
    i = int(rng.integers(r))
    for level in range(case.n_levels):
        a = quant.samples(case.storage, leaf, level)
        ctx.close(quant.samples(case.storage, bottom[q.name][t][loc][key], level), a, "moments-at-bottom", (q.name, t, loc, key))
        ctx.close(quant.samples(case.storage, bottom[q.name][t][loc][key][i], level), a[i:i + 1], "moment-item", i)
        ctx.close(quant.samples(case.storage, top[i][q.name][t][loc][key], level), a[i:i + 1], "moments-on-top", (i, q.name, t, loc, key))
        ctx.event("values", 3 * a.size)
    m = estimate_mean(bottom)[q.name][t][loc][key]
    ctx.close(np.ravel(m.mean), np.ravel(estimate_mean(leaf).mean), "moments-mean", rtol=1e-7, atol=1e-9)
    ctx.state(r, q.shape, key, case.kind, len(q.times), len(q.locations))
