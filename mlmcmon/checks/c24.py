"""C24: random fields"""
import warnings
import numpy as np
import gstools
from mlmc.random import correlated_field as cf
from mlmcmon.core import scenario

warnings.simplefilter("ignore")

RULE = """Random fields of all implementations with random dimensions, points, correlation functions and lengths, anisotropy, means and
deviations (constant or in points), repeatedly moved to other points; factors of the covariance are compared with the matrix given
by the formula, large sets of realizations with the mean and covariance (tolerance more than 6 standard errors), sets of
dependent fields with the functions evaluated pointwise on elements of the regions, seeded fields with the same realization
evaluated in other sets of points. A state is a distinct parametrisation."""


def random_points(rng, dim, n):
    if rng.random() < 0.3 and dim == 2:
        k = max(2, int(np.sqrt(n)))
        x, y = np.meshgrid(np.linspace(0, 1, k), np.linspace(0, 1, k))
        return np.stack((x.ravel(), y.ravel()), axis=1) * 10 ** rng.uniform(-1, 1)
    return rng.random((n, dim)) * 10 ** rng.uniform(-1, 1)


def random_setting(rng, dim, diameter):
    exponent = rng.choice(["gauss", "exp", "number"])
    alpha = {"gauss": 2.0, "exp": 1.0, "number": float(rng.uniform(1, 2))}[str(exponent)]
    kwargs = dict(corr_exp=alpha if exponent == "number" else str(exponent), dim=dim)
    length = float(diameter * 10 ** rng.uniform(-1, 0.5))
    tensor = np.eye(dim) / length ** 2
    kwargs["corr_length"] = length
    if rng.random() < 0.3:
        a = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
        tensor = a @ np.diag((1 / (diameter * 10 ** rng.uniform(-1, 0.3, dim))) ** 2) @ a.T
        kwargs["aniso_correlation"] = tensor
    return kwargs, tensor, alpha


def corr(points, tensor, alpha):
    d = points[:, None] - points[None]
    return np.exp(-np.abs(np.einsum("ijk,kl,ijl->ij", d, tensor, d)) ** (alpha / 2))


def spread(points):
    return float(np.max(points.max(axis=0) - points.min(axis=0)))


def per_point(rng, n, positive):
    if rng.random() < 0.5:
        v = float(rng.normal())
        return abs(v) + 0.1 if positive else v
    v = rng.normal(size=n)
    return np.abs(v) + 0.1 if positive else v


@scenario("C24", quick=120, thorough=2000)
def covariance_factor(ctx, rng):
    dim = int(rng.integers(1, 4))
    points = random_points(rng, dim, int(rng.integers(2, 60)))
    kwargs, tensor, alpha = random_setting(rng, dim, spread(points))
    sigma = float(10 ** rng.uniform(-1.5, 1))
    precision = float(10 ** rng.uniform(-4, -0.5))
    if rng.random() < 0.4 and "aniso_correlation" not in kwargs:
        # The theoretical decay of the terms crosses the precision between the least and the largest number of terms
        kwargs["corr_length"] = float(spread(points) * rng.uniform(0.1, 0.7))
        tensor = np.eye(dim) / kwargs["corr_length"] ** 2
        sigma = float(np.sqrt(precision * rng.uniform(0.3, 1.5) * np.sqrt(np.pi) * (kwargs["corr_length"] / spread(points)) ** (1 + alpha)))
    field = cf.SpatialCorrelatedField(sigma=sigma, mu=1.0, **kwargs)
    for move in range(int(rng.integers(1, 3))):
        if move:
            points = random_points(rng, dim, int(rng.integers(2, 60)))
        if rng.random() < 0.3:
            # The matrix was computed for other points of the same number
            field.set_points(rng.random(points.shape) * spread(points))
            field.cov_matrix()
        field.set_points(points)
        n = len(points)
        where = (dim, n, kwargs["corr_exp"], "aniso" if "aniso_correlation" in kwargs else "", move)
        if rng.random() < 0.5:
            full, ev = field.svd_dcmp(n_terms_range=(n, np.inf))
            ctx.close(full @ full.T, corr(points, tensor, alpha), "factor-first", where, rtol=0, atol=1e-9)
        c = corr(points, tensor, alpha)
        ctx.close(field.cov_matrix(), c, "matrix", where, rtol=1e-9, atol=1e-12)
        full, ev = field.svd_dcmp(n_terms_range=(n, np.inf))
        ctx.close(full @ full.T, c, "factor", where, rtol=0, atol=1e-9)
        # Truncated expansion
        lo = int(rng.integers(1, max(2, n))) if rng.random() < 0.6 else 1
        hi = np.inf if rng.random() < 0.5 else int(rng.integers(lo, n + 10))
        factor, ev = field.svd_dcmp(precision=precision, n_terms_range=(lo, hi))
        m = factor.shape[1]
        info = (where, "precision", precision, "range", lo, hi, "terms", m)
        ctx.check(factor.shape[0] == n and min(lo, n) <= m <= min(hi, n), "number-of-terms", info)
        true_ev = np.linalg.eigvalsh(c)[::-1]
        rest = c - factor @ factor.T
        err = np.linalg.norm(rest, 2)
        if m < min(hi, n):
            # Terms below the precision were dropped only
            ctx.check(err <= 1.5 * precision * true_ev[0] + 1e-9, "dropped-terms", lambda: "{} error {} first {}".format(info, err, true_ev[0]))
        else:
            ctx.check(err <= 1.5 * (true_ev[m] if m < n else 0) + 1e-9, "truncation", lambda: "{} error {}".format(info, err))
        ctx.check(np.all(np.linalg.eigvalsh(rest) > -1e-9 - 0.05 * precision * true_ev[0] - 0.2 * (true_ev[m] if m < n else 0)), "more-variance", info)
        ctx.equal(np.asarray(field.sample()).shape, (n,), "sample-shape", info)
        ctx.state(*where, m)
        ctx.event("factors")


@scenario("C24", quick=40, thorough=500)
def realizations(ctx, rng):
    """Mean and covariance of the realizations"""
    dim = int(rng.integers(1, 4))
    kind = str(rng.choice(["svd", "svd", "svd", "fourier", "gstools"]))
    n_real = {"svd": 4000, "fourier": 1500, "gstools": 600}[kind]
    if kind != "svd":
        dim = min(dim, 2)
    log = bool(rng.integers(2))
    points = random_points(rng, dim, int(rng.integers(3, 9)))
    kwargs, tensor, alpha = random_setting(rng, dim, spread(points))
    moves = int(rng.integers(1, 3))
    if kind == "svd":
        field = cf.SpatialCorrelatedField(log=log, **kwargs)
    elif kind == "fourier":
        kwargs.pop("aniso_correlation", None)
        kwargs["corr_exp"] = str(rng.choice(["gauss", "exp"]))
        alpha = 2.0 if kwargs["corr_exp"] == "gauss" else 1.0
        tensor = np.eye(dim) / kwargs["corr_length"] ** 2
        field = cf.FourierSpatialCorrelatedField(log=log, mode_no=100, **kwargs)
    else:
        length, var = kwargs["corr_length"], float(rng.uniform(0.3, 2))
        alpha = float(rng.choice([1.0, 2.0])) if dim == 1 else 2.0      # sampling of the other spectra is slow
        # Length scales of gstools: exp(-r/l), exp(-pi/4 (r/l)^2)
        model = (gstools.Exponential if alpha == 1.0 else gstools.Gaussian)(dim=dim, len_scale=length, var=var)
        tensor = np.eye(dim) * (1 if alpha == 1.0 else np.pi / 4) / length ** 2
        sigma = float(rng.uniform(0.5, 2))
        field = cf.GSToolsSpatialCorrelatedField(model, mode_no=200, log=log, sigma=sigma)
    for move in range(moves):
        if move:
            points = random_points(rng, dim, int(rng.integers(3, 9)))
        n = len(points)
        if kind == "gstools":
            mu, sd = 0.0, sigma * np.sqrt(var)
            field.set_points(points)
        else:
            mu, sd = per_point(rng, n, False), per_point(rng, n, True)
            field.set_points(points, mu=mu, sigma=sd)
        if kind == "svd" and rng.random() < 0.5:
            field.svd_dcmp(n_terms_range=(n, np.inf))
        values = []
        for i in range(n_real):
            if kind == "gstools":
                field.change_srf(seed=int(rng.integers(2 ** 31)))
            values.append(np.ravel(field.sample()))
        values = np.array(values)
        where = (kind, dim, n, alpha, "log" if log else "", "move", move)
        ctx.equal(values.shape, (n_real, n), "shape", where)
        if log:
            ctx.check(np.all(values > 0), "log-positive", where)
            values = np.log(values)
        z = (values - mu) / sd
        # 0.01 of the first eigenvalue may be dropped by the expansion
        tol = 6.5 / np.sqrt(n_real) + 0.03 * n
        ctx.close(z.mean(axis=0), np.zeros(n), "mean", where, rtol=0, atol=6.5 / np.sqrt(n_real))
        emp = z.T @ z / n_real
        ctx.close(emp, corr(points, tensor, alpha), "covariance", where, rtol=0, atol=1.5 * tol if kind != "svd" else 1.42 * 6.5 / np.sqrt(n_real) + 0.012 * n)
        ctx.state(*where, round(kwargs["corr_length"], 6))
        ctx.event("realizations", n_real)
        ctx.note("{} largest difference of covariance {:.3f}".format(where, np.abs(emp - corr(points, tensor, alpha)).max()))


@scenario("C24", quick=60, thorough=800)
def seeded(ctx, rng):
    """Realization is determined by the seed, it is a function of the position"""
    dim = int(rng.integers(1, 4))
    model = [gstools.Gaussian, gstools.Exponential][int(rng.integers(2))](dim=dim, len_scale=float(rng.uniform(0.1, 2)))
    log, sigma = bool(rng.integers(2)), float(rng.uniform(0.2, 3))
    field = cf.GSToolsSpatialCorrelatedField(model, mode_no=50, log=log, sigma=sigma)
    points = rng.random((int(rng.integers(2, 40)), dim)) * 3
    where = (dim, type(model).__name__, log, round(sigma, 3))
    seeds = [int(s) for s in rng.choice(10 ** 6, 4, replace=False)]
    ref = {}
    for step in range(8):
        seed = seeds[int(rng.integers(4))]
        field.change_srf(seed=seed)
        sel = rng.permutation(len(points))[:int(rng.integers(1, len(points) + 1))]
        field.set_points(points[sel])
        got = np.ravel(field.sample())
        if seed not in ref:
            other = cf.GSToolsSpatialCorrelatedField(model, mode_no=50, log=False, sigma=1)
            other.change_srf(seed=seed)
            other.set_points(points)
            base = np.ravel(other.sample())
            ref[seed] = np.exp(sigma * base) if log else sigma * base
        ctx.close(got, ref[seed][sel], "not-function-of-position", where, rtol=1e-9, atol=1e-9)
        if len(sel) > 1:
            for s, r in ref.items():
                if s != seed:
                    ctx.check(not np.allclose(got, r[sel]), "same-for-different-seeds", where)
        ctx.event("realizations")
    # Correlation length differs among axes
    if dim > 1:
        axis = int(rng.integers(dim))
        lengths = [50.0 if k == axis else 0.05 for k in range(dim)]
        aniso = gstools.Gaussian(dim=dim, len_scale=lengths)
        along = cf.GSToolsSpatialCorrelatedField(aniso, mode_no=100)
        pts = np.full((40 * dim, dim), 0.3)
        for k in range(dim):
            pts[40 * k:40 * (k + 1), k] = np.linspace(0, 1, 40)
        sds = []
        for s in seeds:
            along.change_srf(seed=s)
            along.set_points(pts)
            v = np.ravel(along.sample()).reshape(dim, 40)
            sds.append(v.std(axis=1))
        sds = np.mean(sds, axis=0)
        ctx.check(all((sds[k] < 0.2) == (k == axis) for k in range(dim)), "anisotropy", lambda: "{} axis {} deviations {}".format(where, axis, sds))
    # Expansion driven by the global generator
    svd = cf.SpatialCorrelatedField(corr_exp='exp', dim=dim, corr_length=0.5, log=log)
    svd.set_points(points)
    svd.svd_dcmp(n_terms_range=(len(points), np.inf))
    np.random.seed(seeds[0])
    a, b = svd.sample(), svd.sample()
    np.random.seed(seeds[0])
    ctx.same(svd.sample(), a, "repeated-with-seed", where)
    ctx.same(svd.sample(), b, "repeated-with-seed", where)
    ctx.check(not np.allclose(a, b), "repeated-realization", where)
    ctx.state(*where, len(points))


@scenario("C24", quick=80, thorough=1000)
def field_sets(ctx, rng):
    """Dependent fields on regions"""
    dim = 2
    n_regions = int(rng.integers(1, 4))
    names = ["reg_{}".format(i) for i in range(n_regions)]
    ids = [int(i) for i in rng.choice(np.arange(1, 50), n_regions, replace=False)]
    region_map = dict(zip(names, ids))
    region_map["unused"] = 77
    n = int(rng.integers(6, 40))
    rf_kind = str(rng.choice(["svd", "gstools"]))
    seed = int(rng.integers(10 ** 6))
    model = gstools.Exponential(dim=dim, len_scale=0.7)
    if rf_kind == "svd":
        rf = cf.SpatialCorrelatedField(corr_exp='exp', dim=dim, corr_length=0.7, log=True)
    else:
        rf = cf.GSToolsSpatialCorrelatedField(model, mode_no=30, log=True)
        rf.change_srf(seed=seed)
    lo, hi = 0.05, 0.4
    fields, parts = [], []
    shared = str(rng.choice(["all", "separate"])) if n_regions > 1 else "all"
    groups = [names] if shared == "all" else [[nm] for nm in names]
    everywhere = rng.random() < 0.3 and shared == "all"
    const_value = float(np.round(rng.uniform(1, 5), 3))
    factor, power = float(10.0 ** rng.integers(-16, -4)), float(np.round(rng.uniform(1, 4), 2))
    for i, g in enumerate(groups):
        regions = [] if everywhere else (g[0] if len(g) == 1 and rng.random() < 0.5 else list(rng.permutation(g)))
        regions = regions if isinstance(regions, str) else [str(r) for r in regions]
        fields += [cf.Field('base_{}'.format(i), rf, regions=regions),
                   cf.Field('por_{}'.format(i), cf.positive_to_range, ['base_{}'.format(i), lo, hi], regions=regions),
                   cf.Field('cond_{}'.format(i), cf.kozeny_carman, ['por_{}'.format(i), power, factor, 8.9e-4], regions=regions),
                   cf.Field('sum_{}'.format(i), lambda x, y: x + 2 * y, ['por_{}'.format(i), 'base_{}'.format(i)], regions=regions),
                   cf.Field('c_{}'.format(i), const_value, regions=regions)]
        parts.append(regions)
    sets = [cf.Fields(fields) for _ in range(2)]
    outer = None
    names_all = [f.name for f in fields]
    if rng.random() < 0.5:
        outer = [str(x) for x in rng.permutation(names_all)[:int(rng.integers(1, len(names_all) + 1))]]
        [s.set_outer_fields(outer) for s in sets]
    where = (rf_kind, n_regions, shared, everywhere, outer is not None)
    used = {}
    for k, s in enumerate(sets):
        points = rng.random((n + k, dim)) * 2
        # Some regions may have no points
        present = ids if rng.random() < 0.7 else ids[:int(rng.integers(1, n_regions + 1))]
        reg = np.array([present[j % len(present)] for j in range(n + k)])
        rng.shuffle(reg)
        used[k] = (points, reg)
    for k, s in enumerate(sets):
        points, reg = used[k]
        if rng.random() < 0.15:
            # Regions of points are not given, there are no points for fields on regions
            used[k] = (points, np.full(len(points), -1))
            s.set_points(points)
            ctx.event("sets without regions of points")
        else:
            s.set_points(points, list(reg), region_map)
    previous = {}
    for step in range(4):
        k = int(rng.integers(2))
        points, reg = used[k]
        result = sets[k].sample()
        if outer is not None:
            ctx.equal(sorted(result), sorted(outer), "outer-fields", where)
        else:
            ctx.check(set(names_all) <= set(result), "outer-fields", where)
        for i, regions in enumerate(parts):
            rs = [regions] if isinstance(regions, str) else regions
            mask = np.ones(len(reg), dtype=bool) if not rs else np.isin(reg, [region_map[r] for r in rs])
            v = {nm: result.get("{}_{}".format(nm, i)) for nm in ("base", "por", "cond", "sum", "c")}
            for nm, a in v.items():
                if a is None:
                    continue
                ctx.equal(np.shape(a), (len(reg),), "field-shape", where)
                ctx.check(np.all(a[~mask] == 0), "outside-region", (where, nm))
                ctx.check(np.all(np.isfinite(a)), "field-finite", (where, nm))
            if v["c"] is not None:
                ctx.close(v["c"][mask], np.full(mask.sum(), const_value), "constant-field", where)
            if v["base"] is not None:
                b = v["base"][mask]
                ctx.check(np.all(b > 0), "base-positive", where)
                if rf_kind == "gstools":
                    single = cf.GSToolsSpatialCorrelatedField(model, mode_no=30, log=True)
                    single.change_srf(seed=seed)
                    single.set_points(points[mask])
                    ctx.close(b, np.ravel(single.sample()), "points-of-region", where, rtol=1e-9)
                else:
                    old = previous.get((k, i))
                    ctx.check(old is None or len(b) == 0 or not np.allclose(old, b), "same-realization", where)
                    previous[(k, i)] = b
                if v["por"] is not None:
                    ctx.close(v["por"][mask], hi * (1 - (hi - lo) / (hi + (hi - lo) * b)), "dependent-field", where)
                    if v["sum"] is not None:
                        ctx.close(v["sum"][mask], v["por"][mask] + 2 * b, "dependent-field", where)
            if v["por"] is not None:
                p = v["por"][mask]
                ctx.check(np.all((p >= lo * (1 - 1e-12)) & (p <= hi)), "range", where)
                if v["cond"] is not None:
                    ctx.close(v["cond"][mask], np.maximum(factor * p ** (2 + power) / (1 - p) ** 2 / 8.9e-4, 1e-15), "dependent-field", where, rtol=1e-9, atol=1e-24)
        ctx.event("field sets")
    ctx.state(*where, tuple(sorted(outer)) if outer else None)


@scenario("C24", quick=10, thorough=100, timeout=120)
def flow_fields(ctx, rng):
    """Field of the flow simulation has the chosen model, zero mean and given deviation and correlation length"""
    from mlmc.tool.flow_mc import create_corr_field
    model = str(rng.choice(["svd", "svd", "fourier", "gauss", "exp", "default"]))
    n_real = 4000 if model == "svd" else 1500
    dim = int(rng.integers(1, 3))
    log = bool(rng.integers(2))
    sigma = float(rng.choice([0.2, 1.0, 1.7]))
    points = random_points(rng, dim, int(rng.integers(3, 6)))
    length = float(spread(points) * 10 ** rng.uniform(-0.7, 0.3))
    kwargs = dict(corr_length=length, dim=dim, log=log, sigma=sigma)
    if model != "default":
        kwargs["model"] = model
    if model not in ("svd", "fourier"):
        kwargs["mode_no"] = 200
    fields = create_corr_field(**kwargs)
    fields.set_outer_fields(["conductivity"])
    fields.set_points(points, [1] * len(points), {"all": 1})
    values = []
    for i in range(n_real):
        for f in fields.fields:
            if isinstance(f.correlated_field, cf.GSToolsSpatialCorrelatedField):
                f.correlated_field.change_srf(seed=int(rng.integers(2 ** 31)))
        sample = fields.sample()
        ctx.equal(list(sample), ["conductivity"], "fields", model)
        values.append(np.ravel(sample["conductivity"]))
    values = np.array(values)
    where = (model, dim, len(points), log, sigma, round(length, 6))
    if log:
        ctx.check(np.all(values > 0), "log-positive", where)
        values = np.log(values)
    z = values / sigma
    r = np.sqrt(np.sum((points[:, None] - points[None]) ** 2, axis=-1))
    if model == "svd":
        expected = np.exp(-r / length)
    elif model == "fourier":
        expected = np.exp(-(r / length) ** 2)
    else:
        cls = gstools.Exponential if model == "exp" else gstools.Gaussian
        expected = cls(dim=dim, len_scale=length).correlation(r)
    ctx.close(z.mean(axis=0), np.zeros(len(points)), "flow-mean", where, rtol=0, atol=6.5 / np.sqrt(n_real))
    ctx.close(z.T @ z / n_real, expected, "flow-covariance", where, rtol=0,
              atol=1.42 * 6.5 / np.sqrt(n_real) + (0.012 if model == "svd" else 0.045) * len(points))
    ctx.event("realizations", n_real)
    ctx.state(*where)
