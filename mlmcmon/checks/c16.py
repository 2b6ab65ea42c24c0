"""C16: moment functions"""
import numpy as np
from mlmc.moments import Monomial, Fourier, Legendre, TransformedMoments
from mlmcmon.core import scenario

RULE = """Random families, sizes, domains, reference domains, logarithmic and clipped variants, arrays of any shape with values inside,
outside, at the ends of the domain and NaN; all ways of evaluation are compared with independent formulas (powers, recurrence,
trigonometric functions), derivatives with derivatives of the polynomials. A state is a distinct parametrisation."""


def ref_transform(domain, ref, log, x):
    a, b = (np.log(domain[0]), np.log(domain[1])) if log else domain
    y = np.log(x) if log else x
    return ref[0] + (y - a) / (b - a) * (ref[1] - ref[0])


def ref_values(family, t, size):
    out = np.empty(t.shape + (size,))
    for i in range(size):
        if family is Monomial:
            out[..., i] = t ** i
        elif family is Fourier:
            out[..., i] = 1 if i == 0 else (np.cos((i + 1) // 2 * t) if i % 2 else np.sin(i // 2 * t))
        else:
            if i == 0:
                out[..., i] = 1
            elif i == 1:
                out[..., i] = t
            else:
                out[..., i] = ((2 * i - 1) * t * out[..., i - 1] - (i - 1) * out[..., i - 2]) / i
    return out


DEFAULT_REF = {Monomial: (0, 1), Fourier: (0, 2 * np.pi), Legendre: (-1, 1)}


def random_moments(rng, size=None, family=None):
    family = family or [Monomial, Fourier, Legendre][int(rng.integers(3))]
    log = bool(rng.integers(2))
    a = float(rng.uniform(0.05, 3)) if log else float(rng.normal() * 10 ** rng.uniform(-1, 2))
    domain = (a, a + float(10 ** rng.uniform(-1.5, 1.5)))
    if rng.random() < 0.2:
        # Other units
        unit = 10 ** rng.uniform(-20, 12)
        domain = (domain[0] * unit, domain[1] * unit)
    ref = None if rng.random() < 0.6 else (float(rng.uniform(-1, 0)), float(rng.uniform(0.2, 1)))
    safe = bool(rng.integers(2))
    size = size or int(rng.integers(1, 13))
    kwargs = dict(log=log, safe_eval=safe)
    if ref is not None:
        kwargs["ref_domain"] = ref
    return family(size, domain, **kwargs), family, size, domain, ref or DEFAULT_REF[family], log, safe, kwargs


def random_values(rng, domain, log, outside=True):
    a, b = domain
    shape = [(), (1,), (7,), (3, 5), (2, 6, 2), (4, 3, 1), (0,), (2, 0, 2)][int(rng.integers(8))]
    n = int(np.prod(shape)) if shape else 1
    x = rng.uniform(a, b, n)
    tag = rng.integers(0, 6, n)
    x[tag == 1] = a
    x[tag == 2] = b
    out = np.zeros(n, dtype=bool)
    if outside:
        sel = tag == 3
        x[sel] = b + (b - a) * 10 ** rng.uniform(-6, 1, int(sel.sum()))
        out |= sel
        sel = tag == 4
        low = a - (b - a) * 10 ** rng.uniform(-6, 0.5, int(sel.sum()))
        if log:
            low = np.where(low > 0, low, a / 2)
        x[sel] = low
        out |= sel
    nan = np.zeros(n, dtype=bool)
    if rng.random() < 0.2 and n:
        nan[int(rng.integers(n))] = True
        x[nan] = np.nan
    return x.reshape(shape), out.reshape(shape), nan.reshape(shape)


def expected(family, size, domain, ref, log, safe, x, out, nan):
    x1, out1, nan1 = np.atleast_1d(x), np.atleast_1d(out), np.atleast_1d(nan)
    t = ref_transform(domain, ref, log, x1)
    v = ref_values(family, t, size)
    bad = nan1 | (out1 if safe else False)
    v[bad] = np.nan
    return v, bad, t


@scenario("C16", quick=300, thorough=4000)
def evaluation(ctx, rng):
    with np.errstate(all="ignore"):
        m, family, size, domain, ref, log, safe, kwargs = random_moments(rng)
        custom = "ref_domain" in kwargs
        ctx.equal(int(m.size), size, "size")
        for _ in range(2):
            x, out, nan = random_values(rng, domain, log)
            if custom and safe:
                # The end of the domain up to rounding
                x = np.where(out | nan, x, np.clip(x, domain[0] + 1e-9 * (domain[1] - domain[0]), domain[1] - 1e-9 * (domain[1] - domain[0])))
            v, bad, t = expected(family, size, domain, ref, log, safe, x, out, nan)
            where = (family.__name__, size, domain, kwargs, "shape", np.shape(x))
            scale = float(np.nanmax(np.abs(v))) if v.size and not np.all(np.isnan(v)) else 1.0
            tol = dict(rtol=1e-7, atol=1e-9 * max(scale, 1))
            k0 = 1   # the constant function may be 1 also for masked values

            def cmp(got, want, key, first):
                got = np.asarray(got, dtype=float)
                if first < k0 and got.shape == want.shape:
                    # Column of the constant, masked values may be either
                    got, want = got.copy(), want.copy()
                    got[..., 0][bad] = np.nan
                    want[..., 0][bad] = np.nan
                ctx.close(got, want, key, where, **tol)
            cmp(m(x), v, "call", 0)
            cmp(m.eval_all(x), v, "eval-all", 0)
            s = int(rng.integers(1, size + 1))
            cmp(m.eval_all(x, s), v[..., :s], "eval-all-smaller", 0)
            i = int(rng.integers(size))
            if i >= k0:
                ctx.close(m.eval(i, x), v[..., i], "eval", where + (i,), **tol)
                ctx.close(m.eval_single_moment(i, x), v[..., i], "eval-single", where + (i,), **tol)
            new = int(rng.integers(1, 15))
            v2, _, _ = expected(family, new, domain, ref, log, safe, x, out, nan)
            m2 = m.change_size(new)
            tol["atol"] = 1e-8 * max(1, float(np.nanmax(np.abs(v2))) if v2.size and not np.all(np.isnan(v2)) else 1)
            ctx.equal(int(m2.size), new, "change-size-size", where)
            cmp(m2(x), v2, "change-size", 0)
            ctx.event("values", v.size)
            ctx.event("masked", int(np.sum(bad)))
            # Evaluation does not change the arguments
            xc = np.array(x, copy=True)
            m(x)
            ctx.same(x, xc, "argument-changed", where)
        # Transformation to the reference domain and back
        y = rng.uniform(domain[0], domain[1], 9)
        ctx.close(m.inv_transform(m.transform(y)), y, "inverse-transform", (family.__name__, domain, kwargs), rtol=1e-9,
                  atol=1e-9 * max(map(abs, domain)))
        ends = np.asarray(m.inv_transform(np.array(ref)), dtype=float)
        ctx.close(ends, domain, "ends", (domain, kwargs), rtol=1e-9, atol=1e-9 * (domain[1] - domain[0]))
        ctx.state(family.__name__, size, log, safe, custom, domain)
        ctx.note("{} size {} domain {} {}".format(family.__name__, size, domain, kwargs))


@scenario("C16", quick=120, thorough=1500)
def derivatives(ctx, rng):
    """Derivatives of Legendre moments (and their linear combinations) with respect to the reference variable"""
    m, family, size, domain, ref, log, safe, kwargs = random_moments(rng, size=int(rng.integers(2, 12)), family=Legendre)
    x = rng.uniform(domain[0] + 1e-6 * (domain[1] - domain[0]), domain[1] - 1e-6 * (domain[1] - domain[0]), int(rng.integers(1, 9)))
    if rng.integers(2):
        x = x.reshape((1, -1, 1))
    t = ref_transform(domain, ref, log, x)

    def der(size, degree):
        return np.stack([np.polynomial.legendre.Legendre.basis(i).deriv(degree)(t) for i in range(size)], axis=-1)
    s = int(rng.integers(1, size + 1))
    where = (size, domain, kwargs, s)
    for degree in (1, 2):
        d = der(size, degree)
        tol = dict(rtol=1e-7, atol=1e-8 * max(1, np.max(np.abs(d))))
        f = m.eval_diff if degree == 1 else m.eval_diff2
        ctx.close(f(x), d, "diff{}".format(degree), where, **tol)
        ctx.close(f(x, s), d[..., :s], "diff{}-smaller".format(degree), where, **tol)
        ctx.close(m.eval_all_der(x, degree=degree), d, "all-der{}".format(degree), where, **tol)
        ctx.close(m.eval_all_der(x, s, degree=degree), d[..., :s], "all-der{}-smaller".format(degree), where, **tol)
        mat = random_matrix(rng, int(rng.integers(1, size + 1)), size)
        tr = TransformedMoments(m, mat)
        want = d @ mat.T
        tol["atol"] *= 10
        ctx.close((tr.eval_diff if degree == 1 else tr.eval_diff2)(x), want, "transformed-diff{}".format(degree), where, **tol)
        ctx.close(tr.eval_all_der(x, degree=degree), want, "transformed-der{}".format(degree), where, **tol)
        s2 = int(rng.integers(1, mat.shape[0] + 1))
        ctx.close((tr.eval_diff if degree == 1 else tr.eval_diff2)(x, s2), want[..., :s2], "transformed-smaller", where, **tol)
        ctx.event("values", d.size)
    for degree in (3, 4):
        d = der(size, degree)
        tol = dict(rtol=1e-6, atol=1e-8 * max(1, np.max(np.abs(d))))
        ctx.close(m.eval_all_der(x, degree=degree), d, "all-der{}".format(degree), where, **tol)
        ctx.close(tr.eval_all_der(x, degree=degree), d @ mat.T, "transformed-der{}".format(degree), where, rtol=1e-6, atol=10 * tol["atol"])
    ctx.state(size, s, log, safe, domain)


def random_matrix(rng, n, m):
    mat = rng.normal(size=(n, m))
    mat[0] = 0
    mat[0, 0] = 1
    return mat


@scenario("C16", quick=100, thorough=1000)
def transformed(ctx, rng):
    """Linear combinations of moment functions, also repeated; constant function stays"""
    with np.errstate(all="ignore"):
        m, family, size, domain, ref, log, safe, kwargs = random_moments(rng, family=Monomial if rng.integers(2) else Legendre)
        x, out, nan = random_values(rng, domain, log, outside=safe)
        if "ref_domain" in kwargs and safe:
            x = np.where(out | nan, x, np.clip(x, domain[0] + 1e-9 * (domain[1] - domain[0]), domain[1] - 1e-9 * (domain[1] - domain[0])))
        v, bad, _ = expected(family, size, domain, ref, log, safe, x, out, nan)
        n = int(rng.integers(1, size + 1))
        mat = random_matrix(rng, n, size)
        tr = TransformedMoments(m, mat)
        want = v @ mat.T
        where = (family.__name__, size, n, domain, kwargs)
        tol = dict(rtol=1e-7, atol=1e-8)
        ctx.equal(int(tr.size), n, "size", where)
        ctx.close(tr(x), want, "transformed", where, **tol)
        s = int(rng.integers(1, n + 1))
        ctx.close(tr.eval_all(x, s), want[..., :s], "transformed-smaller", where, **tol)
        i = int(rng.integers(n))
        ctx.close(tr.eval(i, x), want[..., i], "transformed-eval", where + (i,), **tol)
        ctx.close(tr.eval_single_moment(i, x), want[..., i], "transformed-eval-single", where + (i,), **tol)
        ctx.close(np.asarray(tr(x))[..., 0][~bad], np.ones(int((~bad).sum())), "constant-function", where)
        mat2 = random_matrix(rng, int(rng.integers(1, n + 1)), n)
        tr2 = TransformedMoments(tr, mat2)
        ctx.close(tr2(x), want @ mat2.T, "transformed-twice", where, rtol=1e-6, atol=1e-7)
        ctx.check(tuple(tr.domain) == tuple(domain), "transformed-domain", where)
        ctx.equal(tr == TransformedMoments(m, mat.copy()), True, "transformed-equal", where)
        other = mat.copy()
        other[-1, -1] += 1
        ctx.equal(tr == TransformedMoments(m, other), False, "transformed-not-equal", where)
        ctx.event("values", want.size)
        ctx.state(family.__name__, size, n, mat2.shape[0], log, safe)


@scenario("C16", quick=60, thorough=500)
def equality(ctx, rng):
    m, family, size, domain, ref, log, safe, kwargs = random_moments(rng)
    ctx.equal(m == family(size, domain, **kwargs), True, "equal", (family.__name__, size, domain, kwargs))
    ctx.equal(m.change_size(size) == m, True, "change-size-equal", (family.__name__, size, domain, kwargs))
    kw = dict(kwargs)
    changes = {
        "size": lambda: family(size + 1, domain, **kwargs),
        "domain": lambda: family(size, (domain[0], domain[1] * (1 + 0.1 * np.sign(domain[1])) + 0.01), **kwargs),
        "safe_eval": lambda: family(size, domain, **{**kw, "safe_eval": not safe}),
        "ref_domain": lambda: family(size, domain, **{**kw, "ref_domain": (ref[0], ref[1] + 0.5)}),
        "family": lambda: [f for f in (Monomial, Fourier, Legendre) if f is not family][int(rng.integers(2))](size, domain, **kwargs),
        "transformed": lambda: TransformedMoments(m, np.eye(size)),
    }
    if domain[0] > 0:
        changes["log"] = lambda: family(size, domain, **{**kw, "log": not log})
    # Combinations of functions
    mat = random_matrix(rng, size, size)
    combined = TransformedMoments(m, mat)
    ctx.equal(combined == TransformedMoments(family(size, domain, **kwargs), mat.copy()), True, "combined-equal", (family.__name__, size, domain, kwargs))
    other = mat.copy()
    other[-1, -1] += 0.5
    ctx.equal(combined == TransformedMoments(m, other), False, "combined-not-equal-matrix", (family.__name__, size, domain, kwargs))
    for name, make in changes.items():
        if name not in ("size", "transformed"):
            ctx.equal(combined == TransformedMoments(make(), mat), False, "combined-not-equal-" + name, (family.__name__, size, domain, kwargs))
        ctx.equal(m == make(), False, "not-equal-" + name, (family.__name__, size, domain, kwargs))
        ctx.event("compared")
        ctx.state(family.__name__, name, log, safe)


@scenario("C16", quick=24, thorough=300)
def domain_ends(ctx, rng):
    """Ends of the domain belong to it whatever the rounding of the transformation is"""
    for _ in range(60):
        family = [Monomial, Fourier, Legendre][int(rng.integers(3))]
        log = bool(rng.integers(2))
        a = float(rng.uniform(0.05, 3)) if log else float(rng.normal() * 10 ** rng.uniform(-1, 2))
        domain = (a, a + float(10 ** rng.uniform(-1.5, 1.5)))
        m = family(4, domain, log=log, safe_eval=True)
        v = np.asarray(m(np.array(domain)))
        want = ref_values(family, np.array(DEFAULT_REF[family], dtype=float), 4)
        ctx.close(v, want, "value-at-end", (family.__name__, domain, "log" if log else "linear"), rtol=1e-6, atol=1e-6)
        ctx.event("ends", 2)
    ctx.state(family.__name__, domain)
