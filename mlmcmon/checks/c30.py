"""C30: plots show the data they are given"""
import os
os.environ["MPLBACKEND"] = "agg"
import warnings
import numpy as np
import scipy.stats as st
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
from matplotlib.container import BarContainer, ErrorbarContainer
from mlmc.moments import Legendre, Monomial, Fourier
from mlmc.estimator import Estimate
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments as moments_quantity
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmcmon.core import scenario
from mlmcmon import gen

RULE = """Random data (distributions with or without the exact one, raw samples, eigenvalues with errors, level variances, bootstrap
estimates of stored samples) are passed to the plots; figures are intercepted when they are shown or saved and coordinates of the drawn
lines, points, bars and error bars are compared with the data. A state is a distinct (plot, sizes, options)."""
ASSUMPTIONS = ["matplotlib with the agg backend; what is judged are coordinates of the drawn objects, not their look"]


class Shown:
    """Intercepts shown and saved figures"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.figures = []
        self.files = []

    def __enter__(self):
        plt.close("all")
        self._show, self._save = plt.show, matplotlib.figure.Figure.savefig
        this = self

        def show(*args, **kwargs):
            # Shown figures are closed by the user
            this.figures.extend(plt.figure(i) for i in plt.get_fignums())
            plt.close("all")

        def savefig(fig, file, *args, **kwargs):
            this.files.append((fig, str(file)))
        plt.show, matplotlib.figure.Figure.savefig = show, savefig
        self._cwd = os.getcwd()
        os.chdir(self.ctx.scratch)
        self._warnings = warnings.catch_warnings()
        self._warnings.__enter__()
        warnings.simplefilter("ignore")
        return self

    def __exit__(self, *args):
        self._warnings.__exit__(*args)
        os.chdir(self._cwd)
        plt.show, matplotlib.figure.Figure.savefig = self._show, self._save
        plt.close("all")


def curves(ax):
    """Lines with more points, without lines of the axes"""
    return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float), l) for l in ax.lines
            if l.get_transform() == ax.transData]


def points(ax):
    """Coordinates of points of each scatter plot"""
    return [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections if type(c).__name__ == "PathCollection"]


def error_bars(container):
    """x, y, lower and upper ends"""
    line, _, bars = container.lines
    segments = np.array(bars[0].get_segments())
    return np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float), segments[:, :, 1].min(axis=1), \
        segments[:, :, 1].max(axis=1)


class Density:
    """Density of the normal distribution restricted to a domain"""

    def __init__(self, rng, positive):
        a = float(rng.uniform(0.1, 2)) if positive else float(rng.uniform(-3, 1))
        self.domain = (a, a + float(rng.uniform(0.5, 4)))
        self.moments_fn = Legendre(int(rng.integers(2, 20)), self.domain)
        self.rv = st.norm(np.mean(self.domain) + rng.normal() * 0.2, 0.3 * (self.domain[1] - self.domain[0]))

    def density(self, x):
        return self.rv.pdf(x)

    def cdf(self, x):
        return self.rv.cdf(x)


def is_grid(ctx, x, domain, key, where):
    ctx.close([x.min(), x.max()], list(domain), key + "-range", where, rtol=1e-9)
    ctx.check(len(x) >= 100 and np.all(np.diff(x) > 0) and np.max(np.diff(np.log(x) if where[1] else x)) * len(x) < 5 * abs(
        (np.log(domain[1] / domain[0]) if where[1] else domain[1] - domain[0])), key + "-grid", (where, x))


@scenario("C30", quick=25, thorough=200)
def distribution(ctx, rng):
    from mlmc.plot import plots
    log_x = bool(rng.random() < 0.3)
    error_plot = [None, "l2", "diff", "kl"][int(rng.integers(4))]
    exact = st.norm(0.3, 1.5) if rng.random() < 0.7 else None
    cdf_plot = bool(rng.integers(2))
    ds = [Density(rng, log_x) for _ in range(int(rng.integers(1, 4)))]
    where = (error_plot, log_x, exact is not None, cdf_plot, len(ds))
    with Shown(ctx) as shown:
        p = plots.Distribution(exact_distr=exact, title="plot", quantity_name="q", log_density=bool(rng.integers(2)), cdf_plot=cdf_plot,
                               log_x=log_x, error_plot=error_plot)
        labels = []
        for i, d in enumerate(ds):
            label = None if rng.random() < 0.3 else "distribution {}".format(i)
            p.add_distribution(d, label=label)
            labels.append("size {}".format(d.moments_fn.size) if label is None else label)
        # Vertical lines at ends of the domain are not in the coordinates of data
        pdf, cdf = curves(p.ax_pdf), curves(p.ax_cdf)
        ctx.equal(len(pdf), len(ds), "densities", where)
        ctx.equal(len(cdf), len(ds), "distribution-functions", where)
        for i, (d, label) in enumerate(zip(ds, labels)):
            x, y, line = pdf[i]
            is_grid(ctx, x, d.domain, "density", where)
            ctx.close(y, d.density(x), "density", where)
            ctx.equal(line.get_label(), label, "label", where)
            x, y, _ = cdf[i]
            is_grid(ctx, x, d.domain, "cdf", where)
            ctx.close(y, d.cdf(x), "cdf", where)
            borders = [l for l in p.ax_pdf.lines if l.get_transform() != p.ax_pdf.transData]
            ctx.close(sorted(float(l.get_xdata()[0]) for l in borders), sorted(b for e in ds for b in e.domain), "borders", where)
            ctx.event("curves", 2)
        if error_plot and exact is not None:
            e_pdf, e_cdf = curves(p.ax_pdf_err), curves(p.ax_cdf_err)
            ctx.equal((len(e_pdf), len(e_cdf)), (len(ds), len(ds)), "errors", where)
            for i, d in enumerate(ds):
                x, y, line = e_pdf[i]
                f, g = exact.pdf(x), d.density(x)
                ctx.close(y, f * np.log(f / g) - f + g if error_plot == "kl" else g - f, "density-error", where, atol=1e-9)
                ctx.equal(line.get_color(), pdf[i][2].get_color(), "error-color", where)
                x, y, _ = e_cdf[i]
                ctx.close(y, d.cdf(x) - exact.cdf(x), "cdf-error", where, atol=1e-9)
                ctx.event("curves", 2)
        name = str(rng.choice(["", "file", "file.pdf"]))
        p.show(name)
        ctx.equal([os.path.basename(f) for _, f in shown.files], [{"": "plot.pdf"}.get(name, "file.pdf")], "file", where)
        ctx.check(shown.files[0][0] is p.fig, "saved-figure", where)
        if exact is not None:
            domain = min(d.domain[0] for d in ds), max(d.domain[1] for d in ds)
            for ax, n, fn in ((p.ax_pdf, len(pdf), exact.pdf), (p.ax_cdf, len(cdf), exact.cdf)):
                x, y, _ = curves(ax)[n]
                is_grid(ctx, x, domain, "exact", where)
                ctx.close(y, fn(x), "exact", where)
        ctx.equal(len(curves(p.ax_pdf)), len(ds) + (exact is not None), "all-densities", where)
    ctx.state("distribution", *where)


@scenario("C30", quick=25, thorough=200)
def raw_samples(ctx, rng):
    from mlmc.plot import plots
    n = int(rng.choice([2, 3, 10, 40, 300, 2000]))
    x = rng.normal(size=n) * float(rng.uniform(0.5, 5)) + rng.normal()
    first = bool(rng.integers(2))
    with Shown(ctx):
        p = plots.Distribution()
        d = Density(rng, False)
        if first:
            p.add_distribution(d)
        p.add_raw_samples(x)
        bars = sorted((float(r.get_x()), float(r.get_width()), float(r.get_height())) for r in p.ax_pdf.patches)
        ctx.check(len(bars) > 0, "histogram-empty", n)
        edges = np.array([b[0] for b in bars] + [bars[-1][0] + bars[-1][1]])
        low, high = (min(x.min(), d.domain[0]), max(x.max(), d.domain[1])) if first else (x.min(), x.max())
        ctx.close([edges[0], edges[-1]], [low, high], "histogram-range", (n, first))
        ctx.close([b[0] + b[1] for b in bars], edges[1:], "histogram-gaps", n)
        edges[0], edges[-1] = low, high
        counts, _ = np.histogram(x, edges)
        ctx.close([b[2] for b in bars], counts / (n * np.diff(edges)), "histogram", (n, first), rtol=1e-7)
        ctx.event("bars", len(bars))
    ctx.state("samples", n, first)


@scenario("C30", quick=30, thorough=300)
def eigenvalues(ctx, rng):
    from mlmc.plot import plots
    log_y = bool(rng.integers(2))
    with Shown(ctx) as shown:
        p = plots.Eigenvalues(log_y=log_y, title="eigenvalues")
        thresholds = []
        for i in range(int(rng.integers(1, 4))):
            n = int(rng.integers(2, 15))
            values = np.sort(np.exp(rng.normal(size=n) * 3))[::-1]
            if rng.random() < 0.4:
                k = int(rng.integers(1, n))
                values[k:] = -np.sort(np.abs(rng.normal(size=n - k)))
            if n > 3 and rng.random() < 0.4:
                # Multiple eigenvalues
                values[1] = values[0]
                values[-1] = values[-2]
            errors = rng.uniform(0.01, 0.2, n) * np.abs(values) if rng.integers(2) else None
            expected = values[values > 0] if log_y else values
            e_errors = None if errors is None else errors[:len(expected)]
            increasing = bool(rng.integers(2))
            threshold = int(rng.integers(n)) if rng.integers(2) else None
            before = len(points(p.ax)), len([c for c in p.ax.containers if isinstance(c, ErrorbarContainer)])
            where = (log_y, n, len(expected), errors is not None, increasing, threshold)
            a, b = (values[::-1], None if errors is None else errors[::-1]) if increasing else (values, errors)
            p.add_values(a.copy(), errors=None if b is None else (list(b) if rng.integers(2) else b.copy()), threshold=threshold,
                         label="set {}".format(i))
            if errors is None:
                new = points(p.ax)[before[0]:]
                ctx.equal(len(new), 1, "eigenvalue-sets", where)
                x, y = new[0].T
            else:
                new = [c for c in p.ax.containers if isinstance(c, ErrorbarContainer)][before[1]:]
                ctx.equal(len(new), 1, "eigenvalue-sets", where)
                x, y, lower, upper = error_bars(new[0])
                ctx.close(upper, expected + e_errors, "errors", where)
                ctx.close(lower, expected - e_errors, "errors", where)
            ctx.close(y, expected, "eigenvalues", where)
            lines = [l for l in p.ax.lines if len(np.ravel(l.get_ydata())) == 2 and l.get_transform() != p.ax.transData]
            ctx.equal(len(lines), sum(o is not None for o in thresholds) + (threshold is not None), "threshold-lines", where)
            if threshold is not None and not increasing:
                ctx.close(float(lines[-1].get_ydata()[0]), threshold, "threshold-line", where)
            thresholds.append(threshold)
            shift = x - np.arange(len(x))
            ctx.check(np.ptp(shift) < 1e-9 and 0 <= shift[0] < 1, "eigenvalue-positions", (where, x))
            ctx.event("points", len(y))
            ctx.state("eigenvalues", *where)
        p.show("values")
        ctx.equal([os.path.basename(f) for _, f in shown.files], ["values.pdf"], "file")


def columns(ax):
    """Bars of stacks: dict position -> list of (bottom, height) from the lowest one"""
    res = {}
    for c in ax.containers:
        if isinstance(c, BarContainer):
            for r in c.patches:
                res.setdefault(round(float(r.get_x() + r.get_width() / 2), 6), []).append((float(r.get_y()), float(r.get_height())))
    return {x: sorted(b) for x, b in res.items()}


def check_breakdown(ctx, fig, tables, key, where):
    """Stacks at labels of moments; tables - list of (level variances, n samples)"""
    ax = fig.axes[0]
    stacks = columns(ax)
    ticks = [round(float(t), 6) for t in ax.get_xticks()]
    labels = [t.get_text() for t in ax.get_xticklabels()]
    ctx.equal(sorted(stacks), sorted(ticks), key + "-columns", where)
    i = -1
    seen = []
    for x, label in sorted(zip(ticks, labels)):
        if label == "avg":
            i += 1
            seen.append([])
        else:
            seen[i].append((x, int(label)))
    ctx.equal(len(seen), len(tables), key + "-instances", where)
    avg = [x for x, label in sorted(zip(ticks, labels)) if label == "avg"]
    for (l_vars, n), group, x0 in zip(tables, seen, avg):
        moments = [m for _, m in group]
        ctx.check(len(set(moments)) == len(moments) and sorted(moments) == moments and moments[0] >= 1 and moments[-1] < l_vars.shape[1],
                  key + "-moments", (where, moments))
        parts = l_vars / np.asarray(n, dtype=float)[:, None]
        for x, value in [(x0, parts[:, moments].mean(axis=1))] + [(x, parts[:, m]) for x, m in group]:
            heights = np.array([h for _, h in stacks[x]])
            bottoms = np.array([b for b, _ in stacks[x]])
            # The last level is at the bottom
            ctx.close(heights, value[::-1], key + "-contributions", where, rtol=1e-8, atol=1e-14)
            ctx.close(bottoms, np.concatenate(([0], np.cumsum(value[::-1])[:-1])), key + "-stack", where, rtol=1e-8, atol=1e-14)
        ctx.event("bars", parts.shape[0] * (1 + len(group)))
    # Descriptions of levels
    ctx.equal(sorted(t.get_text() for t in ax.texts), sorted("L{} {:5}".format(l, k) for _, n in tables for l, k in enumerate(n)),
              key + "-descriptions", where)
    return seen


def check_references(ctx, fig, tables, refs, seen, where):
    """Error bars go from the top of a bar to the reference value"""
    bars = [c for c in fig.axes[0].containers if isinstance(c, BarContainer) and c.errorbar is not None]
    ctx.equal(len(bars), sum(len(t[1]) for t, r in zip(tables, refs) if r is not None), "error-bars", where)
    k = 0
    for (l_vars, n), ref, group in zip(tables, refs, seen):
        if ref is None:
            continue
        moments = [m for _, m in group]
        for level in reversed(range(len(n))):
            bar = bars[k]
            k += 1
            tops = np.array([r.get_y() + r.get_height() for r in bar.patches])
            seg = np.array(bar.errorbar.lines[2][0].get_segments())[:, :, 1]
            diff = (ref[level] - l_vars[level]) / n[level]
            diff = np.concatenate(([diff[moments].mean()], diff[moments]))
            tol = 1e-9 * np.abs(tops).max()
            ctx.close(seg.min(axis=1), tops + np.minimum(diff, 0), "error-low", where, atol=tol)
            ctx.close(seg.max(axis=1), tops + np.maximum(diff, 0), "error-high", where, atol=tol)
            ctx.event("error-bars", len(diff))


@scenario("C30", quick=20, thorough=200)
def variance_breakdown(ctx, rng):
    from mlmc.plot import plots
    n_moments = int(rng.integers(2, 16))
    subset = None if rng.integers(2) else int(rng.integers(1, 14))
    tables, refs = [], []
    with Shown(ctx):
        p = plots.VarianceBreakdown(subset)
        for _ in range(int(rng.integers(1, 3))):
            n_levels = int(rng.integers(1, 7))
            l_vars = np.exp(rng.normal(size=(n_levels, n_moments)) * 2)
            n = rng.integers(1, 1000, n_levels)
            ref = np.exp(rng.normal(size=(n_levels, n_moments)) * 2) if rng.integers(2) else None
            a, b = l_vars.copy(), n.copy()
            p.add_variances(l_vars, n, ref_level_vars=None if ref is None else ref.copy())
            ctx.same(l_vars, a, "variances-changed")
            ctx.same(n, b, "numbers-changed")
            tables.append((a, b))
            refs.append(ref)
        p.show("variances")
        where = (n_moments, subset, [len(t[1]) for t in tables])
        seen = check_breakdown(ctx, p.fig, tables, "breakdown", where)
        if subset is None:
            ctx.equal([m for _, m in seen[0]], list(range(1, n_moments)), "all-moments", where)
        else:
            ctx.equal(len(seen[0]), min(subset, n_moments - 1), "number-of-moments", where)
        check_references(ctx, p.fig, tables, refs, seen, where)
    ctx.state("breakdown", n_moments, subset, tuple(where[2]))


@scenario("C30", quick=15, thorough=150)
def level_variances(ctx, rng):
    from mlmc.plot import plots
    n_moments = int(rng.integers(2, 12))
    subset = None if rng.integers(2) else int(rng.integers(1, n_moments + 3))
    where = None
    with Shown(ctx) as shown:
        p = plots.Variance(subset)
        expected = []
        for _ in range(int(rng.integers(1, 3))):
            n_levels = int(rng.integers(2, 9))
            steps = np.geomspace(float(rng.uniform(0.5, 1)), float(rng.uniform(0.001, 0.1)), n_levels)
            v = np.exp(rng.normal(size=(n_levels, n_moments))) * steps[:, None] ** 2
            p.add_level_variances(steps, v)
            expected.append((steps, v))
        where = (n_moments, subset, [len(s) for s, _ in expected])
        p.show("level variances")
        ax = p.fig.axes[0]
        sets = [c for c in ax.collections if type(c).__name__ == "PathCollection"]
        x, v = np.concatenate([s for s, _ in expected]), np.concatenate([v for _, v in expected])
        moments = []
        for c in sets:
            m = int(c.get_label()[1:])
            moments.append(m)
            xy = np.asarray(c.get_offsets(), float)
            ctx.close(xy[:, 1], v[:, m], "level-variances", where)
            # Points are slightly scattered around steps
            ctx.check(len(xy) == len(x) and np.all(np.abs(np.log(xy[:, 0] / x)) < 0.1), "level-steps", (where, xy[:, 0], x))
            ctx.event("points", len(xy))
        ctx.check(moments == sorted(set(moments)), "level-moments", (where, moments))
        ctx.equal(len(moments), n_moments - 1 if subset is None else min(subset, n_moments - 1), "level-moments", where)
        ctx.equal([os.path.basename(f) for _, f in shown.files], ["level variances.pdf"], "file")
    ctx.state("variance", n_moments, subset, tuple(where[2]))


@scenario("C30", quick=25, thorough=200)
def tables(ctx, rng):
    """Plots of arrays of values"""
    from mlmc.plot import plots
    n_moments, n_levels, n = int(rng.integers(2, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 5))
    where = (n_moments, n_levels, n)
    with Shown(ctx) as shown:
        # Moment functions
        fn = (Legendre, Monomial, Fourier)[int(rng.integers(3))](int(rng.integers(2, 30)), (-1.5, 2))
        size = int(rng.integers(1, fn.size + 1))
        plots.moments(fn, size=size, title="moments", file="moments")
        fig, file = shown.files.pop()
        ctx.equal(os.path.basename(file), "moments.pdf", "file")
        lines = curves(fig.axes[0])
        ctx.equal(len(lines), size, "functions", (fn, size))
        for m, (x, y, _) in enumerate(lines):
            ctx.close([x.min(), x.max()], [-1.5, 2], "function-range")
            ctx.close(y, fn.eval_all(x)[:, m], "function", (type(fn).__name__, m), atol=1e-9)
        plt.close("all")

        # Means with variances
        means, variances = rng.normal(size=(n, n_moments)), rng.uniform(0, 1, (n, n_moments))
        exact = rng.normal(size=n_moments) if rng.integers(2) else None
        plots.plot_vars(means, variances, list(range(1, n + 1)), ex_moments=exact)
        ax = shown.figures.pop().axes[0]
        bars = [c for c in ax.containers if isinstance(c, ErrorbarContainer)]
        ctx.equal(len(bars), n, "means", where)
        for i, c in enumerate(bars):
            x, y, low, high = error_bars(c)
            ctx.close(y, means[i], "means", where)
            ctx.close([low, high], [means[i] - variances[i], means[i] + variances[i]], "variances", where, atol=1e-12)
            ctx.check(np.ptp(x - np.arange(n_moments)) < 1e-9 and abs(x[0]) < 0.8, "means-positions", (where, x))
            ctx.equal(c.get_label(), "{}LMC".format(i + 1), "means-label")
        if exact is not None:
            ctx.check(any(len(y) == len(exact) and np.allclose(y, exact) for _, y, _ in curves(ax)), "exact-moments", where)

        # Differences of variances by moments and by levels
        diff = rng.uniform(0.1, 2, (n, n_moments))
        levels = [int(k) for k in rng.permutation(12)[:n] + 1]
        plots.plot_diff_var_subsample(diff, levels)
        first, second = (f.axes[0] for f in shown.figures)
        shown.figures.clear()
        for ax, x, table in ((first, range(n_moments), diff), (second, levels, diff.T)):
            got = curves(ax)
            ctx.equal(len(got), len(table), "differences", where)
            for (gx, gy, _), row in zip(got, table):
                ctx.close(gx, list(x), "differences-x", where)
                ctx.close(gy, row, "differences", where)

        # Convergence
        class Result:
            def __init__(self):
                self.kl, self.l2 = rng.uniform(0.1, 1, 2)
        table = [[Result() for _ in range(n_moments)] for _ in range(n)]
        plots.plot_convergence([0.1 * i for i in range(n)], table, "convergence")
        fig, file = shown.files.pop()
        ctx.equal(os.path.basename(file), "convergence.pdf", "file")
        got = {l.get_label(): y for _, y, l in curves(fig.axes[0])}
        for i, row in enumerate(table):
            ctx.close(got["kl_q=" + str(0.1 * i)], [r.kl for r in row], "convergence-kl", where)
            ctx.close(got["l2_q=" + str(0.1 * i)], [r.l2 for r in row], "convergence-l2", where)
        plt.close("all")

        # Histograms of estimates
        arrays = [np.exp(rng.normal(size=50)) for _ in range(4)]
        plots.plot_n_sample_est_distributions("title", *arrays)
        fig = shown.figures.pop()
        ctx.equal(len(fig.axes), 4, "histograms")
        for ax, x in zip(fig.axes, arrays):
            bars = [(float(r.get_x()), float(r.get_width()), float(r.get_height())) for r in ax.patches]
            ctx.close(sum(w * h for _, w, h in bars), 1, "estimates-density")
            edges = np.array([b[0] for b in bars] + [x.max()])
            edges[0] = x.min()
            ctx.close([h for _, _, h in bars], np.histogram(x, edges)[0] / (len(x) * np.diff(edges)), "estimates-histogram", rtol=1e-7)
            lines = [float(np.ravel(l.get_xdata())[0]) for l in ax.lines]
            ctx.close(lines, [np.percentile(x, 99)], "estimates-percentile")
        ctx.event("plots", 6)
    ctx.state("tables", *where, type(fn).__name__, size)


@scenario("C30", quick=25, thorough=200)
def level_tables(ctx, rng):
    """Plots of level variances and their regression"""
    from mlmc.plot import plots
    n_moments, n_levels = int(rng.integers(2, 6)), int(rng.integers(2, 7))
    where = (n_moments, n_levels)
    v = np.exp(rng.normal(size=(n_levels, n_moments)))
    reg = np.exp(rng.normal(size=(n_levels, n_moments)))
    steps = np.geomspace(float(rng.uniform(0.5, 3)), float(rng.uniform(0.01, 0.2)), n_levels)
    with Shown(ctx) as shown:
        plots.plot_diff_var(v, n_moments, steps)
        ax = shown.figures.pop().axes[0]
        for m in range(1, n_moments):
            y = v[:, m] / steps ** 2
            got = [(gx, gy) for gx, gy, l in curves(ax) if l.get_label() == str(m)]
            ctx.equal(len(got), 1, "scaled-variances", where)
            ctx.close(got[0][0], steps[1:], "scaled-steps", where)
            ctx.close(got[0][1], y[1:], "scaled-variances", where)
            ctx.check(any(len(gx) == 1 and np.isclose(gx[0], steps[0]) and np.isclose(gy[0], y[0]) for gx, gy, _ in curves(ax)),
                      "scaled-first", where)

        plots.plot_var_regression(v, reg, n_levels, n_moments)
        ax = shown.figures.pop().axes[0]
        xy = points(ax)[0].reshape((n_levels, n_moments - 1, 2))
        ctx.close(xy[..., 1], v[:, 1:], "regression-points", where)
        for m, (x, y, _) in enumerate(curves(ax)):
            ctx.close(y, reg[:, m + 1], "regression", where)
            ctx.close(x, xy[:, m, 0], "regression-positions", where)
        ctx.check(np.all(np.floor(xy[..., 0] + 1e-9) == np.arange(n_levels)[:, None]), "regression-levels", (where, xy[..., 0]))

        diffs = [rng.normal(size=(n_levels, n_moments - 1)) for _ in range(int(rng.integers(1, 5)))]
        plots.plot_regression_diffs(diffs, n_moments)
        sets = points(shown.figures.pop().axes[0])
        ctx.equal(len(sets), n_moments - 1, "regression-differences", where)
        for m, xy in enumerate(sets):
            ctx.close(xy[:, 1], np.concatenate([d[:, m] for d in diffs]), "regression-differences", where)

        # Convergence of means and variances
        k, n_est = int(rng.integers(2, 5)), int(rng.integers(2, 8))
        targets = np.geomspace(1, 1e-3, k)
        vars_est, means_est, exact = rng.uniform(0.1, 1, (k, n_est, n_moments)), rng.normal(size=(k, n_est, n_moments)), rng.normal(size=n_moments)
        plots.plot_mlmc_conv(n_moments, vars_est, exact, means_est, targets)
        fig = shown.figures.pop()
        ctx.equal(len(fig.axes), n_moments - 1, "convergence-axes", where)
        for m, ax in enumerate(fig.axes, 1):
            expected = [np.var(means_est[:, :, m], axis=1)]
            for t in (vars_est[:, :, m], (exact[m] - means_est[:, :, m]) ** 2):
                q = np.percentile(t, [10, 50, 90], axis=1)
                expected += [q[1], q[0], q[2]]
            for (x, y, _), e in zip(curves(ax), expected):
                ctx.close(x, targets, "convergence-targets", where)
                ctx.close(y, e, "convergence", where)
            ctx.equal(len(curves(ax)), len(expected), "convergence-curves", where)
        ctx.event("plots", 4)

        # Bootstrap
        n, n_bs = rng.integers(1, 100, n_levels), rng.integers(1, 100, n_levels)
        p = plots.BSplots(n_samples=n, bs_n_samples=n_bs, n_moments=n_moments, ref_level_var=v)
        table = np.exp(rng.normal(size=(n_levels + 1, n_moments)))
        p.plot_bs_variances(table.copy())
        ax = shown.figures.pop().axes[0]
        check_scatter(ctx, ax, [table], n_moments, "bootstrap-variances", where)
        labels = [t.get_text().split() for t in ax.get_xticklabels()]
        ctx.equal(labels, [["Total"]] + ["L{:2d} {} {}".format(l + 1, b, a).split() for l, (a, b) in enumerate(zip(n, n_bs))],
                  "bootstrap-labels", where)
        mean, var = rng.normal(size=n_moments), rng.uniform(0.1, 1, n_moments)
        p.plot_means_and_vars(mean, var, n_levels)
        check_means(ctx, shown.figures.pop(), mean, var, where)
    ctx.state("levels", *where)


def check_scatter(ctx, ax, tables, n_moments, key, where):
    """Sets of points of moments 1, 2, .. for each table [level, moment]"""
    sets = points(ax)
    ctx.equal(len(sets), len(tables) * (n_moments - 1), key + "-sets", where)
    for i, xy in enumerate(sets):
        m = i % (n_moments - 1) + 1
        table = tables[i // (n_moments - 1)]
        ctx.close(xy[:, 1], table[:, m], key, where)
        ctx.equal([int(x) for x in np.floor(xy[:, 0] + 1e-9)], list(range(len(table))), key + "-levels", where)
    ctx.event("point-sets", len(sets))


def check_means(ctx, fig, mean, var, where):
    ax = [a for a in fig.axes if a.get_label() != "<colorbar>"][0]
    bars = [error_bars(c) for c in ax.containers if isinstance(c, ErrorbarContainer)]
    ctx.close([float(y[0]) for _, y, _, _ in bars], mean, "bootstrap-means", where)
    ctx.close([float(h[0] - l[0]) / 2 for _, _, l, h in bars], var, "bootstrap-means-var", where)
    ctx.check(np.all(np.diff([float(x[0]) for x, _, _, _ in bars]) > 0), "bootstrap-means-order", where)


@scenario("C30", quick=15, thorough=150)
def estimate_plots(ctx, rng):
    """Plots of bootstrap estimates of stored samples"""
    n_levels, size = int(rng.integers(3, 6)), int(rng.integers(3, 14))
    storage = gen.new_storage(str(rng.choice(["memory", "hdf"])), ctx.scratch, "plot.hdf5")
    fmt = [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["0"])]
    storage.save_global_data(result_format=fmt, level_parameters=[[2.0 ** -l] for l in range(n_levels)])
    numbers = [int(n) for n in rng.integers(20, 60, n_levels)]
    for l, n in enumerate(numbers):
        x = rng.uniform(0.05, 0.9, (n, 1))
        y = x + 0.05 * rng.uniform(size=x.shape)
        ids = [gen.sample_id(l, i) for i in range(n)]
        storage.save_scheduled_samples(l, ids)
        storage.save_samples({l: [(s, (a, b if l else 0 * b)) for s, a, b in zip(ids, x, y)]}, {})
    q = make_root_quantity(storage, fmt)["q"][1.0]["0"][0, 0]
    fn = Legendre(size, (0, 1))
    e = Estimate(q, storage, fn)
    vec = [int(rng.integers(5, n)) for n in numbers] if rng.integers(2) else None
    where = (n_levels, size, vec is not None)
    with Shown(ctx) as shown:
        import mlmc.plot.plots as plots
        figs = []
        show = matplotlib.figure.Figure.show
        matplotlib.figure.Figure.show = lambda fig, *a, **k: figs.append(fig)
        try:
            e.plot_variances(sample_vec=vec)
        finally:
            matplotlib.figure.Figure.show = show
        ctx.equal(len(figs), 1, "shown", where)
        tables = [(e.mean_bs_l_vars, np.array(vec or numbers))]
        seen = check_breakdown(ctx, figs[0], tables, "bootstrap-breakdown", where)
        # Level variances from the spread of level means of bootstrap samples
        check_references(ctx, figs[0], tables, [e.var_bs_l_means * tables[0][1][:, None]], seen, where)
        plt.close("all")
        e.plot_bs_var_log(sample_vec=vec)
        ctx.equal(len(shown.figures), 3, "bootstrap-figures", where)
        means, variances, regression = shown.figures
        check_means(ctx, means, e.mean_bs_mean[1:], e.mean_bs_var[1:], where)
        check_scatter(ctx, variances.axes[0], [np.concatenate((e.mean_bs_var[None, :], e.mean_bs_l_vars))], size, "bootstrap", where)
        l_vars = estimate_mean(moments_quantity(q, fn)).l_vars
        ax, ax_err = [a for a in regression.axes if a.get_label() != "<colorbar>"]
        sets = points(ax)
        ctx.equal(len(sets), 2 * size, "regression-sets", where)
        for i, xy in enumerate(sets):
            ctx.close(xy[:, 1], l_vars[:, i % size], "regression-sets", where)
        reg, _ = e.estimate_diff_vars_regression(numbers, fn)
        for m, (x, y, _) in enumerate(curves(ax)):
            ctx.close(y[-(n_levels - 2):], reg[2:, m], "regression-curve", where)
        with np.errstate(all="ignore"):
            for m, (x, y, _) in enumerate(curves(ax_err)):
                ctx.close(y[1:], (reg[:, m] / l_vars[:, m])[1:], "regression-error", where)
        ctx.event("plots", 4)
    ctx.state("estimate", *where)
