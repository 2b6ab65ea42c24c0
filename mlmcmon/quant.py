"""Reference evaluation of quantities: plain numpy on the raw data"""
import numpy as np
from mlmcmon import gen


class Case:
    """Storage filled with random data and the raw data in the layout [M, n, 1 or 2] for each level"""

    def __init__(self, ctx, rng, kind=None, fmt=None, n_levels=None, n_range=(1, 60), nan_prob=0.0, scale=1.0, name="mlmc.hdf5",
                 positive=False, data=None):
        self.kind = kind or str(rng.choice(["memory", "hdf"]))
        self.fmt = fmt or gen.random_format(rng, 24)
        self.size = gen.fmt_size(self.fmt)
        self.n_levels = n_levels or gen.n_levels(rng, 1, 5)
        if data is None:
            data = [gen.random_data(rng, self.size, int(rng.integers(*n_range)), l, nan_prob, scale) for l in range(self.n_levels)]
            if positive:
                data = [np.abs(d) + 0.1 for d in data]
                data[0][:, 1] = 0.0
        self.data = data
        self.storage = gen.fill(gen.new_storage(self.kind, ctx.scratch, name), rng, self.fmt, self.data)
        # Estimates are usually done over a reopened file, with the format found there
        if self.kind == "hdf" and rng.random() < 0.3:
            self.storage = gen.new_storage(self.kind, ctx.scratch, name)
        self.root_fmt = self.storage.load_result_format() if rng.random() < 0.4 else self.fmt
        self.raw = [np.transpose(d[:, :1] if l == 0 else d, (2, 0, 1)) for l, d in enumerate(self.data)]

    def offset(self, q_name, time=None, location=None):
        """Slice of the flat result of quantity, time, location"""
        start = 0
        for q in self.fmt:
            size = int(np.prod(q.shape))
            total = size * len(q.times) * len(q.locations)
            if q.name == q_name:
                if time is None:
                    return slice(start, start + total), q
                start += list(q.times).index(time) * size * len(q.locations)
                if location is None:
                    return slice(start, start + size * len(q.locations)), q
                start += list(q.locations).index(location) * size
                return slice(start, start + size), q
            start += total


def samples(storage, quantity, level):
    """All values of quantity on the level, [M, n, 1 or 2]"""
    parts = [np.asarray(quantity.samples(spec)) for spec in storage.chunks(level_id=level)]
    return np.concatenate(parts, axis=-2)


def valid(values):
    """Samples without NaN; values [M, n, k]"""
    return ~np.isnan(values).any(axis=(0, 2))


def ref_estimate(values):
    """
    MLMC estimate by definition
    :param values: list of arrays [M, n, k] for each level
    :return: dict(mean, var, l_means, l_vars, n, n_rm)
    """
    l_means, l_vars, n, n_rm = [], [], [], []
    for level, v in enumerate(values):
        ok = valid(v)
        v = v[:, ok]
        d = v[:, :, 0] if level == 0 else v[:, :, 0] - v[:, :, 1]
        n.append(d.shape[1])
        n_rm.append(int(np.sum(~ok)))
        l_means.append(d.mean(axis=1) if d.shape[1] else np.full(d.shape[0], np.nan))
        l_vars.append(d.var(axis=1, ddof=1) if d.shape[1] > 1 else np.full(d.shape[0], np.inf))
    l_means, l_vars = np.array(l_means), np.array(l_vars)
    return dict(mean=l_means.sum(axis=0), var=(l_vars / np.array(n)[:, None]).sum(axis=0), l_means=l_means, l_vars=l_vars,
                n=n, n_rm=n_rm)


def scale_of(values):
    return max([1e-30] + [float(np.nanmax(np.abs(v))) if v.size and not np.all(np.isnan(v)) else 0.0 for v in values])
