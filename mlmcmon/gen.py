"""Generators of workloads shared by the checks: result formats, samples, filled storages, recording storages."""
import os
import numpy as np
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec, ChunkSpec


def fmt_size(fmt):
    return int(sum(np.prod(q.shape) * len(q.times) * len(q.locations) for q in fmt))


def random_format(rng, max_size=60, n_quantities=None, coords=None, equal=False):
    """Random result format - list of QuantitySpec"""
    while True:
        n = int(n_quantities or rng.integers(1, 4))
        use_coords = bool(rng.integers(2)) if coords is None else coords
        fmt = []
        names = rng.permutation(["length", "width", "conductivity", "p", "q_flux", "T 1"])[:n]
        places = ["10", "20", "abc", "well", "P-1", "x"]
        if rng.random() < 0.15:
            # Long names and any characters
            names = rng.permutation(["průtok", "conductivity of the " + "very " * 12 + "long name", "ψ", "q" * 50, "q" * 51])[:n]
            places = ["místo č. 1", "borehole " * 9, "borehole " * 9 + "2", "w" * 50, "w" * 51, "x"]
        common_t, common_l = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        for name in names:
            n_t = common_t if equal else int(rng.integers(1, 4))
            n_l = common_l if equal else int(rng.integers(1, 4))
            times = sorted(set(np.round(rng.uniform(0, 10, n_t), 3))) if rng.integers(2) else \
                list(np.cumsum(rng.integers(1, 4, n_t)))
            times = [float(t) for t in times] if rng.integers(2) else [t.item() if hasattr(t, "item") else t for t in times]
            if rng.random() < 0.25:
                times = [times[i] for i in rng.permutation(len(times))]
            if use_coords:
                locations = [tuple(float(x) for x in np.round(rng.uniform(-5, 5, 3), 2)) for _ in range(n_l)]
            else:
                locations = [str(x) for x in rng.permutation(places)[:n_l]]
            shape = (int(rng.integers(1, 4)), int(rng.integers(1, 3)))
            fmt.append(QuantitySpec(name=str(name), unit=str(rng.choice(["m", "kg", "1", "m/s", "m³·s⁻¹"])), shape=shape,
                                    times=times, locations=locations))
        if fmt_size(fmt) <= max_size:
            return fmt


def simple_format(size=1):
    return [QuantitySpec(name="q", unit="m", shape=(size, 1), times=[1.0], locations=['0'])]


def sample_id(level, i):
    return "L{:02d}_S{:07d}".format(level, i)


def random_data(rng, size, n, level, nan_prob=0.0, scale=1.0):
    """n result pairs, shape (n, 2, size); coarse part of the level 0 are zeros"""
    fine = rng.normal(size=(n, size)) * scale + rng.normal()
    coarse = fine * 0.9 + 0.1 * rng.normal(size=(n, size)) * scale
    if level == 0:
        coarse = np.zeros_like(fine)
    data = np.stack([fine, coarse], axis=1)
    if nan_prob > 0 and n:
        which = rng.random(n) < nan_prob
        for i in np.nonzero(which)[0]:
            j = 0 if level == 0 else int(rng.integers(2))
            data[i, j, int(rng.integers(size))] = np.nan
    return data


def save_pairs(storage, level, data, start=0):
    """Save pairs of data (n, 2, size) as successful samples"""
    if len(data):
        storage.save_samples({level: [(sample_id(level, start + i), (pair[0].copy(), pair[1].copy()))
                                      for i, pair in enumerate(data)]}, {})


def fill(storage, rng, fmt, data, batches=None, level_parameters=None):
    """
    Save data of all levels (list of arrays (n, 2, size)), split to random batches that are interleaved among levels
    """
    if level_parameters is None:
        level_parameters = [[1.0 / 2 ** i] for i in range(len(data))]
    storage.save_global_data(level_parameters=level_parameters, result_format=fmt)
    for level, d in enumerate(data):
        storage.save_scheduled_samples(level, [sample_id(level, i) for i in range(len(d))])
    parts = []
    for level, d in enumerate(data):
        n_b = int(rng.integers(1, 5)) if batches is None else batches
        cuts = np.sort(rng.integers(0, len(d) + 1, n_b - 1))
        bounds = [0, *cuts, len(d)]
        parts.append([(int(a), int(b)) for a, b in zip(bounds[:-1], bounds[1:]) if b > a])
    while any(parts):
        level = int(rng.choice([i for i, p in enumerate(parts) if p]))
        a, b = parts[level].pop(0)
        save_pairs(storage, level, data[level][a:b], start=a)
    return storage


def new_storage(kind, scratch, name="mlmc.hdf5"):
    if kind == "memory":
        return Memory()
    return SampleStorageHDF(file_path=os.path.join(scratch, name))


def stored(pairs):
    """Storage layout [M, n, 2 or 1] -> (n, 2 or 1, M)"""
    return np.transpose(np.asarray(pairs), (1, 2, 0))


class Recorder:
    """Mixin recording the calls of the storage interface at its boundary"""

    def _rec(self, *event):
        self.__dict__.setdefault("log", []).append(event)

    def save_samples(self, successful, failed):
        self._rec("save", {l: list(s) for l, s in successful.items()}, {l: list(s) for l, s in failed.items()})
        return super().save_samples(successful, failed)

    def save_scheduled_samples(self, level_id, samples):
        self._rec("scheduled", level_id, list(samples))
        return super().save_scheduled_samples(level_id, samples)

    def save_n_ops(self, n_ops):
        items = list(n_ops.items()) if isinstance(n_ops, dict) else list(n_ops)
        self._rec("n_ops", [(l, tuple(v)) for l, v in items])
        return super().save_n_ops(n_ops)

    def events(self, kind):
        return [e[1:] for e in self.__dict__.get("log", []) if e[0] == kind]

    def saved_successful(self):
        return [(l, sid, pair) for succ, _ in self.events("save") for l, items in succ.items() for sid, pair in items]

    def saved_failed(self):
        return [(l, sid, msg) for _, fail in self.events("save") for l, items in fail.items() for sid, msg in items]


class RecMemory(Recorder, Memory):
    pass


class RecHDF(Recorder, SampleStorageHDF):
    pass


def rec_storage(kind, scratch, name="mlmc.hdf5"):
    return RecMemory() if kind == "memory" else RecHDF(os.path.join(scratch, name))


def level_data(storage, level):
    """All pairs of a level through chunks, (n, 1 or 2, M)"""
    parts = [storage.sample_pairs_level(spec) for spec in storage.chunks(level_id=level)]
    return np.concatenate([stored(p) for p in parts], axis=0)


def n_levels(rng, low, high):
    """Number of levels, rarely with more digits of the level id"""
    return int(rng.integers(11, 14)) if rng.random() < 0.06 else int(rng.integers(low, high))
