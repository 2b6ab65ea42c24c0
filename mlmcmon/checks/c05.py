"""C05: stored results are returned unaltered"""
import numpy as np
from mlmc.quantity.quantity_spec import ChunkSpec
from mlmcmon.core import scenario
from mlmcmon import gen

RULE = """Random programs of save calls (batches of any size, more levels in a call, failed samples among them, special
floating point values) interleaved with all ways of reading (all pairs, chunk by chunk, level chunks, first n samples,
explicit slices) on memory and file storage at once; a list model gives the expected rows, compared bitwise. A state
is a distinct (levels, result size, batch sizes, number of chunks)."""

SPECIAL = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, 1e-320, 1e308, -1e-308, 1 + 2 ** -52, 123456789.123456789])


def expected(model, level):
    d = np.array(model[level])
    return d[:, :1, :] if level == 0 else d


def bits(a):
    return np.ascontiguousarray(a, dtype=float).view(np.int64)


def same_bits(ctx, a, b, key, detail):
    a, b = np.asarray(a), np.asarray(b)
    nan = np.isnan(a) & np.isnan(b) if a.shape == b.shape else None
    ctx.check(a.shape == b.shape and bool(np.all((bits(a) == bits(b)) | nan)), key,
              lambda: "{} shapes {} {}: {} / {}".format(detail, a.shape, b.shape, a.ravel()[:8], b.ravel()[:8]))


def check_reads(ctx, rng, storage, model, kind):
    n_levels = len(model)
    pairs = storage.sample_pairs()
    ctx.equal(len(pairs), n_levels, "number-of-levels", kind)
    for level in range(n_levels):
        same_bits(ctx, gen.stored(pairs[level]), expected(model, level), "all-pairs", (kind, level))
    # Chunks of all levels are a partition
    got, keys = {}, []
    for spec in storage.chunks():
        chunk = gen.stored(storage.sample_pairs_level(spec))
        got.setdefault(int(spec.level_id), []).append(chunk)
        keys.append((int(spec.level_id), spec.chunk_id))
        ctx.event("chunks_read_" + kind)
    ctx.equal(len(set(keys)), len(keys), "chunk-id-repeated", kind)
    ctx.equal(sorted(got), list(range(n_levels)), "chunk-levels", kind)
    for level in range(n_levels):
        same_bits(ctx, np.concatenate(got[level]), expected(model, level), "chunks-partition", (kind, level))
        same_bits(ctx, gen.level_data(storage, level), expected(model, level), "level-chunks", (kind, level))
        n = len(model[level])
        k = int(rng.integers(1, n + 1))
        specs = list(storage.chunks(level_id=level, n_samples=k))
        ctx.equal(len(specs), 1, "first-n-chunks", (kind, level))
        same_bits(ctx, gen.stored(storage.sample_pairs_level(specs[0])), expected(model, level)[:k], "first-n", (kind, level, k))
        a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
        if b > a:
            part = storage.sample_pairs_level(ChunkSpec(level_id=level, chunk_slice=slice(a, b, 1)))
            same_bits(ctx, gen.stored(part), expected(model, level)[a:b], "slice", (kind, level, a, b))
    ctx.equal([int(x) for x in storage.get_n_collected()], [len(m) for m in model], "n-collected", kind)
    ctx.equal(sorted(int(x) for x in storage.get_level_ids()), list(range(n_levels)), "level-ids", kind)
    return len(keys)


@scenario("C05", quick=100, thorough=1200)
def programs(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 5)
    fmt = gen.random_format(rng, int(rng.choice([1, 4, 60])))
    size = gen.fmt_size(fmt)
    stores = {kind: gen.new_storage(kind, ctx.scratch) for kind in ("memory", "hdf")}
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    for s in stores.values():
        s.save_global_data(level_parameters=params, result_format=fmt)
    model = [[] for _ in range(n_levels)]
    batches, n_chunks = [], 0
    big = bool(rng.integers(2))
    for step in range(int(rng.integers(1, 8))):
        levels = [l for l in range(n_levels) if rng.random() < 0.7]
        if step == 0:
            levels = list(range(n_levels))
        success, failed = {}, {}
        for level in [int(l) for l in rng.permutation(levels)] if levels else []:
            n = int(rng.integers(1, 250 if big else 8))
            data = gen.random_data(rng, size, n, level)
            if rng.integers(2):
                where = rng.random(data.shape) < 0.1
                data[where] = rng.choice(SPECIAL, int(where.sum()))
            # Simulations may return also integers or single precision numbers
            dtype = [float, float, float, np.float32, np.int64][int(rng.integers(5))]
            if dtype is np.float32:
                with np.errstate(all="ignore"):
                    data = data.astype(np.float32).astype(float)
            elif dtype is np.int64:
                data = np.rint(rng.normal(size=data.shape) * 1000)
                data[:, 1] = 0.0 if level == 0 else data[:, 1]
                data = data + 0.0
            success[level] = [(gen.sample_id(level, len(model[level]) + i), (p[0], p[1])) for i, p in enumerate(data.astype(dtype))]
            model[level].extend(data.copy())
            batches.append((level, n))
        for level in range(n_levels):
            if rng.random() < 0.2:
                failed[level] = [(gen.sample_id(level, 10 ** 6 + step), "error")]
        for kind, s in stores.items():
            s.save_samples({l: list(v) for l, v in success.items()}, {l: list(v) for l, v in failed.items()})
        # Caller's arrays changed later do not change the stored values
        for items in success.values():
            for _, pair in items:
                pair[0][:] = -777
                pair[1][:] = -777
        if rng.random() < 0.15:
            stores["hdf"] = gen.new_storage("hdf", ctx.scratch)
            if rng.integers(2):
                stores["hdf"].save_global_data(level_parameters=params, result_format=fmt)
            ctx.event("reopenings")
        ctx.event("save_calls")
        ctx.event("samples_saved", sum(len(v) for v in success.values()))
        if rng.integers(2) or step == 0:
            for kind, s in stores.items():
                n_chunks = check_reads(ctx, rng, s, model, kind)
    for kind, s in stores.items():
        n_chunks = check_reads(ctx, rng, s, model, kind)
    ctx.state(n_levels, size, tuple(batches), n_chunks)
    ctx.note("levels {} size {} batches {} chunks in file {}".format(n_levels, size, batches[:8], n_chunks))


@scenario("C05", quick=40, thorough=400)
def storages_equal(ctx, rng):
    """Data filled to both storages give the same content, large results and many chunks included"""
    n_levels = gen.n_levels(rng, 1, 4)
    fmt = gen.random_format(rng, 60)
    size = gen.fmt_size(fmt)
    data = [gen.random_data(rng, size, int(rng.integers(1, 1500)), level) for level in range(n_levels)]
    stores = [gen.fill(gen.new_storage(kind, ctx.scratch), rng, fmt, data) for kind in ("memory", "hdf")]
    if rng.integers(2):
        stores[1] = gen.new_storage("hdf", ctx.scratch)
    for kind, s in zip(("memory", "hdf"), stores):
        n_chunks = check_reads(ctx, rng, s, data, kind)
    ctx.state(n_levels, size, tuple(len(d) for d in data), n_chunks)
