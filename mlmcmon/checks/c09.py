"""C09: renewal of failed samples"""
import os
from collections import Counter
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmcmon.core import scenario
from mlmcmon import gen, sims, pools

RULE = """Runs where samples fail at the first, or the first few, attempts; failed samples are renewed repeatedly with in-process,
process, thread and harness-controlled pools over both storages (also after reopening). Scheduled ids, failed ids and the
stored results are compared with the fault history. A state is a distinct (pool, storage, failed counts per round)."""


def renew_and_check(ctx, storage, sampler, pool, n_levels, where, wait=True):
    failed = {int(l): list(ids) for l, ids in storage.failed_samples().items()}
    n_col = [int(x) for x in storage.get_n_collected()]
    n_fin = [int(x) for x in storage.n_finished()]
    scheduled = {l: list(ids) for l, ids in storage.load_scheduled_samples().items()}
    calls = []
    orig = pool.schedule_sample

    def recorded(sample_id, level_sim):
        calls.append((sample_id, level_sim.config_dict["fine"]))
        return orig(sample_id, level_sim)
    pool.schedule_sample = recorded
    try:
        sampler.renew_failed_samples()
    finally:
        del pool.schedule_sample
    expected = sorted(sid for ids in failed.values() for sid in ids)
    ctx.equal(sorted(sid for sid, _ in calls), expected, "renewed-ids", where)
    level_of = {sid: l for l, ids in failed.items() for sid in ids}
    for sid, fine in calls:
        ctx.equal(fine, 1.0 / (level_of[sid] + 1), "renewed-by-other-level", sid)
    ctx.equal(sum(len(ids) for ids in storage.failed_samples().values()), 0, "failed-not-cleared", where)
    ctx.equal([int(x) for x in storage.get_n_collected()], n_col, "collected-changed", where)
    ctx.equal([int(x) for x in storage.n_finished()], [n - len(failed.get(l, [])) for l, n in enumerate(n_fin)],
              "finished-after-renewal", where)
    ctx.equal({l: list(ids) for l, ids in storage.load_scheduled_samples().items()}, scheduled, "scheduled-changed", where)
    ctx.event("renewed", len(expected))
    return len(expected)


def final_check(ctx, storage, sim, params, n_levels, bad_ids, where):
    """All samples but bad_ids are collected exactly once with the right result"""
    rows = []
    success = storage.saved_successful()
    ids = Counter(sid for _, sid, _ in success)
    ctx.check(all(n == 1 for n in ids.values()), "collected-twice", where)
    scheduled = storage.load_scheduled_samples()
    all_ids = [sid for l in scheduled for sid in scheduled[l]]
    ctx.equal(sorted(ids), sorted(set(all_ids) - set(bad_ids)), "collected-ids", where)
    ctx.equal(sorted(sid for l in storage.failed_samples().values() for sid in l), sorted(bad_ids), "still-failed", where)
    for level, sid, pair in success:
        ref = sims.expected_pair(sim, params, level, SamplingPool.compute_seed(sid))
        ctx.same(pair[0], ref[0], "result-after-renewal", (where, sid))
        ctx.same(pair[1], ref[1], "result-after-renewal", (where, sid))
    for level in range(n_levels):
        ref = [np.stack(p) for l, _, p in success if l == level]
        if ref:
            ref = np.array(ref)
            ctx.same(gen.level_data(storage, level), ref[:, :1] if level == 0 else ref, "stored", (where, level))
        ctx.equal(int(storage.n_finished()[level]), len(scheduled.get(level, [])), "all-finished", (where, level))


@scenario("C09", quick=60, thorough=700)
def controlled(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 5)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    kind = str(rng.choice(["memory", "hdf"]))
    attempts = Counter()
    # Number of attempts that fail for each sample
    n_bad = {}

    def fail(sid):
        attempts[sid] += 1
        if sid not in n_bad:
            n_bad[sid] = int(rng.choice([0, 0, 1, 2, 9]))
        return "failed {}".format(attempts[sid]) if attempts[sid] <= n_bad[sid] else None
    result = lambda sid, ls: sims.values(ls.config_dict, SamplingPool.compute_seed(sid))
    pool = pools.NullPool(rng=rng, hold=float(rng.choice([0.0, 0.4])), fail=fail, result=result)
    storage = gen.rec_storage(kind, ctx.scratch)
    sim = sims.DetSim(fmt=gen.random_format(rng, 8))
    sampler = Sampler(storage, pool, sim, params)
    target = np.zeros(n_levels)
    counts = []
    for _ in range(int(rng.integers(2, 5))):
        target = target + rng.integers(0, 7, n_levels)
        sampler.set_level_target_n_samples(target)
        sampler.schedule_samples(timeout=1e-15)
        sampler.ask_sampling_pool_for_samples(timeout=1e-15 if rng.integers(2) else None)
        if kind == "hdf" and rng.integers(2):
            log = storage.log
            sampler.ask_sampling_pool_for_samples()
            storage = gen.rec_storage(kind, ctx.scratch)
            storage.log = log
            sampler = Sampler(storage, pool, sim, params)
        counts.append(renew_and_check(ctx, storage, sampler, pool, n_levels, kind))
        sampler.ask_sampling_pool_for_samples(timeout=1e-15 if rng.integers(2) else None)
    sampler.ask_sampling_pool_for_samples()
    bad = [sid for sid in attempts if attempts[sid] <= n_bad[sid]]
    final_check(ctx, storage, sim, params, n_levels, bad, kind)
    ctx.state(kind, n_levels, tuple(counts))
    ctx.note("{} levels {} renewed per round {} still failed {}".format(kind, n_levels, counts, len(bad)))


@scenario("C09", quick=36, thorough=400)
def real_pools(ctx, rng):
    """Samples fail at the first attempt only; after one renewal everything is collected"""
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    kind = str(rng.choice(["memory", "hdf"]))
    pool_kind = str(rng.choice(["one", "process", "thread", "pbs"], p=[0.3, 0.3, 0.25, 0.15]))
    marker = os.path.join(ctx.scratch, "marker")
    os.makedirs(marker)
    sim = sims.DetSim(fmt=gen.random_format(rng, 8), marker_dir=marker, table=["ok", "raise", "zero_div", "short", "unicode"])
    storage = gen.rec_storage(kind, ctx.scratch)
    pool = pools.make_pool(pool_kind, int(rng.integers(1, 4)), scratch=ctx.scratch)
    try:
        sampler = Sampler(storage, pool, sim, params)
        sampler.set_level_target_n_samples(rng.integers(0, 15, n_levels))
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        first = [sid for _, sid, _ in storage.saved_failed()]
        ref = [sid for ids in storage.load_scheduled_samples().values() for sid in ids
               if sims.expected_outcome(sim, SamplingPool.compute_seed(sid)) != "ok"]
        ctx.equal(sorted(first), sorted(ref), "failed-first")
        n = renew_and_check(ctx, storage, sampler, pool, n_levels, pool_kind)
        sampler.ask_sampling_pool_for_samples()
        final_check(ctx, storage, sim, params, n_levels, [], (pool_kind, kind))
        # Nothing to renew
        ctx.equal(renew_and_check(ctx, storage, sampler, pool, n_levels, pool_kind), 0, "renewed-nothing")
    finally:
        pools.close_pool(pool)
    ctx.state(pool_kind, kind, n, n_levels)
