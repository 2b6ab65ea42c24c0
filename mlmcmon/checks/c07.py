"""C07: sample counts add up at any moment"""
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmcmon.core import scenario
from mlmcmon import gen, sims, pools

RULE = """Sampler runs with a pool that finishes, fails and holds samples at random (and with real pools), over both storages;
after every step the scheduled, collected, failed, finished and unfinished numbers and ids reported by the storage and
sampler are compared with the recorded history. A state is a distinct vector of counts of all levels."""


def check_counts(ctx, storage, sampler, scheduled, n_levels, kind, where):
    success = storage.saved_successful()
    failed_rec = storage.saved_failed()
    cleared = getattr(storage, "cleared", [])
    loaded = storage.load_scheduled_samples()
    failed_now = storage.failed_samples()
    finished, collected = storage.n_finished(), storage.get_n_collected()
    ctx.equal(len(finished), n_levels, "n-finished-length", where)
    ctx.equal(len(collected), n_levels, "n-collected-length", where)
    unfinished = list(storage.unfinished_ids())
    sig = []
    for level in range(n_levels):
        ids = set(loaded.get(level, []))
        ok = [sid for l, sid, _ in success if l == level]
        bad = [sid for l, sid, _ in failed_rec if l == level]
        for sid in cleared:
            if sid in bad:
                bad.remove(sid)
        n_s = len(loaded.get(level, []))
        ctx.equal(n_s, len(ids), "scheduled-repeated", (where, level))
        ctx.equal(int(collected[level]), len(ok), "collected-count", (where, level))
        ctx.equal(sorted(failed_now.get(str(level), [])), sorted(bad), "failed-ids", (where, level))
        ctx.equal(int(finished[level]), len(ok) + len(bad), "finished-is-collected-plus-failed", (where, level))
        ctx.check(not set(ok) & set(bad), "collected-and-failed", (where, level))
        ctx.check(int(finished[level]) <= n_s, "finished-more-than-scheduled", (where, level))
        if kind == "hdf":
            level_unf = [sid for sid in unfinished if sid in ids]
            ctx.equal(sorted(level_unf), sorted(ids - set(ok) - set(bad)), "unfinished-ids", (where, level))
            ctx.equal(n_s, int(collected[level]) + len(failed_now.get(str(level), [])) + len(level_unf),
                      "scheduled-is-sum", (where, level))
        sig.append((n_s, len(ok), len(bad)))
    if kind == "hdf":
        ctx.equal(len(unfinished), len(set(unfinished)), "unfinished-repeated", where)
    if sampler is not None:
        ctx.same(np.asarray(sampler.n_finished_samples, dtype=int), np.asarray(finished, dtype=int), "sampler-n-finished", where)
    ctx.state(kind, tuple(sig))
    ctx.event("states_checked")
    return sig


@scenario("C07", quick=100, thorough=1200)
def steps(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 5)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    kind = str(rng.choice(["memory", "hdf"]))
    p_fail = float(rng.choice([0.0, 0.3, 1.0]))
    if rng.random() < 0.5:
        only = int(rng.integers(n_levels))
        fail = lambda sid: "err" if sid.startswith("L{:02d}".format(only)) and rng.random() < p_fail else None
    else:
        fail = lambda sid: "err" if rng.random() < p_fail else None
    pool = pools.NullPool(rng=rng, hold=float(rng.choice([0.0, 0.5, 0.9])), fail=fail,
                          result=lambda sid, ls: sims.values(ls.config_dict, SamplingPool.compute_seed(sid)))
    storage = gen.rec_storage(kind, ctx.scratch)
    sim = sims.DetSim(fmt=gen.random_format(rng, 8))
    sampler = Sampler(storage, pool, sim, params)
    sig = check_counts(ctx, storage, sampler, [], n_levels, kind, "start")
    ops = []
    for _ in range(int(rng.integers(3, 12))):
        op = str(rng.choice(["schedule", "ask", "ask", "renew"]))
        ops.append(op)
        if op == "schedule":
            target = np.array([int(x) for x in sampler.l_scheduled_samples()]) + rng.integers(0, 6, n_levels) * (rng.random(n_levels) < 0.6)
            sampler.set_level_target_n_samples(target)
            sampler.schedule_samples(timeout=1e-15)
        elif op == "ask":
            sampler.ask_sampling_pool_for_samples(timeout=1e-15)
        else:
            failed = [sid for ids in storage.failed_samples().values() for sid in ids]
            sampler.renew_failed_samples()
            storage.__dict__.setdefault("cleared", []).extend(failed)
            ctx.event("renewals")
        sig = check_counts(ctx, storage, sampler, None, n_levels, kind, ops)
    pool.hold = 0.0
    sampler.ask_sampling_pool_for_samples()
    sig = check_counts(ctx, storage, sampler, None, n_levels, kind, "end")
    ctx.equal([s[0] for s in sig], [s[1] + s[2] for s in sig], "not-all-finished")
    ctx.note("{} {} -> (scheduled, collected, failed) {}".format(kind, ops, sig))


@scenario("C07", quick=24, thorough=300)
def real_pools(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    kind = str(rng.choice(["memory", "hdf"]))
    pool_kind = str(rng.choice(["one", "process", "thread", "pbs"], p=[0.3, 0.3, 0.25, 0.15]))
    sim = sims.DetSim(table=[None, ["ok", "raise"], ["raise"]][int(rng.integers(3))], delay=float(rng.choice([0, 0.003])))
    storage = gen.rec_storage(kind, ctx.scratch)
    pool = pools.make_pool(pool_kind, 3, scratch=ctx.scratch)
    try:
        sampler = Sampler(storage, pool, sim, params)
        for _ in range(int(rng.integers(1, 4))):
            sampler.set_level_target_n_samples(np.array(sampler.l_scheduled_samples()) + rng.integers(0, 10, n_levels))
            sampler.schedule_samples(timeout=1e-15)
            for _ in range(int(rng.integers(1, 4))):
                sampler.ask_sampling_pool_for_samples(timeout=0.002)
                check_counts(ctx, storage, sampler, None, n_levels, kind, pool_kind)
        sampler.ask_sampling_pool_for_samples()
        sig = check_counts(ctx, storage, sampler, None, n_levels, kind, pool_kind)
        ctx.equal([s[0] for s in sig], [s[1] + s[2] for s in sig], "not-all-finished")
    finally:
        pools.close_pool(pool)
