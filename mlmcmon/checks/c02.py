"""C02: every scheduled sample is collected exactly once"""
import contextlib
import os
import time
from collections import Counter
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmcmon.core import scenario
from mlmcmon import gen, sims, pools

RULE = """Random runs of the real pools (in-process, processes, threads) with random sample delays, failures, numbers of
workers, several scheduling rounds and polling patterns, thread switching every microsecond and delays injected between
the executed lines of the pool code. The history recorded at the storage and pool boundary is checked for exactly-once
delivery, level, value and the running count. A state is a distinct (pool, storage, workers, batch size sequence)."""
ASSUMPTIONS = ["interleavings are those produced by the scheduler, the switch interval and the injected delays"]


def check_history(ctx, scheduled, successful, failed, sim, params, where):
    """
    scheduled: Dict[level, List[id]]; successful: List[(level, id, pair)]; failed: List[(level, id, message)]
    """
    delivered = Counter([sid for _, sid, _ in successful] + [sid for _, sid, _ in failed])
    all_ids = [sid for ids in scheduled.values() for sid in ids]
    lost = [sid for sid in all_ids if delivered[sid] == 0]
    ctx.check(not lost, "lost-sample", lambda: "{} lost {} of {}: {}".format(where, len(lost), len(all_ids), lost[:5]))
    more = [sid for sid, n in delivered.items() if n > 1]
    ctx.check(not more, "duplicated-sample", lambda: "{} {}".format(where, more[:5]))
    unknown = set(delivered) - set(all_ids)
    ctx.check(not unknown, "unknown-sample", lambda: "{} {}".format(where, list(unknown)[:5]))
    level_of = {sid: level for level, ids in scheduled.items() for sid in ids}
    for level, sid, pair in successful:
        ctx.equal(level, level_of[sid], "wrong-level", (where, sid))
        seed = SamplingPool.compute_seed(sid)
        ctx.equal(sims.expected_outcome(sim, seed), "ok", "failed-sample-collected", (where, sid))
        ref = sims.expected_pair(sim, params, level, seed)
        ctx.same(pair[0], ref[0], "wrong-fine-result", (where, sid))
        ctx.same(pair[1], ref[1], "wrong-coarse-result", (where, sid))
    for level, sid, message in failed:
        ctx.equal(level, level_of[sid], "wrong-level-failed", (where, sid))
        ctx.check(sims.expected_outcome(sim, SamplingPool.compute_seed(sid)) != "ok", "good-sample-failed",
                  lambda: "{} {} {}".format(where, sid, message))


def check_stored(ctx, storage, successful, failed, n_levels, where):
    """Content of the storage corresponds with the recorded history"""
    n_succ = Counter(l for l, _, _ in successful)
    n_fail = Counter(l for l, _, _ in failed)
    for level in range(n_levels):
        ctx.equal(int(storage.get_n_collected()[level]), n_succ[level], "n-collected", (where, level))
        ctx.equal(int(storage.n_finished()[level]), n_succ[level] + n_fail[level], "n-finished", (where, level))
        if n_succ[level]:
            rows = gen.level_data(storage, level)
            ref = np.array([np.stack(pair) for l, _, pair in successful if l == level])
            if level == 0:
                ref = ref[:, :1, :]
            ctx.same(rows, ref, "stored-values", (where, level))


def run_rounds(ctx, rng, pool, pool_kind, storage, sim, params, n_max, sleep_poll=0.0):
    sampler = Sampler(storage, pool, sim, params)
    n_levels = len(params)
    target = np.zeros(n_levels)
    sizes = []
    for _ in range(int(rng.integers(1, 4))):
        target = target + rng.integers(0, n_max, n_levels)
        sampler.set_level_target_n_samples(target)
        sampler.schedule_samples(timeout=[None, 1e-15, 0.005][int(rng.integers(3))])
        for _ in range(int(rng.integers(0, 4))):
            n_running = sampler.ask_sampling_pool_for_samples(timeout=float(rng.choice([1e-15, 0.002, 0.01])),
                                                              sleep=sleep_poll)
            n_del = len(storage.saved_successful()) + len(storage.saved_failed())
            ctx.equal(int(n_running), int(np.sum(target)) - n_del, "running-count",
                      "running samples are those scheduled and not delivered")
    n_running = sampler.ask_sampling_pool_for_samples()
    ctx.equal(int(n_running), 0, "running-after-wait")
    for succ, fail in storage.events("save"):
        sizes.append(sum(map(len, succ.values())) + sum(map(len, fail.values())))
    successful, failed = storage.saved_successful(), storage.saved_failed()
    scheduled = storage.load_scheduled_samples()
    ctx.equal([len(scheduled.get(l, [])) for l in range(n_levels)], [int(x) for x in target], "n-scheduled")
    check_history(ctx, scheduled, successful, failed, sim, params, pool_kind)
    check_stored(ctx, storage, successful, failed, n_levels, pool_kind)
    # Nothing comes later
    sampler.ask_sampling_pool_for_samples()
    ctx.equal(len(storage.saved_successful()) + len(storage.saved_failed()), len(successful) + len(failed), "late-result")
    ctx.event("samples_delivered", len(successful) + len(failed))
    ctx.event("samples_failed", len(failed))
    ctx.event("polls", len(sizes))
    return sizes


@scenario("C02", quick=72, thorough=900)
def random_runs(ctx, rng):
    pool_kind = str(rng.choice(["one", "process", "thread"]))
    kind = str(rng.choice(["memory", "hdf"]))
    n_levels = gen.n_levels(rng, 1, 5)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    table = [None, ["ok", "ok", "raise"], ["raise", "zero_div", "ok", "short"], ["raise"]][int(rng.integers(4))]
    sim = sims.DetSim(fmt=gen.random_format(rng, 12), table=table, delay=float(rng.choice([0, 0, 0.004])))
    n = int(rng.integers(1, 5))
    storage = gen.rec_storage(kind, ctx.scratch)
    pool = pools.make_pool(pool_kind, n)
    try:
        with pools.switch_interval(float(rng.choice([0.005, 1e-6]))):
            sizes = run_rounds(ctx, rng, pool, pool_kind, storage, sim, params, 20)
    finally:
        pools.close_pool(pool)
    ctx.state(pool_kind, kind, n, tuple(sizes))
    ctx.note("{} x{} {} table {} delivered in polls {}".format(pool_kind, n, kind, table, sizes))


@scenario("C02", quick=32, thorough=400)
def injected_delays(ctx, rng):
    """Delays between lines of the pool code in the polling thread, worker threads and result handlers"""
    pool_kind = str(rng.choice(["process", "thread"]))
    params = [[1.0], [0.5], [0.25]][:int(rng.integers(1, 4))]
    sim = sims.DetSim(table=[None, ["ok", "raise"]][int(rng.integers(2))])
    storage = gen.rec_storage("memory", ctx.scratch)
    inject = pools.DelayInjector(int(rng.integers(2 ** 31)), ("mlmc/sampling_pool.py",), prob=float(rng.choice([0.05, 0.3])))
    with inject, pools.switch_interval(1e-6):
        pool = pools.make_pool(pool_kind, int(rng.integers(2, 6)))
        try:
            sizes = run_rounds(ctx, rng, pool, pool_kind, storage, sim, params, 40, sleep_poll=float(rng.choice([0, 0.0005])))
        finally:
            pools.close_pool(pool)
    ctx.event("delays_injected", inject.n_delays)
    ctx.state(pool_kind, tuple(sizes))


@scenario("C02", quick=24, thorough=300)
def drain_race(ctx, rng):
    """Continuous draining of the pool while many short samples are finishing"""
    pool_kind = str(rng.choice(["thread", "thread", "process"]))
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    sim = sims.DetSim(table=[None, ["ok", "ok", "ok", "raise"]][int(rng.integers(2))])
    storage = gen.rec_storage("memory", ctx.scratch)
    pool = pools.make_pool(pool_kind, int(rng.integers(2, 9)))
    successful, failed, n_sched, batches = [], [], 0, 0
    try:
        with pools.switch_interval(1e-6):
            sampler = Sampler(storage, pools.NullPool(), sim, params)
            level_sims = {}
            recorder = pools.NullPool()
            Sampler(gen.RecMemory(), recorder, sim, params).n_levels
            helper = Sampler(gen.RecMemory(), recorder, sim, params)
            helper.set_level_target_n_samples([1] * n_levels)
            helper.schedule_samples()
            for _, level_sim in recorder.scheduled:
                level_sims[level_sim.config_dict["fine"]] = level_sim
            level_sims = [level_sims[p[0]] for p in params]
            scheduled = {level: [] for level in range(n_levels)}
            n_running = 0
            todo = [(level, gen.sample_id(level, i)) for i in range(int(rng.integers(50, 200))) for level in range(n_levels)]
            while todo or n_running > 0:
                for _ in range(min(len(todo), int(rng.integers(0, 4)))):
                    level, sid = todo.pop()
                    scheduled[level].append(sid)
                    pool.schedule_sample(sid, level_sims[level])
                    n_sched += 1
                succ, fail, n_running, _ = pool.get_finished()
                successful.extend((l, sid, pair) for l, items in succ.items() for sid, pair in items)
                failed.extend((l, sid, msg) for l, items in fail.items() for sid, msg in items)
                batches += 1
                ctx.equal(int(n_running), n_sched - len(successful) - len(failed), "running-count")
    finally:
        pools.close_pool(pool)
    check_history(ctx, scheduled, successful, failed, sim, params, pool_kind)
    ctx.event("polls", batches)
    ctx.event("samples_delivered", len(successful) + len(failed))
    ctx.state(pool_kind, n_sched, batches)


@scenario("C02", quick=8, thorough=60, timeout=120)
def large_batches(ctx, rng):
    """Thousands of samples finish before the pool is asked for the first time"""
    pool_kind = str(rng.choice(["one", "one", "thread", "process"]))
    n_levels = int(rng.integers(1, 3))
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    sim = sims.DetSim(table=[None, ["ok", "raise"], ["raise", "raise", "ok"], ["zero_div"]][int(rng.integers(4))])
    storage = gen.rec_storage(str(rng.choice(["memory", "hdf"])), ctx.scratch)
    pool = pools.make_pool(pool_kind, int(rng.integers(2, 5)))
    n_max = 3000 if pool_kind == "one" else 1500
    try:
        sampler = Sampler(storage, pool, sim, params)
        target = rng.integers(n_max // 3, n_max, n_levels)
        sampler.set_level_target_n_samples(target)
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            sampler.schedule_samples()
            if rng.integers(2):
                time.sleep(float(rng.choice([0.1, 0.5])))
            # All samples are finished before schedule_samples() returns in the sequential pool
            n_running = sampler.ask_sampling_pool_for_samples(timeout=5 if pool_kind == "one" else 60)
        ctx.equal(int(n_running), 0, "running-after-wait", pool_kind)
        successful, failed = storage.saved_successful(), storage.saved_failed()
        scheduled = storage.load_scheduled_samples()
        ctx.equal([len(scheduled.get(l, [])) for l in range(n_levels)], [int(x) for x in target], "n-scheduled")
        check_history(ctx, scheduled, successful, failed, sim, params, pool_kind)
        check_stored(ctx, storage, successful, failed, n_levels, pool_kind)
        ctx.equal([int(x) for x in sampler.n_finished_samples], [int(x) for x in target], "n-finished", pool_kind)
    finally:
        pools.close_pool(pool)
    ctx.event("samples_delivered", len(successful) + len(failed))
    ctx.event("samples_failed", len(failed))
    ctx.event("polls", len(storage.events("save")))
    ctx.state(pool_kind, tuple(target), len(failed))


@scenario("C02", quick=60, thorough=800)
def reordered_delivery(ctx, rng):
    """Samples delivered in any order and any split of polls are stored once"""
    n_levels = gen.n_levels(rng, 1, 5)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    kind = str(rng.choice(["memory", "hdf"]))
    sim = sims.DetSim(fmt=gen.random_format(rng, 10), table=[None, ["ok", "raise"], ["ok", "ok", "ok", "raise"]][int(rng.integers(3))])
    storage = gen.rec_storage(kind, ctx.scratch)
    pool = pools.NullPool(rng=rng, hold=float(rng.choice([0.0, 0.3, 0.9])),
                          fail=lambda sid: None if sims.expected_outcome(sim, SamplingPool.compute_seed(sid)) == "ok" else "e")
    pool.result = lambda sid, level_sim: sims.values(level_sim.config_dict, SamplingPool.compute_seed(sid))
    sizes = run_rounds(ctx, rng, pool, "reorder", storage, sim, params, 25)
    ctx.state(kind, n_levels, tuple(sizes))
