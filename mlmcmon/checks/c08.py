"""C08: cost of a sample is the total time over the number of samples"""
import os
import time
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.sampling_pool import SamplingPool
from mlmcmon.core import scenario
from mlmcmon import gen, sims, pools

RULE = """Random sequences of time reports (split to calls, levels, zero counts, reopening) are saved to both storages and the cost
per sample is compared with the ratio of sums; real pools run samples that measure their own duration and the times
reported to the storage are checked for exactly-once counting and magnitude. A state is a distinct (storage or pool,
number of reports per level, counts)."""


@scenario("C08", quick=100, thorough=1500)
def reports(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 6)
    kind = str(rng.choice(["memory", "hdf"]))
    storage = gen.new_storage(kind, ctx.scratch)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    storage.save_global_data(level_parameters=params, result_format=gen.simple_format())
    total, count, n_reports = np.zeros(n_levels), np.zeros(n_levels), np.zeros(n_levels, dtype=int)
    # Levels without finished samples have zero cost; the memory storage knows the levels from the reports
    for _ in range(int(rng.integers(1, 15))):
        levels = [l for l in range(n_levels) if rng.random() < 0.6]
        report = []
        for level in [int(x) for x in rng.permutation(levels)] if levels else []:
            n = int(rng.integers(0, 6))
            t = float(10 ** rng.uniform(-6, 4)) if n > 0 else 0.0
            report.append((level, [t, n] if rng.integers(2) else (t, n)))
            total[level] += t
            count[level] += n
            n_reports[level] += 1
        storage.save_n_ops(report)
        ctx.event("reports", len(report))
        if kind == "hdf" and rng.random() < 0.2:
            storage = SampleStorageHDF(os.path.join(ctx.scratch, "mlmc.hdf5"))
        got = [float(x) for x in storage.get_n_ops()]
        ref = np.where(count > 0, total / np.maximum(count, 1), 0.0)
        if kind == "hdf":
            ctx.equal(len(got), n_levels, "length")
        n = len(got)
        ctx.check(np.all(ref[n:] == 0), "level-missing", (got, ref))
        ctx.close(got, ref[:n], "cost-per-sample", (kind, report), rtol=1e-9)
    ctx.state(kind, tuple(n_reports), tuple(count))
    ctx.note("{} reports {} samples {} cost {}".format(kind, n_reports, count, got))


class QuickSim(sims.DetSim):
    @staticmethod
    def calculate(config, seed):
        start = time.perf_counter()
        while time.perf_counter() - start < 1e-5:
            pass
        return sims.values(config, seed)


@scenario("C08", quick=16, thorough=150)
def concurrent_reports(ctx, rng):
    """Many quick samples finish while the pool is being asked all the time"""
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    sim = QuickSim()
    recorder = pools.NullPool()
    helper = Sampler(gen.RecMemory(), recorder, sim, params)
    helper.set_level_target_n_samples([1] * n_levels)
    helper.schedule_samples()
    level_sims = [next(s for _, s in recorder.scheduled if s.config_dict["fine"] == p[0]) for p in params]
    storage = gen.new_storage("memory", ctx.scratch)
    storage.save_global_data(level_parameters=params, result_format=sim.result_format())
    todo = [(level, gen.sample_id(level, i)) for i in range(int(rng.integers(200, 600))) for level in range(n_levels)]
    n_ok, total, count, polls, n_all = np.zeros(n_levels), np.zeros(n_levels), np.zeros(n_levels), 0, len(todo)
    pool = pools.make_pool("thread", int(rng.integers(2, 5)))
    try:
        with pools.switch_interval(1e-6):
            n_running = 0
            while todo or n_running > 0:
                for level, sid in [todo.pop() for _ in range(min(len(todo), int(rng.integers(0, 20))))]:
                    pool.schedule_sample(sid, level_sims[level])
                succ, _, n_running, times = pool.get_finished()
                storage.save_n_ops(times)
                for level, items in succ.items():
                    n_ok[level] += len(items)
                for level, (t, k) in times:
                    total[level] += t
                    count[level] += k
                polls += 1
    finally:
        pools.close_pool(pool)
    ctx.equal(int(np.sum(n_ok)), n_all, "delivered")
    # The time is reported before the result, so nothing may be missing when all is delivered
    ctx.equal([int(x) for x in count], [int(x) for x in n_ok], "sample-time-not-counted-once", ("concurrent", n_all))
    ctx.check(np.all(total >= 0.9e-5 * count), "time-less-than-measured", lambda: (total, count))
    got = [float(x) for x in storage.get_n_ops()]
    ctx.close(got, (total / count)[:len(got)], "cost-per-sample", "concurrent")
    ctx.event("polls", polls)
    ctx.event("times_reported", n_all)
    ctx.state(n_levels, n_all, polls)


class TimedSim(sims.DetSim):
    """Samples append their own duration to the log"""

    @staticmethod
    def calculate(config, seed):
        start = time.perf_counter()
        rnd = np.random.RandomState((int(seed) + 11) % 2 ** 32)
        wait = config["delay"] * (1 + rnd.random_sample()) * (4 if config["coarse"] else 1)
        if config["delay"] >= 0.001:
            time.sleep(wait)
        while time.perf_counter() - start < wait:
            pass
        if sims.outcome(config, seed) != "ok":
            raise sims.SampleFailure("failed")
        res = sims.values(config, seed)
        with open(config["log"], "a") as f:
            f.write("{} {} {}\n".format(int(seed), config["fine"], time.perf_counter() - start))
        return res


@scenario("C08", quick=24, thorough=250, confirm=True)
def measured(ctx, rng):
    pool_kind = str(rng.choice(["one", "process", "thread"]))
    kind = str(rng.choice(["memory", "hdf"]))
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    log = os.path.join(ctx.scratch, "times")
    if os.path.exists(log):
        os.remove(log)
    open(log, "w").close()
    sim = TimedSim(table=[None, ["ok", "ok", "raise"]][int(rng.integers(2))], delay=float(rng.choice([0.002, 0.00005])), log=log)
    storage = gen.rec_storage(kind, ctx.scratch)
    pool = pools.make_pool(pool_kind, int(rng.integers(1, 5)))
    t0 = time.perf_counter()
    n_workers = 8
    try:
        sampler = Sampler(storage, pool, sim, params)
        target = np.zeros(n_levels)
        for _ in range(int(rng.integers(1, 4))):
            target = target + rng.integers(1, 8, n_levels)
            sampler.set_level_target_n_samples(target)
            sampler.schedule_samples(timeout=[None, 1e-15][int(rng.integers(2))])
            for _ in range(int(rng.integers(0, 3))):
                sampler.ask_sampling_pool_for_samples(timeout=0.003)
        sampler.ask_sampling_pool_for_samples()
    finally:
        pools.close_pool(pool)
    wall = time.perf_counter() - t0
    successful = storage.saved_successful()
    inner = {level: [] for level in range(n_levels)}
    with open(log) as f:
        for line in f:
            seed, fine, t = line.split()
            level = [p[0] for p in params].index(float(fine))
            inner[level].append(float(t))
    total, count = np.zeros(n_levels), np.zeros(n_levels)
    for (report,) in storage.events("n_ops"):
        for level, (t, n) in report:
            total[level] += t
            count[level] += n
            ctx.event("reports")
    cost = [float(x) for x in storage.get_n_ops()]
    for level in range(n_levels):
        n_ok = sum(l == level for l, _, _ in successful)
        ctx.equal(len(inner[level]), n_ok, "harness-log")
        ctx.equal(int(count[level]), n_ok, "sample-time-not-counted-once", (pool_kind, level))
        if n_ok:
            low = sum(inner[level])
            ctx.check(total[level] >= low - 0.002 * n_ok, "time-less-than-measured", (pool_kind, level, total[level], low))
            ctx.check(total[level] <= low + 0.25 * n_ok + 0.5, "time-more-than-measured", (pool_kind, level, total[level], low))
            ctx.close(cost[level], total[level] / count[level], "cost-per-sample", (pool_kind, level))
        elif level < len(cost):
            ctx.equal(cost[level], 0.0, "cost-without-samples", level)
    ctx.event("samples_timed", len(successful))
    ctx.state(pool_kind, kind, tuple(count), len(storage.events("n_ops")))
    ctx.note("{} x {} counts {} totals {}".format(pool_kind, kind, count, total))
