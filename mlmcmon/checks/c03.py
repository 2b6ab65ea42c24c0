"""C03: the result of a sample is determined by its id alone"""
import json
import os
import subprocess
import sys
import numpy as np
import scipy.stats as stats
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmc.sim.synth_simulation import SynthSimulation, SynthSimulationWorkspace
from mlmcmon.core import scenario
from mlmcmon import gen, sims, pools

RULE = """The same samples are computed by different pools, worker counts, scheduling rounds, delivery orders, storages,
restarts, global random states and processes (with different hash seeds); the recorded id -> result maps must be bitwise
equal. Seeds of random sets of ids are recorded and checked for range and collisions. A state is a distinct pair of
compared configurations with the numbers of samples."""


def run(ctx, rng, pool_kind, kind, sim, params, target, name, rounds=1, restart=False, sampler_seed=1234):
    """:return: Dict[id, (level, fine bytes, coarse bytes)]"""
    np.random.seed(int(rng.integers(2 ** 32)))
    n = int(rng.integers(1, 5))
    result = {}
    storage = gen.rec_storage(kind, ctx.scratch, name)
    done = np.zeros(len(target))
    for i in range(rounds):
        if i == 0 or restart:
            pool = pools.make_pool(pool_kind, n, scratch=ctx.scratch) if pool_kind != "null" else pools.NullPool(rng=rng, hold=0.5)
        try:
            if i == 0 or restart:
                if i > 0 and kind == "hdf":
                    collect(storage, result, ctx)
                    storage = gen.rec_storage(kind, ctx.scratch, name)
                sampler = Sampler(storage, pool, sim, params, seed=sampler_seed)
            step = np.array(target) if i == rounds - 1 else np.minimum(target, done + rng.integers(0, 10, len(target)))
            done = np.maximum(done, step)
            sampler.set_level_target_n_samples(step)
            sampler.schedule_samples()
            np.random.rand(int(rng.integers(1, 5)))
            sampler.ask_sampling_pool_for_samples()
        finally:
            if restart or i == rounds - 1:
                pools.close_pool(pool)
    collect(storage, result, ctx)
    ctx.equal([sum(1 for r in result.values() if r[0] == l) for l in range(len(target))], [int(x) for x in target],
              "samples-missing", (pool_kind, kind))
    return result


def collect(storage, result, ctx):
    for level, sid, pair in storage.saved_successful():
        result[sid] = (int(level), np.asarray(pair[0]).tobytes(), np.asarray(pair[1]).tobytes())


def compare(ctx, a, b, what):
    ctx.equal(sorted(a), sorted(b), "different-ids", what)
    for sid in a:
        ctx.check(a[sid] == b[sid], "result-not-determined-by-id", lambda: "{} {} {} != {}".format(
            what, sid, np.frombuffer(a[sid][1])[:4], np.frombuffer(b[sid][1])[:4]))
    # Different ids - different random inputs
    ctx.equal(len(set(v[1] for v in a.values())), len(a), "equal-results-of-different-ids", what)
    ctx.event("results_compared", len(a))


@scenario("C03", quick=40, thorough=500)
def pools_agree(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 5)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    target = rng.integers(1, 25, n_levels)
    fmt = gen.random_format(rng, 12)
    sim = lambda: sims.DetSim(fmt=fmt, delay=float(rng.choice([0, 0.003])))
    ref = run(ctx, rng, "one", "memory", sim(), params, target, "ref.hdf5")
    for sid, (level, fine, coarse) in ref.items():
        pair = sims.expected_pair(sim(), params, level, SamplingPool.compute_seed(sid))
        ctx.check(fine == pair[0].tobytes() and coarse == pair[1].tobytes(), "result-of-another-seed", sid)
    other = str(rng.choice(["one", "process", "thread", "null", "pbs"]))
    kind = str(rng.choice(["memory", "hdf"]))
    rounds = int(rng.integers(1, 4))
    restart = bool(kind == "hdf" and rng.integers(2)) and other not in ("null", "pbs")
    with pools.switch_interval(float(rng.choice([0.005, 1e-6]))):
        b = run(ctx, rng, other, kind, sim(), params, target, "other.hdf5", rounds=rounds, restart=restart,
                sampler_seed=int(rng.integers(1000)))
    compare(ctx, ref, b, (other, kind, rounds, restart))
    ctx.state(other, kind, rounds, restart, tuple(target))
    ctx.note("{} {} rounds {} restart {} target {}".format(other, kind, rounds, restart, target))


@scenario("C03", quick=24, thorough=250)
def synthetic_simulation(ctx, rng):
    """Simulation shipped with the package, also shared by threads"""
    distr = [stats.norm(loc=1, scale=2), stats.lognorm(scale=np.exp(1), s=0.4), stats.uniform(), stats.expon()][int(rng.integers(4))]
    params = [[0.1], [0.01], [0.001]][:int(rng.integers(1, 4))]
    target = rng.integers(20, 60, len(params))
    sim = SynthSimulation(dict(distr=distr, complexity=2))
    ref = run(ctx, rng, "one", "memory", sim, params, target, "ref.hdf5")
    other = str(rng.choice(["thread", "thread", "process"]))
    with pools.switch_interval(1e-6), pools.DelayInjector(int(rng.integers(2 ** 31)), ("mlmc/sim/synth_simulation.py",),
                                                          prob=0.05, max_delay=0.001):
        b = run(ctx, rng, other, "memory", sim, params, target, "other.hdf5", rounds=int(rng.integers(1, 3)))
    compare(ctx, ref, b, (other, distr.dist.name))
    for sid, (level, fine, coarse) in ref.items():
        # Fine and coarse sample share the random input
        fine, coarse = np.frombuffer(fine), np.frombuffer(coarse)
        x = distr.rvs(size=2, random_state=np.random.RandomState(SamplingPool.compute_seed(sid)))
        f = lambda h: x + h * np.sqrt(1e-4 + np.abs(x))
        ctx.close(fine[:2], f(params[level][0]), "fine-random-input", sid)
        ctx.close(coarse[:2], np.zeros(2) if level == 0 else f(params[level - 1][0]), "coarse-random-input", sid)
    ctx.state(other, distr.dist.name, tuple(target))


@scenario("C03", quick=10, thorough=100)
def failing_simulation(ctx, rng):
    """Samples of the shipped simulation that fail on purpose do not influence results of the other ones"""
    distr = [stats.norm(loc=1, scale=2), stats.lognorm(scale=np.exp(1), s=0.4), stats.uniform()][int(rng.integers(3))]
    params = [[0.1], [0.01], [0.001]][:int(rng.integers(1, 4))]
    target = rng.integers(10, 60, len(params))
    share = float(rng.choice([0.05, 0.2, 0.5]))
    sim = SynthSimulation(dict(distr=distr, complexity=2, nan_fraction=share))
    storage = gen.rec_storage(str(rng.choice(["memory", "hdf"])), ctx.scratch, "failing.hdf5")
    try:
        sampler = Sampler(storage, pools.make_pool("one", 1, scratch=ctx.scratch), sim, params)
        sampler.set_level_target_n_samples(target)
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
    finally:
        SynthSimulation(dict(distr=distr, complexity=2))
    samples = {}
    collect(storage, samples, ctx)
    failed = [sid for _, sid, _ in storage.saved_failed()]
    where = (distr.dist.name, share, tuple(int(n) for n in target))
    ctx.equal(len(samples) + len(failed), int(sum(target)), "samples-missing", where)
    ctx.check(not set(failed) & set(samples), "failed-with-result", where)
    ctx.check(abs(len(failed) - share * sum(target)) <= 2, "share-of-failed", (where, len(failed)))
    for sid, (level, fine, coarse) in samples.items():
        fine, coarse = np.frombuffer(fine), np.frombuffer(coarse)
        x = distr.rvs(size=2, random_state=np.random.RandomState(SamplingPool.compute_seed(sid)))
        f = lambda h: x + h * np.sqrt(1e-4 + np.abs(x))
        ctx.close(fine[:2], f(params[level][0]), "fine-random-input", sid)
        ctx.close(coarse[:2], np.zeros(2) if level == 0 else f(params[level - 1][0]), "coarse-random-input", sid)
    ctx.event("failed_on_purpose", len(failed))
    ctx.state(*where)


@scenario("C03", quick=12, thorough=120)
def workspace_simulation(ctx, rng):
    """Simulation shipped with the package that is set by a file in the workspace"""
    params = [[0.1], [0.01], [0.001]][:int(rng.integers(1, 4))]
    target = rng.integers(1, 12, len(params))
    config = os.path.join(ctx.scratch, "synth_sim_config.yaml")
    with open(config, "w") as f:
        f.write("distr: norm\nnan_fraction: 0.0\n")
    results = []
    for i, kind in enumerate(["one", str(rng.choice(["one", "process", "pbs"]))]):
        sim = SynthSimulationWorkspace(dict(config_yaml=config))
        storage = gen.rec_storage(str(rng.choice(["memory", "hdf"])), ctx.scratch, "ws{}.hdf5".format(i))
        work = os.path.join(ctx.scratch, "work{}".format(i))
        os.makedirs(work)
        pool = pools.make_pool(kind, 3, work_dir=work, scratch=ctx.scratch)
        np.random.seed(int(rng.integers(2 ** 32)))
        try:
            sampler = Sampler(storage, pool, sim, params)
            sampler.set_level_target_n_samples(target)
            sampler.schedule_samples()
            sampler.ask_sampling_pool_for_samples()
        finally:
            pools.close_pool(pool)
            os.chdir("/")
        ctx.equal([m for _, _, m in storage.saved_failed()], [], "failed", kind)
        results.append({})
        collect(storage, results[-1], ctx)
    ctx.equal(len(results[0]), int(sum(target)), "samples-missing")
    compare(ctx, *results, kind)
    for sid, (level, fine, coarse) in results[0].items():
        fine, coarse = np.frombuffer(fine), np.frombuffer(coarse)
        x = stats.norm(loc=1, scale=2).rvs(size=2, random_state=np.random.RandomState(SamplingPool.compute_seed(sid)))
        f = lambda h: x + h * np.sqrt(1e-4 + np.abs(x))
        ctx.close(fine[:2], f(params[level][0]), "fine-random-input", sid)
        ctx.close(coarse[:2], np.zeros(2) if level == 0 else f(params[level - 1][0]), "coarse-random-input", sid)
    ctx.state(kind, tuple(target))


@scenario("C03", quick=16, thorough=120)
def seeds(ctx, rng):
    """Seeds of many ids: 32 bit, reproducible, practically without collisions and regularities"""
    ids = {gen.sample_id(int(l), int(i)) for l, i in zip(rng.integers(0, 12, 22000), rng.integers(0, 200000, 22000))}
    ids |= {gen.sample_id(l, i) for l in range(8) for i in range(200)}
    ids = sorted(ids)[:20000]
    values = [int(SamplingPool.compute_seed(sid)) for sid in ids]
    ctx.check(min(values) >= 0 and max(values) < 2 ** 32, "seed-range", "{} {}".format(min(values), max(values)))
    n_coll = len(values) - len(set(values))
    ctx.check(n_coll <= 6, "seed-collisions", "{} collisions among {} ids".format(n_coll, len(values)))
    again = [int(SamplingPool.compute_seed(sid)) for sid in ids[:500]]
    ctx.equal(again, values[:500], "seed-not-reproducible")
    for bit in range(32):
        ones = sum((v >> bit) & 1 for v in values)
        ctx.check(abs(ones - len(values) / 2) < 8 * np.sqrt(len(values)) / 2, "seed-bit-bias", (bit, ones))
    ctx.event("seeds", len(values))
    ctx.state(len(values), sum(values))


CHILD = """
import json, sys
import numpy as np
np.random.seed(int(sys.argv[1]))
from mlmc.sampling_pool import SamplingPool, OneProcessPool
from mlmc.sample_storage import Memory
from mlmc.sampler import Sampler
from mlmcmon import gen, sims
storage = gen.RecMemory()
sampler = Sampler(storage, OneProcessPool(), sims.DetSim(), [[1.0], [0.5]], seed=int(sys.argv[1]))
sampler.set_level_target_n_samples([8, 5]); sampler.schedule_samples(); sampler.ask_sampling_pool_for_samples()
out = {sid: [int(l), list(p[0]), list(p[1]), int(SamplingPool.compute_seed(sid))] for l, sid, p in storage.saved_successful()}
sys.stderr.write("RESULT" + json.dumps(out))
"""


@scenario("C03", quick=6, thorough=60)
def processes_agree(ctx, rng):
    """Separate interpreters with different hash randomisation give the same samples"""
    outs = []
    for _ in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2 ** 31))))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, str(int(rng.integers(10 ** 6)))], env=env,
                           capture_output=True, text=True, cwd=ctx.scratch)
        ctx.check("RESULT" in p.stderr, "run-failed", p.stderr[-1500:])
        outs.append(json.loads(p.stderr.split("RESULT")[1]))
    ctx.equal(outs[0], outs[1], "processes-differ")
    ctx.equal(len(outs[0]), 13, "missing")
    for sid, (level, fine, coarse, seed) in outs[0].items():
        ctx.equal(seed, int(SamplingPool.compute_seed(sid)), "seed-differs-in-process", sid)
    ctx.event("processes", 2)
    ctx.state(ctx.index)
