"""C01: scheduling creates exactly the requested samples, each with its own id and the simulation of its level"""
import numpy as np
from mlmc.sampler import Sampler
from mlmcmon.core import scenario
from mlmcmon import gen, sims
from mlmcmon.pools import NullPool

RULE = """Random programs of target settings (explicit counts, [n0, nL] ranges, defaults), schedule calls, polls, failures
of samples and sampler restarts over both storages; a recording pool observes every scheduled sample and a counter model
gives the expected numbers. A state is a distinct (number of levels, storage, operation, scheduled vector) reached."""


def geometric(n0, nL, n_levels):
    return np.round(np.exp2(np.linspace(np.log2(n0), np.log2(nL), n_levels))).astype(int)


def check_schedule(ctx, storage, pool, params, n_scheduled, where):
    """Pool and storage agree on what was scheduled, ids are unique, each level has its own simulation"""
    ids = [sid for sid, _ in pool.scheduled]
    ctx.equal(len(set(ids)), len(ids), "duplicate-id", where)
    loaded = storage.load_scheduled_samples()
    all_loaded = []
    for level in range(len(params)):
        level_ids = list(loaded.get(level, []))
        level_set = set(level_ids)
        ctx.equal(len(level_ids), int(n_scheduled[level]), "wrong-number-scheduled", (where, level))
        all_loaded.extend(level_ids)
        if params.count(params[level]) == 1:
            by_pool = [sid for sid, sim in pool.scheduled if sim.config_dict["params"][0] == tuple(params[level])]
            ctx.equal(sorted(set(by_pool)), sorted(level_ids), "storage-pool-differ", (where, level))
        for sid, sim in pool.scheduled:
            if sid in level_set:
                ctx.equal(sim.config_dict["fine"], float(params[level][0]), "wrong-fine-parameters", (where, sid))
                ctx.equal(sim.config_dict["coarse"], 0.0 if level == 0 else float(params[level - 1][0]),
                          "wrong-coarse-parameters", (where, sid))
                ctx.equal(sim.config_dict["params"][0], tuple(params[level]), "wrong-fine-parameters", (where, sid))
                if level:
                    ctx.equal(sim.config_dict["params"][1], tuple(params[level - 1]), "wrong-coarse-parameters", (where, sid))
    ctx.equal(len(set(all_loaded)), len(all_loaded), "id-on-two-levels", where)
    ctx.equal(sorted(ids), sorted(all_loaded), "storage-pool-differ", where)


@scenario("C01", quick=120, thorough=1500)
def programs(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 7)
    kind = str(rng.choice(["memory", "hdf"]))
    steps = rng.choice(np.arange(1, 400 if rng.integers(3) else 5), n_levels, replace=True) / 100.0
    params = [[float(x)] for x in (np.sort(steps)[::-1] if rng.integers(3) else steps)]
    if rng.random() < 0.3:
        # Further parameters of levels
        more = rng.integers(1, 100, (n_levels, int(rng.integers(1, 3))))
        params = [p + [float(x) for x in m] for p, m in zip(params, more)]
    storage = gen.new_storage(kind, ctx.scratch)
    fail_p = rng.choice([0.0, 0.0, 0.3])
    hold = float(rng.choice([0.0, 0.5]))

    pool = NullPool(rng=rng, fail=lambda sid: "err" if rng.random() < fail_p else None, hold=hold)
    sampler = Sampler(storage, pool, sims.DetSim(), params)
    target = np.zeros(n_levels)
    scheduled = np.zeros(n_levels)
    trace, given = [], []
    for _ in range(int(rng.integers(3, 10))):
        op = str(rng.choice(["initial_full", "initial_range", "initial_one", "initial_none", "level_target", "schedule",
                             "schedule", "ask", "restart"]))
        trace.append(op)
        if op == "initial_full" and n_levels != 2 and n_levels != 1:
            n = rng.integers(0, 25, n_levels)
            user = n.copy()
            sampler.set_initial_n_samples([int(x) for x in n] if rng.integers(2) else user)
            given.append((n, user))
            target = n.astype(float)
        elif op == "initial_range":
            n0, nL = int(rng.integers(1, 40)), int(rng.integers(1, 40))
            sampler.set_initial_n_samples([n0, nL])
            target = geometric(n0, nL, n_levels).astype(float)
            ctx.equal(target[0], float(n0), "range-start")
        elif op == "initial_one":
            n0 = int(rng.integers(1, 30))
            sampler.set_initial_n_samples(n0 if rng.integers(2) else [n0])
            target = geometric(n0, 10, n_levels).astype(float)
        elif op == "initial_none" and rng.random() < 0.3:
            sampler.set_initial_n_samples()
            target = geometric(100, 10, n_levels).astype(float)
        elif op == "level_target":
            n = rng.integers(0, 30, n_levels)
            user = n.copy()
            sampler.set_level_target_n_samples([int(x) for x in n] if rng.integers(2) else user)
            given.append((n, user))
            target = np.maximum(target, n)
        elif op == "schedule":
            before = [(sid) for sid, _ in pool.scheduled]
            sampler.schedule_samples(timeout=float(rng.choice([1e-15, 0.05])) if rng.integers(2) else None)
            scheduled = np.maximum(scheduled, target)
            ctx.equal([sid for sid, _ in pool.scheduled][:len(before)], before, "schedule-history-changed")
            ctx.event("schedule_calls")
            ctx.event("samples_scheduled", len(pool.scheduled) - len(before))
            ctx.state(n_levels, kind, tuple(trace[-2:]), tuple(int(x) for x in scheduled))
        elif op == "ask":
            sampler.ask_sampling_pool_for_samples(timeout=1e-15 if rng.integers(2) else None)
        elif op == "restart":
            if kind == "hdf":
                storage = gen.new_storage(kind, ctx.scratch)
            old = pool
            pool = NullPool(rng=rng, fail=old.fail, hold=hold)
            pool.scheduled, pool.pending = old.scheduled, old.pending
            sampler = Sampler(storage, pool, sims.DetSim(), params)
            target = np.zeros(n_levels)
            ctx.event("restarts")
        ctx.close([float(x) for x in sampler.l_scheduled_samples()], scheduled, "wrong-count-reported", trace)
        ctx.equal(sampler.n_levels, n_levels, "wrong-number-of-levels")
        for n, user in given:
            ctx.same(user, n, "given-numbers-changed", trace)
        if given and rng.random() < 0.1:
            # Arrays of the user may be used for anything later
            given.pop()[1][:] = 99
        check_schedule(ctx, storage, pool, params, scheduled, trace)
    ctx.note("levels {} storage {} ops {} scheduled {}".format(n_levels, kind, trace, scheduled))


@scenario("C01", quick=30, thorough=400)
def many_samples(ctx, rng):
    """Ids stay unique and counts exact also for many samples scheduled by many small steps"""
    n_levels = gen.n_levels(rng, 1, 4)
    kind = str(rng.choice(["memory", "hdf"]))
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    storage = gen.new_storage(kind, ctx.scratch)
    pool = NullPool(rng=rng)
    sampler = Sampler(storage, pool, sims.DetSim(), params)
    target = np.zeros(n_levels)
    huge = rng.random() < 0.2
    for step in range(int(rng.integers(3, 8))):
        target = target + rng.integers(0, 150, n_levels)
        if step == 1 and huge:
            target[int(rng.integers(n_levels))] += int(rng.choice([1100, 3000, 11000]))
        sampler.set_level_target_n_samples(target)
        sampler.schedule_samples()
    check_schedule(ctx, storage, pool, params, target, "many")
    ctx.event("samples_scheduled", len(pool.scheduled))
    ctx.state(n_levels, kind, tuple(int(x) for x in target))
    sampler.ask_sampling_pool_for_samples()
    ctx.equal([int(x) for x in sampler.n_finished_samples], [int(x) for x in target], "finished-number")
