"""C19: adaptive adding of samples"""
import numpy as np
from mlmc.sampler import Sampler
from mlmcmon.core import scenario
from mlmcmon import gen, sims
from mlmcmon.pools import NullPool, make_pool, close_pool

RULE = """The loop of adding samples is driven with fixed and changing estimates, coefficients and pools that finish samples immediately,
in random order with random delays, or fail some of them; after each step the numbers of scheduled and finished samples are
compared with the rule of the method and the number of steps with its bound. A state is a distinct
(levels, pool, vector of scheduled numbers after a step)."""


def expected_step(scheduled, estimated, c):
    """Bounds on the new number of scheduled samples"""
    lo, hi = [], []
    for s, e in zip(scheduled, estimated):
        if e <= s:
            lo.append(s), hi.append(s)
        elif e * c > (e - s) * (1 + 1e-9):
            lo.append(e), hi.append(e)
        else:
            x = s + (e - s) * c
            lo.append(np.ceil(x - 1e-6))
            hi.append(min(np.ceil(x + 1e-6) + (1 if abs(e * c - (e - s)) < 1e-6 * e else 0), e))
            if abs(e * c - (e - s)) < 1e-6 * e:
                hi[-1] = e
    return np.array(lo, dtype=float), np.array(hi, dtype=float)


def drive(ctx, rng, sampler, storage, c, estimates, n_levels, sleep, timeout, where, fixed):
    """:param estimates: f(step) -> estimated numbers"""
    scheduled = np.array([float(x) for x in sampler.l_scheduled_samples()])
    step, done = 0, False
    bound = np.log(c) / np.log(1 - c) + 3 if c < 1 else 2
    while not done:
        n_estimated = np.array(estimates(step))
        copy = n_estimated.copy()
        done = bool(sampler.process_adding_samples(n_estimated, sleep, c, **timeout))
        ctx.same(n_estimated, copy, "estimate-changed", where)
        new = np.array([float(x) for x in sampler.l_scheduled_samples()])
        lo, hi = expected_step(scheduled, copy, c)
        info = lambda: "{} step {} scheduled {} estimated {} new {} expected {}..{}".format(where, step, scheduled, copy, new, lo, hi)
        ctx.check(np.all(new >= scheduled), "scheduled-decreased", info)
        ctx.check(np.all(new <= np.maximum(scheduled, copy)), "more-than-estimated", info)
        ctx.check(np.all((new >= lo) & (new <= hi)), "step-size", info)
        ctx.equal(done, bool(np.all(new >= copy)), "complete-flag", info())
        lag = new < copy
        finished = np.array(sampler.n_finished_samples, dtype=float)
        ctx.check(np.all(finished[lag] >= 0.5 * new[lag]), "half-not-finished", lambda: info() + " finished {}".format(finished))
        ctx.check(np.all(finished <= new), "finished-more-than-scheduled", lambda: info() + " finished {}".format(finished))
        ctx.equal([len(storage.load_scheduled_samples().get(l, [])) for l in range(n_levels)], [int(x) for x in new], "storage-scheduled", info())
        scheduled = new
        step += 1
        ctx.event("steps")
        ctx.state(n_levels, where[0], tuple(int(x) for x in new))
        if fixed:
            ctx.check(step <= bound, "too-many-steps", lambda: info() + " bound {}".format(bound))
        ctx.check(step < 500, "does-not-end", info)
    return step, scheduled


@scenario("C19", quick=120, thorough=1500)
def controlled(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 6)
    kind = str(rng.choice(["memory", "hdf"]))
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    storage = gen.rec_storage(kind, ctx.scratch)
    fail_p = float(rng.choice([0, 0, 0.3]))
    pool = NullPool(rng=rng, fail=lambda sid: "err" if rng.random() < fail_p else None, hold=float(rng.choice([0, 0.5, 0.9])))
    sampler = Sampler(storage, pool, sims.DetSim(), params)
    initial = [int(x) for x in rng.integers(1, 15, max(n_levels, 3))][:n_levels]
    if n_levels > 2:
        sampler.set_initial_n_samples(initial)
    else:
        sampler.set_level_target_n_samples(initial)
    sampler.schedule_samples()
    sampler.ask_sampling_pool_for_samples()
    c = float(rng.choice([0.1, 0.1, 0.05, 0.25, 0.5, 1.0]))
    fixed = bool(rng.integers(2))
    top = 400 if kind == "memory" else 120
    est0 = rng.integers(1, top, n_levels)

    def estimates(step):
        if fixed or step > 30:
            return est0
        return np.maximum(1, est0 + rng.integers(-20, 20, n_levels))
    timeout = {} if rng.integers(2) else dict(timeout=1e-7)
    where = ("controlled", kind, c, "fixed" if fixed else "changing", "initial", initial, "estimated", est0.tolist())
    steps, scheduled = drive(ctx, rng, sampler, storage, c, estimates, n_levels, 0, timeout, where, fixed)
    # Everything scheduled is collected
    sampler.ask_sampling_pool_for_samples()
    ctx.equal([int(x) for x in sampler.n_finished_samples], [int(x) for x in scheduled], "all-collected", where)
    ids = [sid for sid, _ in pool.scheduled]
    ctx.equal(len(set(ids)), len(ids), "duplicate-id", where)
    ctx.equal(sorted(ids), sorted([s[1] for s in storage.saved_successful()] + [s[1] for s in storage.saved_failed()]), "stored-once", where)
    # Estimate that is already satisfied
    n = len(pool.scheduled)
    ctx.equal(bool(sampler.process_adding_samples(np.maximum(scheduled - 1, 1), 0, c)), True, "satisfied-complete", where)
    ctx.equal(len(pool.scheduled), n, "satisfied-schedules", where)
    ctx.note("{} steps {} scheduled {}".format(where, steps, scheduled))


@scenario("C19", quick=40, thorough=500)
def pending_targets(ctx, rng):
    """Targets set before and not scheduled yet are kept by a step"""
    n_levels = gen.n_levels(rng, 1, 5)
    kind = str(rng.choice(["memory", "hdf"]))
    storage = gen.rec_storage(kind, ctx.scratch)
    pool = NullPool(rng=rng, hold=float(rng.choice([0, 0.5])))
    sampler = Sampler(storage, pool, sims.DetSim(), [[1.0 / (i + 1)] for i in range(n_levels)])
    scheduled = np.zeros(n_levels)
    if rng.integers(2):
        scheduled = rng.integers(1, 15, n_levels).astype(float)
        sampler.set_level_target_n_samples(scheduled)
        sampler.schedule_samples()
    target = np.maximum(scheduled, rng.integers(0, 40, n_levels))
    sampler.set_level_target_n_samples(target)
    c = float(rng.choice([0.1, 0.25, 0.5]))
    est = rng.integers(1, 120, n_levels)
    lo, hi = expected_step(scheduled, est, c)
    where = (kind, c, "scheduled", scheduled.tolist(), "target", target.tolist(), "estimated", est.tolist())
    sampler.process_adding_samples(est.copy(), 0, c)
    new = np.array([float(x) for x in sampler.l_scheduled_samples()])
    ctx.check(np.all((new >= np.maximum(lo, target)) & (new <= np.maximum(hi, target))), "target-lowered", lambda: (where, new))
    ctx.equal(len(pool.scheduled), int(np.sum(new)), "scheduled-to-pool", where)
    for _ in range(200):
        if sampler.process_adding_samples(est.copy(), 0, c):
            break
    ctx.equal([int(x) for x in sampler.l_scheduled_samples()], [int(x) for x in np.maximum(est, target)], "final-numbers", where)
    ctx.event("pending_targets", int(np.sum(target > scheduled)))
    ctx.state(n_levels, kind, c, tuple(target), tuple(est))


@scenario("C19", quick=16, thorough=150, timeout=80)
def real_pools(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 4)
    kind = str(rng.choice(["one", "thread", "process", "pbs"]))
    table = None if rng.integers(2) else ["ok", "ok", "raise", "short"]
    sim = sims.DetSim(table=table, delay=0.0 if kind in ("one", "pbs") else 0.01)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    storage = gen.rec_storage(str(rng.choice(["memory", "hdf"])), ctx.scratch)
    pool = make_pool(kind, 3, scratch=ctx.scratch)
    try:
        sampler = Sampler(storage, pool, sim, params)
        sampler.set_level_target_n_samples([5] * n_levels)
        sampler.schedule_samples()
        est0 = rng.integers(5, 60, n_levels)
        c = float(rng.choice([0.1, 0.3]))
        where = (kind, c, est0.tolist(), table)
        # The initial samples may still be running
        steps, scheduled = drive(ctx, rng, sampler, storage, c, lambda s: est0, n_levels, 0.001, dict(timeout=1e-3) if rng.integers(2) else {},
                                 where, True)
        sampler.ask_sampling_pool_for_samples()
        ctx.equal([int(x) for x in sampler.n_finished_samples], [int(x) for x in scheduled], "all-collected", where)
        ids = [s[1] for s in storage.saved_successful()] + [s[1] for s in storage.saved_failed()]
        ctx.equal(len(ids), len(set(ids)), "stored-once", where)
        ctx.equal(len(ids), int(sum(scheduled)), "stored-all", where)
        ctx.event("samples", len(ids))
    finally:
        close_pool(pool)
