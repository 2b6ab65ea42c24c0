"""C28: steps and numbers of samples planned for the levels"""
import numpy as np
from mlmc.sampler import Sampler
from mlmc.estimator import (determine_level_parameters, determine_n_samples, determine_sample_vec, calc_level_params)
from mlmcmon.core import scenario
from mlmcmon import gen, sims
from mlmcmon.pools import NullPool

RULE = """Random numbers of levels, ranges of steps and of numbers of samples; planned sequences are compared with the geometric
sequences between the given ends, and the plan is then passed to a sampler whose simulations and scheduled samples are recorded.
A state is a distinct (number of levels, range)."""


def geometric(a, b, n, one):
    return [one] if n == 1 else [a * (b / a) ** (i / (n - 1)) for i in range(n)]


@scenario("C28", quick=300, thorough=4000)
def steps(ctx, rng):
    n = int(rng.integers(1, 9))
    hi = float(10 ** rng.uniform(-2, 2))
    lo = hi * float(10 ** rng.uniform(-4, -0.01))
    box = [(hi, lo), [hi, lo], np.array([hi, lo])][int(rng.integers(3))]
    where = (n, hi, lo)
    for fn in (lambda: determine_level_parameters(n, box), lambda: determine_level_parameters(n_levels=n, step_range=box),
               lambda: calc_level_params(box, n)):
        got = fn()
        ctx.equal(len(got), n, "number-of-levels", where)
        ctx.check(all(len(g) == 1 for g in got), "parameters-of-level", where)
        flat = np.array([g[0] for g in got], dtype=float)
        ctx.close(flat, geometric(hi, lo, n, lo), "steps", where, rtol=1e-9, atol=0)
        ctx.check(np.all(np.diff(flat) < 0), "not-decreasing", where)
    ctx.raises(lambda: determine_level_parameters(n, (lo, hi)), "increasing-range", where)
    # Simulations of the levels created from the steps
    storage = gen.new_storage("memory", ctx.scratch)
    sampler = Sampler(sample_storage=storage, sampling_pool=NullPool(), sim_factory=sims.DetSim(gen.simple_format(1)),
                      level_parameters=determine_level_parameters(n, (hi, lo)))
    ctx.equal(int(sampler.n_levels), n, "sampler-levels", where)
    ctx.close(np.ravel(storage.get_level_parameters()), geometric(hi, lo, n, lo), "stored-steps", where, rtol=1e-9, atol=0)
    ctx.state(n, round(hi, 6), round(lo, 9))
    ctx.event("plans")


@scenario("C28", quick=300, thorough=4000)
def numbers(ctx, rng):
    n = int(rng.integers(1, 9))
    n0 = int(10 ** rng.uniform(0, 4))
    nl = int(10 ** rng.uniform(0, np.log10(n0 + 1)))
    nl = max(1, nl)
    kind = str(rng.choice(["none", "one", "range", "full"]))
    if kind == "none":
        arg, ends = None, (100, 3)
    elif kind == "one":
        arg, ends = [n0, [n0], np.array([n0])][int(rng.integers(3))], (n0, 3)
    elif kind == "range":
        arg, ends = [[n0, nl], (n0, nl), np.array([n0, nl])][int(rng.integers(3))], (n0, nl)
    else:
        n = max(n, 3)
        arg, ends = [int(x) for x in rng.integers(1, 500, n)], None
    where = (n, kind, arg if not isinstance(arg, np.ndarray) else arg.tolist())
    got = determine_n_samples(n, arg) if arg is not None or rng.integers(2) else determine_n_samples(n)
    got = np.asarray(got)
    if ends is None:
        ctx.equal(got.tolist(), arg, "given-numbers", where)
    else:
        ref = np.array(geometric(float(ends[0]), float(ends[1]), n, float(ends[0])))
        ctx.equal(len(got), n, "number-of-levels", where)
        ctx.check(np.all(np.abs(got - ref) <= 0.5 + 1e-6), "numbers", lambda: "{} {} {}".format(where, got, ref))
        ctx.check(got.dtype.kind in "iu", "integers", where)
        ctx.equal(int(got[0]), int(ends[0]), "first-level", where)
        if n > 1:
            ctx.equal(int(got[-1]), int(ends[1]), "last-level", where)
    # The plan followed by a sampler
    storage = gen.new_storage("memory", ctx.scratch)
    sampler = Sampler(sample_storage=storage, sampling_pool=NullPool(), sim_factory=sims.DetSim(gen.simple_format(1)),
                      level_parameters=determine_level_parameters(n, (1.0, 0.01)))
    plan = np.minimum(got, 200)
    sampler.set_level_target_n_samples(plan)
    sampler.schedule_samples()
    ctx.equal([len(storage.load_scheduled_samples().get(l, [])) for l in range(n)], [int(x) for x in plan], "scheduled", where)
    # Sample vectors of estimates
    collected = [int(x) for x in rng.integers(1, 100, n)]
    ctx.equal(np.asarray(determine_sample_vec(collected, n)).tolist(), collected, "all-collected", where)
    longer = [int(x) for x in rng.integers(1, 50, n + int(rng.integers(0, 3)))]
    ctx.equal(np.asarray(determine_sample_vec(collected, n, sample_vector=longer)).tolist(), longer[:n], "sample-vector", where)
    ctx.state(n, kind, tuple(int(x) for x in got))
    ctx.event("plans")


@scenario("C28", quick=300, thorough=4000)
def initial_numbers(ctx, rng):
    """Numbers of samples planned and scheduled by the sampler itself"""
    n = int(rng.integers(1, 9))
    storage = gen.new_storage("memory", ctx.scratch)
    sampler = Sampler(sample_storage=storage, sampling_pool=NullPool(), sim_factory=sims.DetSim(gen.simple_format(1)),
                      level_parameters=determine_level_parameters(n, (1.0, 0.01)))
    n0 = int(10 ** rng.uniform(0, 2.5))
    nl = max(1, int(10 ** rng.uniform(0, np.log10(n0 + 1))))
    ref = np.array(geometric(float(n0), float(nl), n, float(n0)))
    where = (n, n0, nl)
    got = np.asarray(sampler.sample_range(n0, nl))
    ctx.equal(got.shape, (n,), "range-length", where)
    ctx.check(np.all(np.abs(got - ref) <= 0.5 + 1e-6), "range", lambda: "{} {} {}".format(where, got, ref))
    kind = str(rng.choice(["none", "one", "range", "full"]))
    if kind == "none":
        sampler.set_initial_n_samples()
        ref = np.array(geometric(100.0, 10.0, n, 100.0))
    elif kind == "one":
        sampler.set_initial_n_samples([n0, [n0], np.array([n0])][int(rng.integers(3))])
        ref = np.array(geometric(float(n0), 10.0, n, float(n0)))
    elif kind == "range" or n < 3:
        sampler.set_initial_n_samples([[n0, nl], (n0, nl), np.array([n0, nl])][int(rng.integers(3))])
    else:
        ref = rng.integers(0, 60, n)
        sampler.set_initial_n_samples(list(ref) if rng.integers(2) else ref.copy())
    sampler.schedule_samples()
    scheduled = np.array([len(storage.load_scheduled_samples().get(l, [])) for l in range(n)])
    ctx.check(np.all(np.abs(scheduled - ref) <= 0.5 + 1e-6), "scheduled", lambda: "{} {} {} {}".format(where, kind, scheduled, ref))
    sampler.ask_sampling_pool_for_samples()
    ctx.equal([int(x) for x in sampler.n_finished_samples], scheduled.tolist(), "finished", where)
    ctx.state(n, kind, tuple(int(x) for x in scheduled))
    ctx.event("plans")
