"""C04: a failing sample never harms the other samples"""
import os
import shutil
import socket
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean
from mlmcmon.core import scenario
from mlmcmon import gen, sims, pools
from mlmcmon.checks.c02 import check_history, check_stored

LEVEL = "fault_enumeration"
RULE = """Faults (exceptions of several kinds, sys.exit, results of wrong length, results that cannot be passed between processes, non-ASCII and
long messages, missing workspace files, pipes, sockets and cyclic links left in the workspace) are injected to samples chosen by their seed, in every pool and both storages.
The oracle compares the set of failed ids, their messages and all other results with the fault table. A state is a
distinct (pool, storage, fault table, numbers of failed and successful samples)."""

EXPECT = {"raise": "SampleFailure", "zero_div": "ZeroDivisionError", "unicode": "SampleFailure", "custom_exc": "NoPickle",
          "short": "", "long": "", "coarse_short": "", "unpicklable": "", "exit": "SystemExit"}


def tables(rng, pool_kind):
    kinds = ["raise", "zero_div", "unicode", "custom_exc", "short", "long", "coarse_short", "exit"]
    if pool_kind == "process":
        kinds.append("unpicklable")
    n_bad = int(rng.integers(1, 4))
    table = [str(k) for k in rng.choice(kinds, n_bad)] + ["ok"] * int(rng.integers(0, 6))
    return table


def drive(ctx, rng, pool, pool_kind, kind, sim, params, target):
    storage = gen.rec_storage(kind, ctx.scratch)
    sampler = Sampler(storage, pool, sim, params)
    for part in (np.ceil(np.array(target) / 2), target):
        sampler.set_level_target_n_samples(part)
        sampler.schedule_samples(timeout=[None, 1e-15][int(rng.integers(2))])
    sampler.ask_sampling_pool_for_samples()
    return storage, sampler


@scenario("C04", quick=80, thorough=1000)
def faults(ctx, rng):
    pool_kind = str(rng.choice(["one", "process", "thread", "pbs"], p=[0.3, 0.3, 0.25, 0.15]))
    kind = str(rng.choice(["memory", "hdf"]))
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    table = tables(rng, pool_kind)
    sim = sims.DetSim(fmt=gen.random_format(rng, 12), table=table)
    target = rng.integers(0, 20, n_levels)
    pool = pools.make_pool(pool_kind, int(rng.integers(1, 4)), scratch=ctx.scratch)
    try:
        storage, sampler = drive(ctx, rng, pool, pool_kind, kind, sim, params, target)
    finally:
        pools.close_pool(pool)
    successful, failed = storage.saved_successful(), storage.saved_failed()
    check_history(ctx, storage.load_scheduled_samples(), successful, failed, sim, params, pool_kind)
    check_stored(ctx, storage, successful, failed, n_levels, pool_kind)
    for level, sid, message in failed:
        fault = sims.expected_outcome(sim, SamplingPool.compute_seed(sid))
        ctx.check(isinstance(message, str) and len(message) > 0 and EXPECT[fault] in message, "error-message",
                  lambda: "{} {} {!r}".format(sid, fault, message))
        if fault in ("raise", "unicode"):
            ctx.check(str(int(SamplingPool.compute_seed(sid))) in message, "message-of-another-sample", sid)
        ctx.event("fault_" + fault)
    stored_failed = storage.failed_samples()
    for level in range(n_levels):
        ctx.equal(sorted(stored_failed.get(str(level), [])), sorted(sid for l, sid, _ in failed if l == level), "failed-ids", level)
    # Failed samples do not enter the estimates
    if all(any(l == level for l, _, _ in successful) for level in range(n_levels)):
        mean = estimate_mean(make_root_quantity(storage, sim.fmt))
        ctx.equal([int(n) for n in mean.n_samples], [sum(l == level for l, _, _ in successful) for level in range(n_levels)],
                  "failed-in-estimate")
    ctx.event("samples_ok", len(successful))
    ctx.state(pool_kind, kind, tuple(sorted(table)), len(failed), len(successful))
    ctx.note("{} {} faults {} failed {} ok {}".format(pool_kind, kind, table, len(failed), len(successful)))


@scenario("C04", quick=24, thorough=250)
def workspace_faults(ctx, rng):
    """Common file of a level is missing: samples of that level fail, samples of the other levels are not affected"""
    pool_kind = str(rng.choice(["one", "process", "pbs"], p=[0.4, 0.4, 0.2]))
    kind = str(rng.choice(["memory", "hdf"]))
    n_levels = gen.n_levels(rng, 2, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    files = []
    for level in range(n_levels):
        path = os.path.join(ctx.scratch, "common_{}.txt".format(level))
        with open(path, "w") as f:
            f.write("level {}".format(level))
        files.append(path)

    leave = [str(x) for x in rng.choice(["none", "none", "pipe", "socket", "cycle", "dangling", "removed"], 5)]
    sim = WorkspaceSim(files=files, leave=leave)
    bad = set(int(x) for x in rng.choice(n_levels, int(rng.integers(1, n_levels)), replace=False)) if rng.random() < 0.7 else set()
    for level in bad:
        os.remove(files[level])
    work_dir = os.path.join(ctx.scratch, "work")
    os.makedirs(work_dir)
    pool = pools.make_pool(pool_kind, 2, work_dir=work_dir, debug=bool(rng.integers(2)), scratch=ctx.scratch)
    target = rng.integers(1, 9, n_levels)
    try:
        storage, sampler = drive(ctx, rng, pool, pool_kind, kind, sim, params, target)
    finally:
        pools.close_pool(pool)
        os.chdir("/")
    successful, failed = storage.saved_successful(), storage.saved_failed()
    scheduled = storage.load_scheduled_samples()
    for level in range(n_levels):
        ids = sorted(scheduled[level])
        got_ok = sorted(sid for l, sid, _ in successful if l == level)
        got_bad = sorted(sid for l, sid, _ in failed if l == level)
        ctx.equal(got_bad, ids if level in bad else [], "failed-of-level", (level, bad))
        ctx.equal(got_ok, [] if level in bad else ids, "ok-of-level", (level, bad))
    for level, sid, pair in successful:
        ref = sims.expected_pair(sim, params, level, SamplingPool.compute_seed(sid))
        ctx.same(pair[0], ref[0], "wrong-fine-result", sid)
        ctx.same(pair[1], ref[1], "wrong-coarse-result", sid)
    for level, sid, message in failed:
        ctx.check("common_{}.txt".format(level) in message, "error-message", message)
    ctx.event("workspace_failures", len(failed))
    for sid in (sid for _, sid, _ in successful):
        ctx.event("left_" + leave[int(SamplingPool.compute_seed(sid)) % len(leave)])
    ctx.state(pool_kind, kind, tuple(sorted(bad)), tuple(target), tuple(leave))


class WorkspaceSim(sims.DetSim):
    """Samples leave files of unusual kinds in their workspaces"""

    def __init__(self, files, leave):
        super().__init__(workspace=True)
        self.files = files
        self.leave = leave

    def level_instance(self, fine_level_params, coarse_level_params):
        level_sim = super().level_instance(fine_level_params, coarse_level_params)
        level_sim.common_files = [self.files[len(self.level_calls) - 1]]
        level_sim.config_dict["leave"] = self.leave
        return level_sim

    @staticmethod
    def calculate(config, seed):
        leave = config["leave"][int(seed) % len(config["leave"])]
        if leave == "pipe":
            os.mkfifo("pipe")
        elif leave == "socket":
            s = socket.socket(socket.AF_UNIX)
            s.bind("sock")
            s.close()
        elif leave == "cycle":
            os.symlink(".", "again")
        elif leave == "dangling":
            os.symlink("missing", "link")
        elif leave == "removed":
            shutil.rmtree(os.getcwd())
        return sims.DetSim.calculate(config, seed)
