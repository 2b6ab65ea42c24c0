"""C21: sample workspace"""
import json
import os
import time
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmcmon.core import scenario
from mlmcmon import gen, sims
from mlmcmon.pools import make_pool, close_pool
from mlmcmon.fakepbs import FakePbs, pbs_setting
from mlmcmon.checks.c20 import DrivenPool

RULE = """Simulations that look around, change the common files, and leave files, subdirectories and dangling links in their workspace run
in the sequential, process and batch pools, with failing samples, renewal, a missing common file, debug mode on and off and
reused work directories. The log written by the simulation tells the directory and its content each sample saw; the trees
of kept and failed samples are compared with what the samples wrote. A state is a distinct
(pool, mode, outcomes of samples)."""
ASSUMPTIONS = ["threads share the working directory of the process, the thread pool is out of the property"]

KEPT = 5     # samples of the smallest numbers whose workspaces are kept


def read_log(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f]


def tree_of(directory):
    out = {}
    for root, dirs, files in os.walk(directory):
        for name in files:
            p = os.path.join(root, name)
            rel = os.path.relpath(p, directory)
            out[rel] = open(p).read() if os.path.exists(p) else None
    return out


def expected_tree(sid, common):
    seed = int(SamplingPool.compute_seed(sid))
    out = {name: text + "changed by {}".format(seed) for name, text in common.items()}
    out["own_{}".format(seed)] = "result of {}".format(seed)
    out[".hidden"] = "hidden of {}".format(seed)
    out[os.path.join("sub", "deep")] = str(seed)
    return out


def settle(fn, seconds=20):
    """Workspaces of successful samples are cleaned after the result is passed"""
    end = time.time() + seconds
    while not fn() and time.time() < end:
        time.sleep(0.01)


def make_common(ctx, rng):
    common = {}
    for i in range(int(rng.integers(0, 5))):
        name = ["input.yaml", "mesh file.msh", "solver.sh", "data.txt"][i]
        common[name] = "content {} {}".format(i, rng.integers(1000))
        with open(os.path.join(ctx.scratch, name), "w") as f:
            f.write(common[name])
        if name.endswith(".sh"):
            os.chmod(os.path.join(ctx.scratch, name), 0o755)
    return common


def check_calls(ctx, calls, work, common, sids, where):
    out = os.path.join(work, "output")
    for seed, cwd, entries, content in calls:
        sid = os.path.basename(cwd)
        ctx.check(sid in sids, "foreign-directory", lambda: (cwd, where))
        ctx.equal(os.path.realpath(cwd), os.path.realpath(os.path.join(out, sid)), "wrong-directory", where)
        ctx.equal(int(SamplingPool.compute_seed(sid)), seed, "directory-of-other-sample", where)
        ctx.equal(entries, sorted(common), "workspace-content", (sid, where))
        ctx.equal(content, common, "common-files-content", (sid, where))
        ctx.event("workspaces")


def check_trees(ctx, work, common, ok, failed, debug, where):
    out = os.path.join(work, "output")
    if debug:
        kept_ok, removed = ok, failed
        settle(lambda: not any(os.path.exists(os.path.join(out, sid)) for sid in removed))
        dirs = {sid: os.path.join(out, sid) for sid in kept_ok}
        for sid in removed:
            ctx.check(not os.path.exists(os.path.join(out, sid)), "failed-not-moved", lambda: (sid, where))
    else:
        settle(lambda: not any(os.path.exists(os.path.join(out, sid)) for sid in ok + failed))
        for sid in ok + failed:
            ctx.check(not os.path.exists(os.path.join(out, sid)), "workspace-left", lambda: (sid, where))
        dirs = {sid: os.path.join(out, "several_successful", sid) for sid in ok if int(sid[-7:]) < KEPT}
        ctx.equal(sorted(os.listdir(os.path.join(out, "several_successful"))), sorted(dirs), "kept-successful", where)
    for sid, d in dirs.items():
        ctx.equal({k: v for k, v in tree_of(d).items() if k != "dangling"}, expected_tree(sid, common), "successful-content", (sid, where))
        ctx.event("successful_kept")
    left = sorted(os.listdir(os.path.join(out, "failed")))
    ctx.equal(left, sorted(failed), "failed-directories", where)
    for sid in failed:
        d = os.path.join(out, "failed", sid)
        ctx.equal({k: v for k, v in tree_of(d).items() if k != "dangling"}, expected_tree(sid, common), "failed-content", (sid, where))
        ctx.event("failed_kept")


@scenario("C21", quick=48, thorough=500, timeout=80)
def workspaces(ctx, rng):
    kind = str(rng.choice(["one", "process", "pbs"], p=[0.4, 0.3, 0.3]))
    debug = bool(rng.integers(2))
    common = make_common(ctx, rng)
    work = os.path.join(ctx.scratch, "work dir" if kind != "pbs" else "work")
    if rng.integers(2):
        # Results of an older run
        os.makedirs(os.path.join(work, "output", "failed", "L00_S9999999"))
        with open(os.path.join(work, "output", "failed", "L00_S9999999", "old"), "w") as f:
            f.write("old")
        old = True
        if debug and rng.integers(2):
            # Workspace of the same sample of an older run
            stale = os.path.join(work, "output", "L00_S0000000")
            os.makedirs(stale)
            for name in common:
                with open(os.path.join(stale, name), "w") as f:
                    f.write("old " + name)
    else:
        os.makedirs(work)
        old = False
    with open(os.path.join(work, "user_file"), "w") as f:
        f.write("keep")
    n_levels = gen.n_levels(rng, 1, 4)
    log = os.path.join(ctx.scratch, "calls.log")
    table = [None, ["ok", "raise"], ["ok", "ok", "short", "raise"], ["raise"]][int(rng.integers(4))]
    files = [os.path.join(ctx.scratch, name) for name in common]
    sim = sims.WsSim(table=table, log=log, workspace=True, common_files=files if files or rng.integers(2) else None,
                     delay=0.02 if kind == "process" else 0, task_size=0.3)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    n = [int(x) for x in rng.integers(1, 9, n_levels)]
    where = (kind, "debug" if debug else "", table, n, "old" if old else "")
    sids = [gen.sample_id(l, i) for l in range(n_levels) for i in range(n[l])]
    storage = gen.rec_storage("memory", ctx.scratch)
    cwd = os.getcwd()

    def drive(pool):
        ctx.equal(os.path.exists(os.path.join(work, "output", "failed", "L00_S9999999", "old")), old and debug, "older-run", where)
        ctx.check(os.path.exists(os.path.join(work, "user_file")), "user-file-removed", where)
        if old and debug:
            os.remove(os.path.join(work, "output", "failed", "L00_S9999999", "old"))
            os.rmdir(os.path.join(work, "output", "failed", "L00_S9999999"))
        sampler = Sampler(storage, pool, sim, params)
        sampler.set_level_target_n_samples(n)
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        ok = [s[1] for s in storage.saved_successful()]
        failed = [s[1] for s in storage.saved_failed()]
        ctx.equal(sorted(ok + failed), sorted(sids), "all-samples", where)
        ref = sorted(s for s in sids if sims.expected_outcome(sim, SamplingPool.compute_seed(s)) == "ok")
        ctx.equal(sorted(ok), ref, "failed-by-workspace", lambda: (where, [m for _, _, m in storage.saved_failed()][:1]))
        for level, sid, pair in storage.saved_successful():
            fine, coarse = sims.expected_pair(sim, params, level, SamplingPool.compute_seed(sid))
            ctx.same(pair[0], fine, "fine-result", where)
            ctx.same(pair[1], coarse, "coarse-result", where)
        calls = read_log(log)
        ctx.equal(len(calls), len(sids), "number-of-calls", where)
        check_calls(ctx, calls, work, common, set(sids), where)
        check_trees(ctx, work, common, ok, failed, debug, where)
        # Originals are untouched
        for name, text in common.items():
            ctx.equal(open(os.path.join(ctx.scratch, name)).read(), text, "common-file-changed", where)
        return len(ok)
    if kind == "pbs":
        with FakePbs(os.path.join(ctx.scratch, "pbs")) as pbs:
            pool = DrivenPool(work_dir=work, debug=debug)
            pool.hook = lambda: [pbs.run(job) for job in list(pbs.update()) if job[2] != "F"]
            pbs_setting(pool, pbs.python)
            n_ok = drive(pool)
    else:
        pool = make_pool(kind, 3, work_dir=work if rng.integers(2) else os.path.relpath(work), debug=debug)
        try:
            n_ok = drive(pool)
        finally:
            close_pool(pool)
    os.chdir(cwd)
    ctx.state(kind, debug, str(table), tuple(n), len(common), n_ok)
    ctx.note("{} common files {} successful {} of {}".format(where, sorted(common), n_ok, len(sids)))


@scenario("C21", quick=20, thorough=200, timeout=80)
def renewed(ctx, rng):
    """Renewed sample gets a fresh workspace"""
    kind = str(rng.choice(["one", "process"]))
    common = make_common(ctx, rng)
    work = os.path.join(ctx.scratch, "work")
    os.makedirs(work)
    markers = os.path.join(ctx.scratch, "markers")
    os.makedirs(markers)
    log = os.path.join(ctx.scratch, "calls.log")
    n_levels = int(rng.integers(1, 3))
    sim = sims.WsSim(table=["ok", "raise", "raise"], log=log, marker_dir=markers, workspace=True,
                     common_files=[os.path.join(ctx.scratch, name) for name in common])
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    n = [int(x) for x in rng.integers(2, 9, n_levels)]
    sids = [gen.sample_id(l, i) for l in range(n_levels) for i in range(n[l])]
    storage = gen.rec_storage(str(rng.choice(["memory", "hdf"])), ctx.scratch)
    pool = make_pool(kind, 2, work_dir=work)
    try:
        sampler = Sampler(storage, pool, sim, params)
        sampler.set_level_target_n_samples(n)
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        failed = [s[1] for s in storage.saved_failed()]
        check_trees(ctx, work, common, [s[1] for s in storage.saved_successful()], failed, False, "before renewal")
        sampler.renew_failed_samples()
        sampler.ask_sampling_pool_for_samples()
        ok = [s[1] for s in storage.saved_successful()]
        ctx.equal(sorted(ok), sorted(sids), "renewed-all", kind)
        calls = read_log(log)
        ctx.equal(len(calls), len(sids) + len(failed), "number-of-calls", kind)
        check_calls(ctx, calls, work, common, set(sids), kind)
        out = os.path.join(work, "output")
        settle(lambda: not any(os.path.exists(os.path.join(out, sid)) for sid in sids))
        ctx.equal([s for s in sids if os.path.exists(os.path.join(out, s))], [], "workspace-left", kind)
        ctx.equal(sorted(os.listdir(os.path.join(out, "several_successful"))), sorted(s for s in sids if int(s[-7:]) < KEPT), "kept-successful")
        ctx.event("renewed", len(failed))
        ctx.state(kind, tuple(n), len(failed), len(common))
    finally:
        close_pool(pool)


@scenario("C21", quick=20, thorough=200, timeout=80)
def failed_again(ctx, rng):
    """Samples fail repeatedly, what is kept is the workspace of the last run; common files differ by level"""
    kind = str(rng.choice(["one", "process", "pbs"]))
    debug = bool(rng.integers(2))
    work = os.path.join(ctx.scratch, "work")
    os.makedirs(work)
    markers = os.path.join(ctx.scratch, "markers")
    os.makedirs(markers)
    log = os.path.join(ctx.scratch, "calls.log")
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    common, level_files = [], {}
    for level in range(n_levels):
        # The same names, different content
        directory = os.path.join(ctx.scratch, "files_{}".format(level))
        os.makedirs(directory)
        names = ["mesh.msh", "input.yaml", "level_{}".format(level)][:int(rng.integers(0, 4))]
        common.append({name: "{} of level {}".format(name, level) for name in names})
        for name, text in common[-1].items():
            with open(os.path.join(directory, name), "w") as f:
                f.write(text)
        level_files[params[level][0]] = [os.path.join(directory, name) for name in names]
    n_fails = int(rng.integers(2, 4))
    sim = sims.WsSim(table=[["ok", "raise"], ["raise"], ["ok", "short", "raise"]][int(rng.integers(3))], log=log, marker_dir=markers,
                     workspace=True, level_files=level_files, n_fails=n_fails, task_size=0.3)
    n = [int(x) for x in rng.integers(1, 8, n_levels)]
    where = (kind, "debug" if debug else "", sim.table, n, n_fails)
    storage = gen.rec_storage(str(rng.choice(["memory", "hdf"])), ctx.scratch)
    ids = [(l, gen.sample_id(l, i)) for l in range(n_levels) for i in range(n[l])]
    bad = sorted(s for _, s in ids if sims.expected_outcome(sim, SamplingPool.compute_seed(s)) != "ok")

    def drive(pool):
        sampler = Sampler(storage, pool, sim, params)
        sampler.set_level_target_n_samples(n)
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        out = os.path.join(work, "output")
        for run in range(1, n_fails + 2):
            if run > 1:
                sampler.renew_failed_samples()
                sampler.ask_sampling_pool_for_samples()
            left = sorted(s for items in storage.failed_samples().values() for s in items)
            ctx.equal(left, bad if run <= n_fails else [], "failed", (run, where))
            running = [] if debug else [s for _, s in ids]
            settle(lambda: not any(os.path.exists(os.path.join(out, s)) for s in running))
            for level, sid in ids:
                ref = expected_tree(sid, common[level])
                if sid in bad:
                    ref["run_{}".format(run)] = str(run)
                if sid in bad and run <= n_fails:
                    d = os.path.join(out, "failed", sid)
                elif debug:
                    d = os.path.join(out, sid)
                elif int(sid[-7:]) < KEPT:
                    d = os.path.join(out, "several_successful", sid)
                else:
                    continue
                tree = tree_of(d)
                tree.pop("dangling", None)
                ctx.equal(tree, ref, "kept-content", (sid, run, where))
                ctx.event("trees")
        calls = read_log(log)
        ctx.equal(len(calls), len(ids) + n_fails * len(bad), "number-of-calls", where)
        for level in range(n_levels):
            sids = {s for l, s in ids if l == level}
            check_calls(ctx, [c for c in calls if os.path.basename(c[1]) in sids], work, common[level], sids, where)
        ctx.equal(sorted(s[1] for s in storage.saved_successful()), sorted(s for _, s in ids), "successful-once", where)
        ctx.event("renewed", n_fails * len(bad))
    cwd = os.getcwd()
    if kind == "pbs":
        with FakePbs(os.path.join(ctx.scratch, "pbs")) as pbs:
            pool = DrivenPool(work_dir=work, debug=debug)
            pool.hook = lambda: [pbs.run(job) for job in list(pbs.update()) if job[2] != "F"]
            pbs_setting(pool, pbs.python)
            drive(pool)
    else:
        pool = make_pool(kind, 3, work_dir=work, debug=debug)
        try:
            drive(pool)
        finally:
            close_pool(pool)
    os.chdir(cwd)
    ctx.state(kind, debug, str(sim.table), tuple(n), n_fails)


@scenario("C21", quick=12, thorough=100, timeout=80)
def missing_file(ctx, rng):
    """A common file that can not be copied fails samples one by one, others are not affected"""
    kind = str(rng.choice(["one", "process"]))
    work = os.path.join(ctx.scratch, "work")
    os.makedirs(work)
    log = os.path.join(ctx.scratch, "calls.log")
    name = os.path.join(ctx.scratch, "input.yaml")
    with open(name, "w") as f:
        f.write("x")
    sim = sims.WsSim(log=log, workspace=True, common_files=[name])
    storage = gen.rec_storage("memory", ctx.scratch)
    pool = make_pool(kind, 2, work_dir=work)
    try:
        sampler = Sampler(storage, pool, sim, [[1.0]])
        a, b, c = (int(x) for x in rng.integers(1, 5, 3))
        sampler.set_level_target_n_samples([a])
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        os.remove(name)
        sampler.set_level_target_n_samples([a + b])
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        with open(name, "w") as f:
            f.write("x")
        sampler.set_level_target_n_samples([a + b + c])
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        failed = sorted(s[1] for s in storage.saved_failed())
        ctx.equal(failed, [gen.sample_id(0, i) for i in range(a, a + b)], "failed-samples", kind)
        ctx.equal(len(storage.saved_successful()), a + c, "successful-samples", kind)
        calls = read_log(log)
        check_calls(ctx, calls, work, {"input.yaml": "x"}, {gen.sample_id(0, i) for i in range(a + b + c)}, kind)
        ctx.equal(len(calls), a + c, "calls", kind)
        ctx.state(kind, a, b, c)
    finally:
        close_pool(pool)


@scenario("C21", quick=8, thorough=60, timeout=80)
def changed_mode(ctx, rng):
    """A batch pool over the work directory of another one, in debug mode or without it"""
    common = make_common(ctx, rng)
    work = os.path.join(ctx.scratch, "work")
    os.makedirs(work)
    n_levels = int(rng.integers(1, 3))
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    modes = [bool(m) for m in rng.integers(0, 2, 3)]
    with FakePbs(os.path.join(ctx.scratch, "pbs")) as pbs:
        kept_ok, kept_failed = [], []
        for run, debug in enumerate(modes):
            log = os.path.join(ctx.scratch, "calls{}.log".format(run))
            sim = sims.WsSim(table=["ok", "ok", "raise"], log=log, workspace=True, task_size=0.3,
                             common_files=[os.path.join(ctx.scratch, name) for name in common])
            pool = DrivenPool(work_dir=work, debug=debug)
            pool.hook = lambda: [pbs.run(job) for job in list(pbs.update()) if job[2] != "F"]
            pbs_setting(pool, pbs.python)
            storage = gen.rec_storage("memory", ctx.scratch)
            if not debug:
                kept_ok, kept_failed = [], []
            # Other samples in each run
            first = sum(100 for _ in range(run))
            for level in range(n_levels):
                storage.save_scheduled_samples(level, [gen.sample_id(level, 1000000 + i) for i in range(first)])
            sampler = Sampler(storage, pool, sim, params)
            n = [first + int(x) for x in rng.integers(2, 7, n_levels)]
            sampler.set_level_target_n_samples(n)
            sampler.schedule_samples()
            sampler.ask_sampling_pool_for_samples()
            ok = [s[1] for s in storage.saved_successful()]
            failed = [s[1] for s in storage.saved_failed()]
            where = (modes[:run + 1], n)
            ctx.equal(len(ok) + len(failed), sum(n) - first * n_levels, "all-samples", where)
            if debug:
                kept_ok, kept_failed = kept_ok + ok, kept_failed + failed
                out = os.path.join(work, "output")
                for sid in kept_ok:
                    ctx.check(os.path.isdir(os.path.join(out, sid)), "not-kept-in-debug", lambda: (sid, where))
                ctx.equal(sorted(os.listdir(os.path.join(out, "failed"))), sorted(kept_failed), "failed-directories", where)
            else:
                check_trees(ctx, work, common, ok, failed, False, where)
                kept_failed = failed
            ctx.event("runs")
    ctx.state(tuple(modes), tuple(n))
