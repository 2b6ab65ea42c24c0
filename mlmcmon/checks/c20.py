"""C20: samples computed by jobs of a batch system"""
import os
import sys
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmc.sampling_pool_pbs import SamplingPoolPBS
from mlmcmon.core import scenario
from mlmcmon import gen, sims
from mlmcmon.fakepbs import FakePbs, pbs_setting

LEVEL = "fault_enumeration"
RULE = """The pool runs against stand-ins of qsub and qstat controlled by the harness. Random programs schedule samples of levels with
various task sizes, run jobs in any order, kill them within a sample, lose them, let qsub and qstat fail temporarily, and
restart the main process with reopened storage at random points. Event logs (scheduled, computed by the simulation itself,
delivered) are checked for exactly-once delivery, right results, failure of just those samples without a result, and the
number of running samples after every poll. A state is a distinct sequence of job outcomes, faults and polls."""
ASSUMPTIONS = ["jobs are killed within the simulation of a sample, not while a result file is written",
               "recovery after restart needs the work directory kept (debug mode)"]

TABLES = [None, ["ok", "ok", "raise"], ["ok", "ok", "ok", "short", "unicode", "raise"], ["ok"] * 11 + ["die"], ["ok"] * 6 + ["raise", "die"]]


def make_levels(rng, ctx, table, log, n_levels, task_size, delay=0.0):
    sim = sims.DetSim(table=table, log=log, task_size=task_size, delay=delay)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    return sim, params


def level_sims(sim, params):
    out = []
    for level in range(len(params)):
        ls = sim.level_instance(params[level], [0] if level == 0 else params[level - 1])
        ls._calculate, ls._result_format, ls._level_id = sim.calculate, sim.result_format, level
        out.append(ls)
    return out


def computed(log):
    """Seeds the simulation was called for, in order"""
    if not os.path.exists(log):
        return []
    with open(log) as f:
        return [int(line.split()[0]) for line in f]


def check_result(ctx, sim, params, level, sid, pair, where):
    seed = SamplingPool.compute_seed(sid)
    ctx.equal(sims.expected_outcome(sim, seed), "ok", "failed-sample-successful", (where, sid))
    fine, coarse = sims.expected_pair(sim, params, level, seed)
    ctx.same(np.asarray(pair[0]), fine, "wrong-fine-result", (where, sid))
    ctx.same(np.asarray(pair[1]), coarse, "wrong-coarse-result", (where, sid))
    ctx.equal(int(sid[1:3]), int(level), "wrong-level", (where, sid))


def advance(ctx, rng, pbs, probs, trace):
    """Let some jobs progress"""
    for job in list(pbs.update()):
        if job[2] == "F":
            continue
        what = str(rng.choice(["wait", "running", "run", "lost"], p=probs))
        if what == "running":
            pbs.set_state(job, str(rng.choice(list("RRREHSWT"))))
        elif what == "run":
            rc = pbs.run(job)
            trace.append("run" if rc == 0 else "died")
            ctx.event("jobs_run")
            if rc != 0:
                ctx.event("jobs_died")
        elif what == "lost":
            pbs.set_state(job, "F")
            trace.append("lost")
            ctx.event("jobs_lost")


@scenario("C20", quick=40, thorough=400, timeout=80)
def programs(ctx, rng):
    n_levels = gen.n_levels(rng, 1, 4)
    table = TABLES[int(rng.integers(len(TABLES)))]
    log = os.path.join(ctx.scratch, "calls.log")
    task = float(rng.choice([0.05, 0.2, 0.6, 1.5]))
    sim, params = make_levels(rng, ctx, table, log, n_levels, task, delay=0.02)
    lsims = level_sims(sim, params)
    with FakePbs(os.path.join(ctx.scratch, "pbs"), first=int(rng.choice([1, 5, 9, 99, 1237])), step=int(rng.choice([1, 1, 10])),
                 name=str(rng.choice(["mlmc", "flow123d", "F"])), user=str(rng.choice(["user", "Frank"])),
                 queue=str(rng.choice(["charon", "Fast", "F"]))) as pbs:
        pool = SamplingPoolPBS(work_dir=os.path.join(ctx.scratch, "work"), debug=bool(rng.integers(2)))
        pbs_setting(pool, pbs.python)
        scheduled, delivered, trace = [], {}, []
        count = [0] * n_levels
        t_total, t_n = [0.0] * n_levels, [0] * n_levels
        lost_p = float(rng.choice([0, 0, 0.1]))

        def poll():
            success, failed, n_running, times = pool.get_finished()
            trace.append("poll")
            for level, items in success.items():
                for sid, pair in items:
                    ctx.check(sid not in delivered, "delivered-twice", lambda: (sid, trace))
                    ctx.check(sid in scheduled, "not-scheduled", sid)
                    delivered[sid] = "ok"
                    check_result(ctx, sim, params, level, sid, pair, trace)
            for level, items in failed.items():
                for sid, msg in items:
                    ctx.check(sid not in delivered, "delivered-twice", lambda: (sid, trace))
                    ctx.check(sid in scheduled, "not-scheduled", sid)
                    ctx.check(isinstance(msg, str) and msg != "", "no-message", sid)
                    ctx.equal(int(sid[1:3]), int(level), "wrong-level", sid)
                    delivered[sid] = "failed"
            ctx.equal(int(n_running), len(scheduled) - len(delivered), "n-running", trace)
            for level, (t, n) in times:
                t_total[level] += t
                t_n[level] += n
            ctx.event("polls")

        for step in range(int(rng.integers(2, 6))):
            for _ in range(int(rng.integers(1, 16))):
                level = int(rng.integers(n_levels))
                sid = gen.sample_id(level, count[level])
                count[level] += 1
                scheduled.append(sid)
                pool.schedule_sample(sid, lsims[level])
            ctx.event("samples", len(scheduled))
            if rng.random() < 0.4:
                n = int(rng.integers(1, 5))
                (pbs.fail_qsub if rng.integers(2) else pbs.fail_qstat)(n)
                trace.append("fault")
                ctx.event("command_faults", n)
            for _ in range(int(rng.integers(1, 3))):
                advance(ctx, rng, pbs, [0.3 - lost_p, 0.2, 0.5, lost_p], trace)
                poll()
        pbs.fail_qsub(0)
        pbs.fail_qstat(0)
        poll()
        advance(ctx, rng, pbs, [0, 0, 1, 0], trace)
        poll()
        ctx.equal(sorted(delivered), sorted(scheduled), "not-delivered", trace)
        # Exactly those samples that the simulation computed without an error are successful
        calls = computed(log)
        ctx.equal(len(calls), len(set(calls)), "computed-twice", trace)
        seeds = {int(SamplingPool.compute_seed(sid)): sid for sid in scheduled}
        ctx.check(set(calls) <= set(seeds), "computed-unknown-seed", trace)
        ok = sorted(seeds[s] for s in calls if sims.expected_outcome(sim, s) == "ok")
        ctx.equal(sorted(sid for sid, r in delivered.items() if r == "ok"), ok, "computed-but-not-successful", trace)
        if "lost" not in trace and "died" not in trace:
            ctx.equal(len(calls), len(scheduled), "not-computed", trace)
        finished = [s for s in calls if sims.expected_outcome(sim, s) != "die"]
        per_level = [sum(1 for s in finished if seeds[s].startswith("L{:02d}".format(l))) for l in range(n_levels)]
        ctx.equal([int(x) for x in t_n], per_level, "timed-samples", trace)
        # The time of computed samples is neither lost nor counted twice
        for l in range(n_levels):
            least = sum(sim.delay_of(s) for s in finished if seeds[s].startswith("L{:02d}".format(l)))
            ctx.check(t_total[l] >= 0.99 * least - 1e-3, "time-lost", (l, t_total, least, trace))
        ctx.check(sum(t_total) <= 1.01 * pbs.elapsed + 1e-2, "time-counted-twice", (t_total, pbs.elapsed, trace))
        ctx.event("timed_samples", len(finished))
        # Nothing more comes
        poll()
        ctx.event("jobs", len(pbs.jobs))
        ctx.state(tuple(trace), n_levels, len(scheduled), len(pbs.jobs))
        ctx.note("{} samples {} jobs {} ok {}".format(len(scheduled), len(pbs.jobs), trace, len(ok)))


@scenario("C20", quick=2, thorough=10, timeout=150)
def large_job(ctx, rng):
    """More samples than may be in a single job"""
    sim = sims.DetSim(task_size=1e-6)
    params = [[1.0], [0.5]]
    n = [1000 + int(rng.integers(0, 30)), int(rng.integers(1, 30))]
    with FakePbs(os.path.join(ctx.scratch, "pbs")) as pbs:
        pool = SamplingPoolPBS(work_dir=os.path.join(ctx.scratch, "work"))
        pbs_setting(pool, pbs.python)
        lsims = level_sims(sim, params)
        sids = [gen.sample_id(l, i) for l in range(2) for i in range(n[l])]
        faults = {int(i) for i in rng.integers(len(sids) - 40, len(sids), int(rng.integers(3)))}
        for i, sid in enumerate(sids):
            if i in faults:
                # Samples wait for the next submission, also above the limit of the job
                pbs.fail_qsub(int(rng.integers(1, 8)))
            pool.schedule_sample(sid, lsims[int(sid[1:3])])
        pbs.fail_qsub(0)
        success, failed, n_running, _ = pool.get_finished()
        ctx.equal([success, failed, int(n_running)], [{}, {}, len(sids)], "before-run")
        for job in list(pbs.update()):
            ctx.equal(pbs.run(job), 0, "job-exit-status")
        success, failed, n_running, _ = pool.get_finished()
        ctx.equal([failed, int(n_running)], [{}, 0], "after-run")
        ctx.equal([sorted(sid for sid, _ in success.get(l, [])) for l in range(2)],
                  [[sid for sid in sids if int(sid[1:3]) == l] for l in range(2)], "delivered")
        for level in success:
            for sid, pair in success[level]:
                check_result(ctx, sim, params, level, sid, pair, "large")
        ctx.event("samples", len(sids))
        ctx.event("jobs", len(pbs.jobs))
        ctx.state(tuple(n), len(pbs.jobs))


class DrivenPool(SamplingPoolPBS):
    """Jobs progress before each poll"""
    hook = None

    def get_finished(self):
        if self.hook:
            self.hook()
        return super().get_finished()


@scenario("C20", quick=16, thorough=150, timeout=80)
def sampler_run(ctx, rng):
    """Whole run by the sampler over file storage, faults of commands and jobs included"""
    n_levels = gen.n_levels(rng, 1, 4)
    table = TABLES[int(rng.integers(len(TABLES)))]
    log = os.path.join(ctx.scratch, "calls.log")
    sim, params = make_levels(rng, ctx, table, log, n_levels, float(rng.choice([0.1, 0.4, 1.5])))
    trace = []
    with FakePbs(os.path.join(ctx.scratch, "pbs"), first=int(rng.integers(1, 2000))) as pbs:
        pool = DrivenPool(work_dir=os.path.join(ctx.scratch, "work"), debug=bool(rng.integers(2)))
        pool.hook = lambda: advance(ctx, rng, pbs, [0.4, 0.2, 0.4, 0], trace)
        pbs_setting(pool, pbs.python)
        storage = gen.rec_storage("hdf", ctx.scratch)
        sampler = Sampler(storage, pool, sim, params)
        n = [int(x) for x in rng.integers(1, 12, n_levels)]
        sampler.set_level_target_n_samples(n)
        sampler.schedule_samples(timeout=1e-10)
        if rng.integers(2):
            pbs.fail_qstat(int(rng.integers(1, 6)))
        sampler.ask_sampling_pool_for_samples()
        ctx.equal([int(x) for x in sampler.n_finished_samples], n, "all-finished", trace)
        # Next samples
        n2 = [a + int(b) for a, b in zip(n, rng.integers(0, 6, n_levels))]
        sampler.set_level_target_n_samples(n2)
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        ctx.equal([int(x) for x in sampler.n_finished_samples], n2, "all-finished-next", trace)
        ids = [s[1] for s in storage.saved_successful()] + [s[1] for s in storage.saved_failed()]
        ctx.equal(sorted(ids), sorted(gen.sample_id(l, i) for l in range(n_levels) for i in range(n2[l])), "stored-exactly-once", trace)
        for level, sid, pair in storage.saved_successful():
            check_result(ctx, sim, params, level, sid, pair, trace)
        ctx.event("samples", len(ids))
        ctx.state(tuple(trace), tuple(n2))


@scenario("C20", quick=30, thorough=300, timeout=80)
def restart(ctx, rng):
    """The main process ends at a random point and is started again with the reopened storage"""
    n_levels = gen.n_levels(rng, 1, 4)
    table = TABLES[int(rng.integers(len(TABLES)))]
    log = os.path.join(ctx.scratch, "calls.log")
    sim, params = make_levels(rng, ctx, table, log, n_levels, float(rng.choice([0.1, 0.4, 1.5])))
    trace = []
    target = [0] * n_levels
    saved = []          # (sid, result) of all runs

    with FakePbs(os.path.join(ctx.scratch, "pbs"), first=int(rng.integers(1, 2000))) as pbs:
        def start(probs):
            pool = DrivenPool(work_dir=os.path.join(ctx.scratch, "work"), debug=True)
            pool.hook = lambda: advance(ctx, rng, pbs, probs, trace)
            pbs_setting(pool, pbs.python)
            storage = gen.rec_storage("hdf", ctx.scratch)
            before = set(storage.unfinished_ids()) if target != [0] * n_levels else set()
            sampler = Sampler(storage, pool, sim, params)
            return pool, storage, sampler, before

        def take(storage):
            for level, sid, pair in storage.saved_successful():
                check_result(ctx, sim, params, level, sid, pair, trace)
                saved.append((sid, "ok"))
            for level, sid, msg in storage.saved_failed():
                saved.append((sid, "failed"))

        n_runs = int(rng.integers(2, 4))
        for run in range(n_runs):
            pool, storage, sampler, before = start([0.5, 0.2, 0.3, 0.0])
            if run > 0:
                # Results of the jobs that ended meanwhile
                have = {seed for seed in computed(log)}
                ready = {sid for sid in before if int(SamplingPool.compute_seed(sid)) in have
                         and sims.expected_outcome(sim, SamplingPool.compute_seed(sid)) != "die"}
                pool.hook = None
                sampler.ask_sampling_pool_for_samples(timeout=1e-10)
                got = [s[1] for s in storage.saved_successful()] + [s[1] for s in storage.saved_failed()]
                ctx.equal(sorted(got), sorted(ready), "recovered", trace)
                ctx.event("recovered", len(ready))
                pool.hook = lambda: advance(ctx, rng, pbs, [0.5, 0.2, 0.3, 0.0], trace)
            target = [t + int(x) for t, x in zip(target, rng.integers(1, 9, n_levels))]
            sampler.set_level_target_n_samples(target)
            sampler.schedule_samples(timeout=1e-10)
            for _ in range(int(rng.integers(0, 4))):
                sampler.ask_sampling_pool_for_samples(timeout=1e-10)
            take(storage)
            trace.append("crash")
            # Jobs go on without the main process
            if rng.integers(2):
                advance(ctx, rng, pbs, [0.2, 0.0, 0.8, 0.0], trace)
        advance(ctx, rng, pbs, [0, 0, 1, 0], trace)
        pool, storage, sampler, before = start([0, 0, 1, 0])
        sampler.ask_sampling_pool_for_samples()
        take(storage)
        ids = [sid for sid, _ in saved]
        ctx.equal(len(ids), len(set(ids)), "stored-twice", lambda: trace)
        calls = computed(log)
        ctx.equal(len(calls), len(set(calls)), "computed-twice", trace)
        seeds = {int(SamplingPool.compute_seed(gen.sample_id(l, i))): gen.sample_id(l, i) for l in range(n_levels) for i in range(target[l])}
        done = sorted(seeds[s] for s in calls if sims.expected_outcome(sim, s) != "die")
        own_failed = {sid for sid, r in saved if r == "failed"}
        ctx.check(set(done) <= set(ids), "computed-not-stored", lambda: (sorted(set(done) - set(ids)), trace))
        ok = sorted(seeds[s] for s in calls if sims.expected_outcome(sim, s) == "ok")
        ctx.equal(sorted(sid for sid, r in saved if r == "ok"), ok, "successful", trace)
        loaded = storage.load_scheduled_samples()
        ctx.equal([len(set(loaded[l])) for l in range(n_levels)], target, "scheduled", trace)
        ctx.event("restarts", n_runs)
        ctx.event("samples", len(ids))
        ctx.state(tuple(trace), tuple(target))
        ctx.note("runs {} target {} stored {} {}".format(n_runs, target, len(ids), trace))


@scenario("C20", quick=14, thorough=120, timeout=80)
def renewal(ctx, rng):
    """Failed samples are renewed in other jobs, the main process may end before these are collected"""
    n_levels = gen.n_levels(rng, 1, 4)
    log = os.path.join(ctx.scratch, "calls.log")
    markers = os.path.join(ctx.scratch, "markers")
    os.makedirs(markers)
    sim = sims.DetSim(table=[["ok", "raise"], ["raise"], ["ok", "ok", "unicode", "short"]][int(rng.integers(3))], log=log,
                      marker_dir=markers, task_size=float(rng.choice([0.05, 0.3, 1.5])))
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    trace, ok_saved = [], []
    every = [0, 0, 1, 0]

    with FakePbs(os.path.join(ctx.scratch, "pbs"), first=int(rng.integers(1, 2000))) as pbs:
        def start(probs=None):
            pool = DrivenPool(work_dir=os.path.join(ctx.scratch, "work"), debug=True)
            pool.hook = (lambda: advance(ctx, rng, pbs, probs, trace)) if probs else None
            pbs_setting(pool, pbs.python)
            storage = gen.rec_storage("hdf", ctx.scratch)
            return pool, storage, Sampler(storage, pool, sim, params)

        def take(storage):
            got = []
            for level, sid, pair in storage.saved_successful():
                seed = SamplingPool.compute_seed(sid)
                fine, coarse = sims.expected_pair(sim, params, level, seed)
                ctx.same(np.asarray(pair[0]), fine, "wrong-fine-result", (trace, sid))
                ctx.same(np.asarray(pair[1]), coarse, "wrong-coarse-result", (trace, sid))
                got.append(sid)
            ok_saved.extend(got)
            return sorted(got)

        pool, storage, sampler = start(every)
        n = [int(x) for x in rng.integers(1, 9, n_levels)]
        sampler.set_level_target_n_samples(n)
        sampler.schedule_samples(timeout=1e-10)
        sampler.ask_sampling_pool_for_samples()
        ids = [gen.sample_id(l, i) for l in range(n_levels) for i in range(n[l])]
        bad = sorted(s for s in ids if sims.expected_outcome(sim, SamplingPool.compute_seed(s)) != "ok")
        ctx.equal(sorted(s[1] for s in storage.saved_failed()), bad, "failed", trace)
        ctx.equal(take(storage), sorted(set(ids) - set(bad)), "successful", trace)
        if rng.integers(2):
            trace.append("restart")
            pool, storage, sampler = start()
        pool.hook = None
        sampler.renew_failed_samples()
        sampler.ask_sampling_pool_for_samples(timeout=1e-10)      # submits the jobs
        trace.append("renewed")
        ctx.event("renewed", len(bad))
        advance(ctx, rng, pbs, [0.3, 0.2, 0.5, 0], trace)
        if rng.integers(3):
            trace.append("crash")
            if rng.integers(2):
                advance(ctx, rng, pbs, [0.3, 0.2, 0.5, 0], trace)
            for last in (False, True):
                if last:
                    advance(ctx, rng, pbs, every, trace)
                pool, storage, sampler = start()
                calls = computed(log)
                ready = sorted(s for s in bad if s not in ok_saved and calls.count(int(SamplingPool.compute_seed(s))) == 2)
                sampler.ask_sampling_pool_for_samples(timeout=1e-10)
                ctx.equal([s[1] for s in storage.saved_failed()], [], "failure-reported-again", trace)
                ctx.equal(take(storage), ready, "recovered", trace)
                trace.append("restart")
                ctx.event("restarts")
        else:
            pool.hook = lambda: advance(ctx, rng, pbs, [0.3, 0.2, 0.5, 0], trace)
            sampler.ask_sampling_pool_for_samples()
            ok_saved = [s for s in ok_saved if s not in {x[1] for x in storage.saved_successful()}]
            take(storage)
        ctx.equal(sorted(ok_saved), sorted(ids), "stored-exactly-once", trace)
        calls = computed(log)
        ctx.equal(len(calls), len(ids) + len(bad), "number-of-calls", trace)
        ctx.equal({int(k): len(v) for k, v in storage.failed_samples().items() if len(v)}, {}, "no-failed-left", trace)
        ctx.equal([int(x) for x in storage.n_finished()], n, "n-finished", trace)
        ctx.event("samples", len(ids))
        ctx.state(tuple(trace), tuple(n), len(bad))


@scenario("C20", quick=8, thorough=60, timeout=80)
def repeated_faults(ctx, rng):
    """Temporary failures of the commands, many in total but never more than ten in a row"""
    log = os.path.join(ctx.scratch, "calls.log")
    sim, params = make_levels(rng, ctx, None, log, 1, float(rng.choice([0.3, 0.6])))
    ls = level_sims(sim, params)[0]
    trace, scheduled, delivered = [], [], []
    with FakePbs(os.path.join(ctx.scratch, "pbs"), first=int(rng.integers(1, 2000))) as pbs:
        pool = SamplingPoolPBS(work_dir=os.path.join(ctx.scratch, "work"), debug=bool(rng.integers(2)))
        pbs_setting(pool, pbs.python)

        def poll():
            success, failed, n_running, _ = pool.get_finished()
            for part in (success, failed):
                for items in part.values():
                    delivered.extend(sid for sid, _ in items)
            ctx.equal(int(n_running), len(scheduled) - len(delivered), "n-running", trace)
            ctx.event("polls")
        for step in range(int(rng.integers(3, 6))):
            which = ["qsub", "qstat"][int(rng.integers(2))]
            n = 10 if rng.random() < 0.4 else int(rng.integers(3, 10))
            if which == "qstat" or rng.integers(2):
                scheduled.append(gen.sample_id(0, len(scheduled)))
                pool.schedule_sample(scheduled[-1], ls)
                poll()
            (pbs.fail_qsub if which == "qsub" else pbs.fail_qstat)(n)
            if which == "qsub":
                scheduled.append(gen.sample_id(0, len(scheduled)))
                pool.schedule_sample(scheduled[-1], ls)
            trace.append((which, n))
            while pbs.faults_left():
                poll()
            poll()
            ctx.event("command_faults", n)
            if rng.integers(2):
                advance(ctx, rng, pbs, [0.2, 0.2, 0.6, 0], trace)
        poll()
        advance(ctx, rng, pbs, [0, 0, 1, 0], trace)
        poll()
        ctx.equal(sorted(delivered), scheduled, "delivered", trace)
        ctx.equal(len(computed(log)), len(scheduled), "computed", trace)
        ctx.state(tuple(trace))


@scenario("C20", quick=4, thorough=20, timeout=80)
def persistent_fault(ctx, rng):
    """Command that never works is reported, not waited for"""
    log = os.path.join(ctx.scratch, "calls.log")
    sim, params = make_levels(rng, ctx, None, log, 1, 0.4)
    ls = level_sims(sim, params)[0]
    with FakePbs(os.path.join(ctx.scratch, "pbs")) as pbs:
        pool = SamplingPoolPBS(work_dir=os.path.join(ctx.scratch, "work"))
        pbs_setting(pool, pbs.python)
        which = "qsub" if rng.integers(2) else "qstat"
        if which == "qsub":
            pbs.fail_qsub(1000)
        pool.schedule_sample(gen.sample_id(0, 0), ls)
        pool.get_finished()
        pbs.fail_qstat(1000)

        def polls():
            for _ in range(60):
                pool.get_finished()
        ctx.raises(polls, "fault-not-reported", which)
        ctx.event("polls")
        ctx.state(which)


@scenario("C20", quick=2, thorough=8, timeout=120)
def real_job(ctx, rng):
    """The job script with the real interpreter"""
    log = os.path.join(ctx.scratch, "calls.log")
    sim, params = make_levels(rng, ctx, ["ok", "ok", "raise", "short"], log, 2, 0.2)
    lsims = level_sims(sim, params)
    with FakePbs(os.path.join(ctx.scratch, "pbs")) as pbs:
        pool = SamplingPoolPBS(work_dir=os.path.join(ctx.scratch, "work"))
        pbs_setting(pool, sys.executable)
        ids = [(l, gen.sample_id(l, i)) for l in range(2) for i in range(3)]
        for l, sid in ids:
            pool.schedule_sample(sid, lsims[l])
        pool.get_finished()
        for job in pbs.update():
            ctx.equal(pbs.run(job, real=True), 0, "job-exit-status")
        success, failed, n_running, times = pool.get_finished()
        ctx.equal(int(n_running), 0, "n-running")
        ok = sorted(sid for l, sid in ids if sims.expected_outcome(sim, SamplingPool.compute_seed(sid)) == "ok")
        ctx.equal(sorted(sid for items in success.values() for sid, _ in items), ok, "successful")
        ctx.equal(sorted(sid for items in failed.values() for sid, _ in items), sorted(set(s for _, s in ids) - set(ok)), "failed")
        for level, items in success.items():
            for sid, pair in items:
                check_result(ctx, sim, params, level, sid, pair, "real")
        ctx.event("jobs_run", len(pbs.jobs))
        ctx.state(tuple(ok))


@scenario("C20", quick=10, thorough=80, timeout=80)
def changed_simulation(ctx, rng):
    """The run continues over the kept work directory with the simulation set differently"""
    n_levels = gen.n_levels(rng, 1, 3)
    logs = [os.path.join(ctx.scratch, "calls{}.log".format(i)) for i in range(2)]
    target = np.zeros(n_levels, dtype=int)
    trace = []
    first = bool(rng.integers(2))
    where = (n_levels, first)
    done = set()
    with FakePbs(os.path.join(ctx.scratch, "pbs"), first=int(rng.integers(1, 2000))) as pbs:
        for run, log in enumerate(logs):
            sim, params = make_levels(rng, ctx, None, log, n_levels, 0.4)
            # The first run may have been without the debug mode, its results are all collected
            pool = DrivenPool(work_dir=os.path.join(ctx.scratch, "work"), debug=first or run > 0)
            pool.hook = lambda: advance(ctx, rng, pbs, [0.2, 0.0, 0.8, 0], trace)
            pbs_setting(pool, pbs.python)
            storage = gen.rec_storage("hdf", ctx.scratch)
            sampler = Sampler(storage, pool, sim, params)
            target = target + rng.integers(1, 7, n_levels)
            sampler.set_level_target_n_samples(target)
            sampler.schedule_samples()
            sampler.ask_sampling_pool_for_samples()
            sids = {gen.sample_id(l, i) for l in range(n_levels) for i in range(target[l])}
            ctx.equal(sorted(s[1] for s in storage.saved_successful()), sorted(sids - done), "collected", where)
            ctx.equal(sorted(computed(log)), sorted(int(SamplingPool.compute_seed(s)) for s in sids - done), "simulation-of-run", (run, where))
            done = sids
            ctx.event("samples", len(sids))
    ctx.state(first, tuple(int(t) for t in target))
