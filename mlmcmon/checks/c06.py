"""C06: a reopened file storage continues the run"""
import json
import os
import signal
import subprocess
import sys
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmcmon.core import scenario
from mlmcmon import gen, sims, pools

LEVEL = "fault_enumeration"
RULE = """Random histories of a file storage (scheduling, results, failures, costs, renewals) with reopening at random points, in
the same process, in a new process and after SIGKILL of the writing process between two storage operations; all what
the storage reports is compared before and after, and with a model. Interrupted sampler runs are continued by a new
sampler. A state is a distinct (operations, reopening point, numbers of scheduled/collected/failed)."""
ASSUMPTIONS = ["the process is killed between storage operations, not within one"]


def snapshot(storage, n_levels, with_data=True):
    out = dict(
        format=[(q.name, q.unit, tuple(int(x) for x in q.shape), [float(t) for t in q.times],
                 [l if isinstance(l, str) else tuple(float(x) for x in l) for l in q.locations])
                for q in storage.load_result_format()],
        params=np.asarray(storage.get_level_parameters(), dtype=float).tolist(),
        scheduled={int(l): list(ids) for l, ids in storage.load_scheduled_samples().items()},
        unfinished=sorted(storage.unfinished_ids()),
        failed={l: list(ids) for l, ids in storage.failed_samples().items()},
        n_collected=[int(x) for x in storage.get_n_collected()],
        n_finished=[int(x) for x in storage.n_finished()],
        n_ops=[float(x) for x in storage.get_n_ops()],
        n_levels=int(storage.get_n_levels()),
        level_ids=[int(x) for x in storage.get_level_ids()])
    data = []
    for level in range(n_levels):
        data.append(gen.level_data(storage, level).tolist() if out["n_collected"][level] else [])
    out["data"] = data
    return out


class Model:
    """Reference content of the storage"""

    def __init__(self, fmt, params):
        self.fmt, self.params = fmt, params
        n = len(params)
        self.scheduled = [[] for _ in range(n)]
        self.data = [[] for _ in range(n)]
        self.ok_ids = [[] for _ in range(n)]
        self.failed = [[] for _ in range(n)]
        self.ops = [[0.0, 0.0] for _ in range(n)]

    def snapshot(self):
        n = len(self.params)
        fin = [set(self.ok_ids[l]) | set(self.failed[l]) for l in range(n)]
        return dict(
            format=[(q.name, q.unit, tuple(int(x) for x in q.shape), [float(t) for t in q.times],
                     [l if isinstance(l, str) else tuple(float(x) for x in l) for l in q.locations]) for q in self.fmt],
            params=np.asarray(self.params, dtype=float).tolist(),
            scheduled={l: list(self.scheduled[l]) for l in range(n)},
            unfinished=sorted(sid for l in range(n) for sid in self.scheduled[l] if sid not in fin[l]),
            failed={str(l): list(self.failed[l]) for l in range(n)},
            n_collected=[len(d) for d in self.data],
            n_finished=[len(self.ok_ids[l]) + len(self.failed[l]) for l in range(n)],
            n_ops=[t / k if k > 0 else 0.0 for t, k in self.ops],
            n_levels=n, level_ids=list(range(n)),
            data=[[[list(part) for part in (pair[:1] if l == 0 else pair)] for pair in self.data[l]] for l in range(n)])


def random_op(rng, model):
    """JSON-able storage operation, applied to the model as well"""
    n_levels = len(model.params)
    size = gen.fmt_size(model.fmt)
    level = int(rng.integers(n_levels))
    kind = str(rng.choice(["schedule", "schedule", "success", "success", "fail", "ops", "clear"], p=[.2, .15, .25, .15, .12, .1, .03]))
    fin = [set(model.ok_ids[l]) | set(model.failed[l]) for l in range(n_levels)]
    if kind == "schedule":
        ids = [gen.sample_id(level, len(model.scheduled[level]) + i) for i in range(int(rng.integers(0, 6)))]
        model.scheduled[level].extend(ids)
        return ["schedule", level, ids]
    if kind in ("success", "fail"):
        todo = [sid for sid in model.scheduled[level] if sid not in fin[level]]
        pick = [sid for sid in rng.permutation(todo)[:int(rng.integers(0, 5))]]
        pick = [str(x) for x in pick]
        if kind == "success":
            items = []
            for sid in pick:
                pair = gen.random_data(rng, size, 1, level)[0]
                items.append([sid, pair.tolist()])
                model.data[level].append(pair.tolist())
                model.ok_ids[level].append(sid)
            return ["success", level, items]
        items = [[sid, str(rng.choice(["error", "chyba ě", "x" * 1200]))] for sid in pick]
        model.failed[level].extend(pick)
        return ["fail", level, items]
    if kind == "ops":
        t, n = float(np.round(rng.uniform(0, 5), 3)), int(rng.integers(0, 5))
        if n > 0:
            model.ops[level][0] += t
            model.ops[level][1] += n
        return ["ops", level, [t, n]]
    for l in range(n_levels):
        model.failed[l] = []
    return ["clear"]


def apply_op(storage, op):
    if op[0] == "schedule":
        storage.save_scheduled_samples(op[1], op[2])
    elif op[0] == "success":
        storage.save_samples({op[1]: [(sid, (np.array(p[0]), np.array(p[1]))) for sid, p in op[2]]} if op[2] else {}, {})
    elif op[0] == "fail":
        storage.save_samples({}, {op[1]: [(sid, m) for sid, m in op[2]]} if op[2] else {})
    elif op[0] == "ops":
        storage.save_n_ops([(op[1], tuple(op[2]))])
    elif op[0] == "clear":
        storage.clear_failed()


def compare(ctx, got, ref, where):
    for key in ref:
        if key == "n_ops":
            ctx.close(got[key], ref[key], "reopened-n_ops", where)
        elif key == "data":
            for level, (a, b) in enumerate(zip(got[key], ref[key])):
                ctx.same(np.array(a), np.array(b), "reopened-data", (where, level))
        else:
            ctx.equal(got[key], ref[key], "reopened-" + key, where)


@scenario("C06", quick=60, thorough=700)
def histories(ctx, rng):
    fmt = gen.random_format(rng, 20)
    n_levels = gen.n_levels(rng, 1, 5)
    params = [[float(x)] for x in np.sort(rng.uniform(0.01, 5, n_levels))[::-1]]
    if rng.random() < 0.3:
        params = [p + [float(rng.uniform())] for p in params]
    model = Model(fmt, params)
    path = os.path.join(ctx.scratch, "s.hdf5")
    storage = SampleStorageHDF(path)
    storage.save_global_data(level_parameters=params, result_format=fmt)
    n_reopen, ops = 0, []
    for _ in range(int(rng.integers(3, 30))):
        op = random_op(rng, model)
        apply_op(storage, op)
        ops.append(op[0])
        if rng.random() < 0.25:
            compare(ctx, snapshot(storage, n_levels), model.snapshot(), "before")
            storage = SampleStorageHDF(path)
            compare(ctx, snapshot(storage, n_levels), model.snapshot(), "after")
            n_reopen += 1
            if rng.integers(2):
                # As a new Sampler does
                storage.save_global_data(level_parameters=params, result_format=fmt)
                compare(ctx, snapshot(storage, n_levels), model.snapshot(), "after global data")
    storage = SampleStorageHDF(path)
    compare(ctx, snapshot(storage, n_levels), model.snapshot(), "end")
    for q in storage.load_result_format():
        ctx.check(q in fmt, "format-equality", repr(q))
    # A different result format is refused and does not change the content
    other = [QuantitySpec(name=q.name, unit=q.unit, shape=q.shape, times=list(q.times), locations=list(q.locations)) for q in fmt]
    what = str(rng.choice(["name", "unit", "shape", "times", "locations", "count"]))
    if what == "name":
        other[0].name = "different"
    elif what == "unit":
        other[-1].unit = "different"
    elif what == "shape":
        other[0].shape = (fmt[0].shape[0] + 1, fmt[0].shape[1])
    elif what == "times":
        other[-1].times = [t + 1 for t in other[-1].times]
    elif what == "locations":
        moved = ["zz" + l if isinstance(l, str) else (l[0] + 1, l[1], l[2]) for l in other[0].locations]
        how = int(rng.integers(3))
        if how == 1:
            moved = other[0].locations + moved[:1]
        elif how == 2 and len(moved) > 1:
            moved = other[0].locations[::-1]
        other[0].locations = moved
    else:
        other.append(QuantitySpec(name="next", unit="m", shape=(1, 1), times=[1.0], locations=list(fmt[0].locations)))
    ctx.raises(lambda: storage.save_global_data(level_parameters=params, result_format=other), "different-format-accepted", what)
    compare(ctx, snapshot(SampleStorageHDF(path), n_levels), model.snapshot(), "after refused format")
    ctx.event("operations", len(ops))
    ctx.event("reopenings", n_reopen)
    ctx.state(tuple(ops), n_reopen, tuple(len(x) for x in model.scheduled), tuple(len(x) for x in model.data))
    ctx.note("levels {} ops {} reopened {}x collected {}".format(n_levels, len(ops), n_reopen, [len(x) for x in model.data]))


CHILD = """
import json, sys, os, warnings
warnings.simplefilter("ignore")
out = os.fdopen(os.dup(1), "w"); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmcmon.checks import c06
storage = SampleStorageHDF(sys.argv[1])
init = json.loads(sys.stdin.readline())
if init:
    fmt = [QuantitySpec(name=q[0], unit=q[1], shape=tuple(q[2]), times=q[3], locations=[l if isinstance(l, str) else tuple(l) for l in q[4]]) for q in init[0]]
    storage.save_global_data(level_parameters=init[1], result_format=fmt)
out.write("ready\\n"); out.flush()
for line in sys.stdin:
    c06.apply_op(storage, json.loads(line))
    out.write("ok\\n"); out.flush()
"""


@scenario("C06", quick=10, thorough=120)
def killed_writer(ctx, rng):
    """The writing process is killed after some operation; a new process continues, then the content is compared"""
    fmt = gen.random_format(rng, 12)
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[float(x)] for x in np.sort(rng.uniform(0.01, 5, n_levels))[::-1]]
    model = Model(fmt, params)
    path = os.path.join(ctx.scratch, "s.hdf5")
    n_ops = 0
    for run in range(int(rng.integers(1, 3))):
        proc = subprocess.Popen([sys.executable, "-c", CHILD, path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                text=True, stderr=subprocess.DEVNULL)
        proc.stdin.write(json.dumps([[list(f) for f in model.snapshot()["format"]], params] if run == 0 or rng.integers(2) else None) + "\n")
        proc.stdin.flush()
        ctx.equal(proc.stdout.readline(), "ready\n", "writer-failed")
        for _ in range(int(rng.integers(1, 12))):
            op = random_op(rng, model)
            proc.stdin.write(json.dumps(op) + "\n")
            proc.stdin.flush()
            ctx.equal(proc.stdout.readline(), "ok\n", "writer-failed", op[0])
            n_ops += 1
        proc.send_signal(signal.SIGKILL)
        proc.wait()
        compare(ctx, snapshot(SampleStorageHDF(path), n_levels), model.snapshot(), "killed")
        ctx.event("kills")
    ctx.event("operations", n_ops)
    ctx.state(n_ops, tuple(len(x) for x in model.scheduled), tuple(len(x) for x in model.data))


@scenario("C06", quick=40, thorough=500)
def continued_run(ctx, rng):
    """Sampler is abandoned with unfinished samples, another one continues with the reopened storage"""
    n_levels = gen.n_levels(rng, 1, 4)
    params = [[1.0 / (i + 1)] for i in range(n_levels)]
    sim = sims.DetSim(fmt=gen.random_format(rng, 10), table=["ok", "ok", "ok", "raise"])
    path = "run.hdf5"
    all_ids, target = [], np.zeros(n_levels)
    fail = lambda sid: None if sims.expected_outcome(sim, SamplingPool.compute_seed(sid)) == "ok" else "failed"
    result = lambda sid, level_sim: sims.values(level_sim.config_dict, SamplingPool.compute_seed(sid))
    for run in range(int(rng.integers(2, 5))):
        if run == 0 or rng.random() < 0.6:
            storage = gen.rec_storage("hdf", ctx.scratch, path)
        else:
            # The same storage object is used by a new sampler
            ctx.event("same_storage_object")
        pool = pools.NullPool(rng=rng, hold=float(rng.choice([0.0, 0.4, 0.8])), fail=fail, result=result)
        before = None
        if run > 0:
            before = snapshot(storage, n_levels)
        sampler = Sampler(storage, pool, sim, params)
        if run > 0:
            compare(ctx, snapshot(storage, n_levels), before, "new sampler changes nothing")
            ctx.equal(sorted(pool.permanent), before["unfinished"], "unfinished-passed-to-pool")
            ctx.close([float(x) for x in sampler.l_scheduled_samples()], target, "continued-counts")
        target = target + rng.integers(0, 8, n_levels)
        sampler.set_level_target_n_samples(target)
        sampler.schedule_samples(timeout=1e-15)
        sampler.ask_sampling_pool_for_samples(timeout=1e-15)
        new_ids = [sid for sid, _ in pool.scheduled]
        ctx.check(not set(new_ids) & set(all_ids), "id-used-again", lambda: sorted(set(new_ids) & set(all_ids))[:5])
        all_ids.extend(new_ids)
        ctx.equal(len(all_ids), int(np.sum(target)), "total-number-scheduled")
        unfinished = set(storage.unfinished_ids())
        ctx.check(set(sid for sid, _ in pool.pending) <= unfinished, "pending-is-unfinished")
        ctx.event("runs")
    final = snapshot(gen.rec_storage("hdf", ctx.scratch, path), n_levels)
    ctx.equal(sorted(sid for ids in final["scheduled"].values() for sid in ids), sorted(all_ids), "scheduled-ids")
    ctx.equal(sum(final["n_finished"]) + len(final["unfinished"]), len(all_ids), "accounting")
    ctx.state(n_levels, tuple(target), tuple(final["n_finished"]))
