"""C29: samples of the flow simulation"""
import json
import os
import shutil
import sys
import numpy as np
import gstools
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmc.tool.flow_mc import FlowSim
from mlmcmon.core import scenario
from mlmcmon import gen
from mlmcmon.pools import make_pool, close_pool
from mlmcmon.stubs import flow_stub

RULE = """The flow simulation is run, directly and through a sampler with one process and process pools, with a stand-in of the mesh generator and a
stand-in of the simulator that records everything it gets and fails for some of the inputs. The recorded input fields are compared
with the realization given by the seed evaluated in barycenters of the mesh computed from its definition, the input file with
the substituted template, and the results and failures with those of the recorded runs. A state is a distinct
(model of the field, steps, sequence of behaviours of the simulator)."""
ASSUMPTIONS = ["flow123d and gmsh are replaced by stand-ins with the same command line and files"]

STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")
TEMPLATE = """flow123d_version: 3.0
problem: !Coupling_Sequential
  mesh: {mesh_file: <mesh_file>}
  conductivity: <conductivity>
  again: <conductivity>
  more: [<conductivity>, <mesh_file>, <timestep_h1>, <mesh_file>, <timestep_h1>, <conductivity><timestep_h2>]
  dt: [<timestep_h1>, <timestep_h2>]
  other: <not_a_parameter> < mesh_file >
"""
FAULTS = ("nothing", "inflow", "small_inflow", "no_region", "broken", "empty")


class Setup:
    def __init__(self, ctx, rng, faults, model=None):
        self.dir = ctx.scratch
        self.work = os.path.join(self.dir, "work")
        os.makedirs(self.work, exist_ok=True)
        bin_dir = os.path.join(self.dir, "bin")
        os.makedirs(bin_dir, exist_ok=True)
        for name in ("gmsh_stub.py", "flow_stub.py"):
            with open(os.path.join(STUBS, name)) as f:
                text = f.read()
            path = os.path.join(bin_dir, name[:-3])
            with open(path, "w") as f:
                f.write("#!/usr/bin/python3 -ISs\n" + text)
            os.chmod(path, 0o755)
        self.bin = bin_dir
        self.table = ["ok"] * int(rng.integers(1, 5)) + list(faults)
        with open(os.path.join(bin_dir, "setting.json"), "w") as f:
            json.dump(dict(table=self.table), f)
        self.mesh = dict(size=[1.0, float(rng.choice([0.5, 1.0]))], stride=int(rng.integers(1, 4)), offset=int(rng.integers(1, 50)))
        self.geo = os.path.join(self.dir, "square.geo")
        with open(self.geo, "w") as f:
            f.write("//" + json.dumps(self.mesh) + "\n")
        self.yaml = os.path.join(self.dir, "in.yaml")
        with open(self.yaml, "w") as f:
            f.write(TEMPLATE)
        self.model = model or str(rng.choice(["gauss", "exp"]))
        self.params = dict(model=self.model, corr_length=float(rng.uniform(0.1, 0.5)), dim=2, log=bool(rng.integers(2)),
                           sigma=float(rng.uniform(0.5, 2)), mode_no=20)
        self.time_factor = float(rng.choice([1.0, 0.25]))
        self.config = dict(env=dict(gmsh=os.path.join(bin_dir, "gmsh_stub"), flow123d=os.path.join(bin_dir, "flow_stub"),
                                    gmsh_version=int(rng.choice([2, 4]))),
                           fields_params=self.params, yaml_file=self.yaml, geo_file=self.geo, work_dir=self.work,
                           time_factor=self.time_factor)
        self.custom = rng.random() < 0.3
        if self.custom:
            self.config["field_template"] = "!FE {f: %s, n: %s}"

    def sim(self, clean):
        return FlowSim(config=dict(self.config), clean=clean)

    def elements(self, step):
        """(ids, barycenters) of the bulk elements by the definition of the mesh"""
        sx, sy = self.mesh["size"]
        nx, ny = max(1, int(round(sx / step))), max(1, int(round(sy / step)))
        e, ids, pts = self.mesh["offset"], [], []
        k = self.mesh["stride"]
        for j in range(ny):
            e += k
            for i in range(nx):
                for tri in ([(i, j), (i + 1, j), (i + 1, j + 1)], [(i, j), (i + 1, j + 1), (i, j + 1)]):
                    e += k
                    ids.append(e)
                    pts.append([np.mean([sx * a / nx for a, _ in tri]), np.mean([sy * b / ny for _, b in tri])])
            e += k
        return ids, np.array(pts)

    def field(self, seed, step):
        """Realization given by the seed"""
        ids, pts = self.elements(step)
        model = (gstools.Gaussian if self.model == "gauss" else gstools.Exponential)(dim=2, len_scale=self.params["corr_length"])
        v = gstools.SRF(model, seed=seed, mode_no=20)((pts[:, 0], pts[:, 1])) * self.params["sigma"]
        return list(zip(ids, np.exp(v) if self.params["log"] else v))

    def run(self, field):
        """Result of the stand-in for the given input"""
        kind = flow_stub.behaviour(field, self.table)
        return kind, flow_stub.flux_of(field, flow_stub.mesh_key(len(field)))

    def log(self):
        path = os.path.join(self.bin, "log")
        if not os.path.exists(path):
            return []
        with open(path) as f:
            return [json.loads(line) for line in f]

    def clear_log(self):
        if os.path.exists(os.path.join(self.bin, "log")):
            os.remove(os.path.join(self.bin, "log"))

    def input_text(self, step):
        mesh = os.path.join(self.work, "l_step_{}_common_files".format(step), "mesh.msh")
        fe = "!FE {f: %s, n: %s}" if self.custom else "!FieldElementwise {mesh_data_file: $INPUT_DIR$/%s, field_name: %s}"
        text = TEMPLATE.replace("<mesh_file>", mesh).replace("<conductivity>", fe % ("fields_sample.msh", "conductivity"))
        return text.replace("<timestep_h1>", str(self.time_factor * step)).replace("<timestep_h2>", str(self.time_factor * step * step))


def check_run(ctx, st, record, step, expected, where):
    ctx.equal(record["fields"], ["conductivity"], "input-fields", where)
    got = sorted((int(e), float(v)) for e, v in record["field"])
    ctx.equal([e for e, _ in got], sorted(e for e, _ in expected), "input-elements", where)
    if expected[0][1] is not None:
        ctx.close([v for _, v in got], [v for _, v in sorted(expected)], "input-values", where, rtol=1e-9, atol=1e-9)
    ctx.equal(record["text"], st.input_text(step), "input-file", where)
    ctx.event("simulator runs")


def steps_of(rng, n):
    return [float(s) for s in sorted(rng.choice([0.5, 0.4, 0.3, 0.25, 0.2, 0.15, 0.125], n, replace=False))[::-1]]


def borderline(field, table):
    """The decision of the stand-in would depend on rounding"""
    x = abs(field[0][1]) * 1e7
    return len(table) > 1 and abs(x - round(x)) < 1e-3


@scenario("C29", quick=40, thorough=500)
def direct(ctx, rng):
    """calculate called in a sample directory"""
    st = Setup(ctx, rng, faults=[str(f) for f in rng.permutation(FAULTS)[:int(rng.integers(0, 3))]])
    steps = steps_of(rng, int(rng.integers(1, 4)))
    sim = st.sim(clean=True)
    levels = [sim.level_instance([s], [steps[i - 1]] if i else [0]) for i, s in enumerate(steps)]
    ctx.equal(len(st.log()), 0, "run-in-preparation")
    seen = []
    if rng.random() < 0.4:
        # Configurations for files that are prepared already
        sim = st.sim(clean=False)
        levels = [sim.level_instance([s], [steps[i - 1]] if i else [0]) for i, s in enumerate(steps)]
        seen.append("prepared")
    sizes = [l.task_size for l in levels]
    ctx.close(np.array(sizes) * len(st.elements(steps[0])[0]), np.array([len(st.elements(s)[0]) for s in steps]) * sizes[0], "task-size")
    for k in range(6):
        level = int(rng.integers(len(steps)))
        seed = int(rng.integers(2 ** 31))
        fine = st.field(seed, steps[level])
        coarse = st.field(seed, steps[level - 1]) if level else None
        if borderline(fine, st.table) or (coarse and borderline(coarse, st.table)):
            continue
        where = (st.model, steps, "level", level, "seed", seed, seen)
        sample_dir = os.path.join(ctx.scratch, "sample_{}".format(k))
        os.makedirs(sample_dir)
        os.chdir(sample_dir)
        st.clear_log()
        np.random.seed(k)
        config = json.loads(json.dumps(levels[level].config_dict)) if rng.integers(2) else levels[level].config_dict
        kf, rf = st.run(fine)
        kc, rc = st.run(coarse) if level else ("ok", 0.0)
        try:
            result = FlowSim.calculate(config, seed)
        except Exception as e:
            result = e
        log = st.log()
        if kf != "ok" or kc != "ok":
            ctx.check(isinstance(result, Exception), "failed-run-accepted", lambda: "{} {} {} {}".format(where, kf, kc, result))
            ctx.event("failed runs")
        else:
            ctx.check(not isinstance(result, Exception), "correct-run-failed", lambda: "{} {!r}".format(where, result))
            ctx.close(np.ravel(result[0]), [rf], "fine-result", where, rtol=1e-7, atol=1e-7)
            ctx.close(np.ravel(result[1]), [rc], "coarse-result", where, rtol=1e-7, atol=1e-7)
        ctx.check(len(log) >= 1, "no-run", where)
        check_run(ctx, st, log[0], steps[level], fine, where)
        if kf == "ok":
            ctx.equal(len(log), 2 if level else 1, "number-of-runs", where)
            if level:
                check_run(ctx, st, log[1], steps[level - 1], coarse, where)
        for r in log:
            ctx.equal(os.path.realpath(r["out"]), os.path.realpath(sample_dir), "output-directory", where)
        seen.append((kf, kc))
        os.chdir(ctx.scratch)
        shutil.rmtree(sample_dir)
    ctx.state(st.model, tuple(steps), tuple(seen))
    ctx.note((st.model, steps, seen))


@scenario("C29", quick=12, thorough=120)
def expansion_field(ctx, rng):
    """Field given by the expansion: the same realization on both meshes, determined by the seed"""
    st = Setup(ctx, rng, faults=[], model="svd")
    st.params.pop("mode_no")
    st.params["log"] = False
    sizes = [0.5, 0.25] if rng.integers(2) else [0.5, 0.125]
    sim = st.sim(clean=True)
    levels = [sim.level_instance([s], [sizes[i - 1]] if i else [0]) for i, s in enumerate(sizes)]
    results = {}
    seeds = [int(s) for s in rng.choice(10 ** 6, 2, replace=False)]
    for k, seed in enumerate([seeds[0], seeds[1], seeds[0]]):
        os.makedirs(os.path.join(ctx.scratch, "d{}".format(k)))
        os.chdir(os.path.join(ctx.scratch, "d{}".format(k)))
        st.clear_log()
        result = FlowSim.calculate(levels[1].config_dict, seed)
        log = st.log()
        ctx.equal(len(log), 2, "number-of-runs")
        for r, s in zip(log, sizes[::-1]):
            check_run(ctx, st, r, s, [(e, None) for e in st.elements(s)[0]], (sizes, seed))
        fine, coarse = dict(map(tuple, log[0]["field"])), dict(map(tuple, log[1]["field"]))
        fi, fp = st.elements(sizes[1])
        ci, cp = st.elements(sizes[0])
        # Correlation is close to one in the closest points
        d = np.linalg.norm(fp[:, None] - cp[None], axis=2)
        near = d.argmin(axis=0)
        diff = np.array([coarse[e] - fine[fi[n]] for e, n in zip(ci, near)])
        sd = np.sqrt(2 * st.params["sigma"] ** 2 * (1 - np.exp(-d.min(axis=0) / st.params["corr_length"])))
        ctx.check(np.all(np.abs(diff) <= 7 * sd + 0.6 * st.params["sigma"]), "different-realizations", lambda: "{} {}".format(diff, sd))
        ctx.close(result[0], [flow_stub.flux_of(log[0]["field"], flow_stub.mesh_key(len(fi)))], "fine-result")
        ctx.close(result[1], [flow_stub.flux_of(log[1]["field"], flow_stub.mesh_key(len(ci)))], "coarse-result")
        if seed in results:
            ctx.close(np.concatenate(result), results[seed], "not-determined-by-seed", (sizes, seed), rtol=1e-9)
        else:
            for r in results.values():
                ctx.check(not np.allclose(r, np.concatenate(result)), "same-for-different-seeds")
        results[seed] = np.concatenate(result)
        os.chdir(ctx.scratch)
    ctx.state(tuple(sizes), round(st.params["corr_length"], 4))


@scenario("C29", quick=14, thorough=150, timeout=80)
def sampled(ctx, rng):
    """Through the sampler and a pool with sample directories, also continued over the prepared files"""
    st = Setup(ctx, rng, faults=[str(f) for f in rng.permutation(FAULTS)[:int(rng.integers(0, 3))]])
    steps = steps_of(rng, int(rng.integers(1, 4)))
    params = [[s] for s in steps]
    storage_kind = str(rng.choice(["memory", "hdf"]))
    pool_kind = str(rng.choice(["one", "process"]))
    storage = gen.rec_storage(storage_kind, ctx.scratch)
    seen = []
    target = np.zeros(len(steps), dtype=int)
    for phase in range(2):
        if phase == 1 and storage_kind == "hdf":
            storage = gen.rec_storage("hdf", ctx.scratch)
        work = os.path.join(ctx.scratch, "pool_{}".format(phase))
        os.makedirs(work)
        pool = make_pool(pool_kind, 3, work_dir=work, debug=True)
        try:
            sampler = Sampler(sample_storage=storage, sampling_pool=pool, sim_factory=st.sim(clean=phase == 0), level_parameters=params)
            target = target + rng.integers(2, 5, len(steps))
            sampler.set_level_target_n_samples(target)
            sampler.schedule_samples()
            running = 1
            for _ in range(400):
                running = sampler.ask_sampling_pool_for_samples(sleep=0.02, timeout=5)
                if not running:
                    break
            ctx.equal(running, 0, "not-finished")
        finally:
            close_pool(pool)
    where = (st.model, pool_kind, storage_kind, steps, st.table)
    saved = {sid: (l, pair) for l, sid, pair in storage.saved_successful()}
    failed = {sid for _, sid, _ in storage.saved_failed()}
    if storage_kind == "hdf":
        # Only the second phase is recorded by the second object
        first = [len(x) for x in (saved, failed)]
        ctx.check(sum(first) > 0, "nothing-saved", where)
    ids = storage.load_scheduled_samples()
    total = sum(len(v) for v in ids.values())
    ctx.equal(total, int(target.sum()), "scheduled", where)
    if storage_kind == "memory":
        ctx.equal(len(saved) + len(failed), total, "finished", where)
    for level in range(len(steps)):
        for s in ids[level]:
            sid = getattr(s, "sample_id", s)
            sid = sid if isinstance(sid, str) else sid[0]
            if sid not in saved and sid not in failed:
                continue
            seed = SamplingPool.compute_seed(sid)
            fine = st.field(seed, steps[level])
            coarse = st.field(seed, steps[level - 1]) if level else None
            if borderline(fine, st.table) or (coarse and borderline(coarse, st.table)):
                continue
            (kf, rf), (kc, rc) = st.run(fine), st.run(coarse) if level else ("ok", 0.0)
            ctx.equal(sid in saved, kf == "ok" and kc == "ok", "outcome", (where, sid, kf, kc))
            if sid in saved:
                ctx.equal(saved[sid][0], level, "level", where)
                ctx.close(np.ravel(saved[sid][1][0]), [rf], "fine-result", (where, sid), rtol=1e-7, atol=1e-7)
                ctx.close(np.ravel(saved[sid][1][1]), [rc], "coarse-result", (where, sid), rtol=1e-7, atol=1e-7)
            seen.append((kf, kc))
            ctx.event("samples")
    ctx.state(st.model, pool_kind, tuple(steps), tuple(seen))
    ctx.note((where, len(saved), len(failed)))
