"""C14: selection of samples by conditions"""
import operator
import numpy as np
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean
from mlmcmon.core import scenario
from mlmcmon import gen, quant
from mlmcmon.checks.c12 import leaves, random_const

RULE = """Random conditions (six comparisons of a part or function of the result with a constant, an array or another part; values
equal to the constant and NaN included), their logical combinations and chains of selections on data of memory and
files of one to many chunks; the kept samples are compared with the definition evaluated on the raw data. Wrong combinations
(different selections, selected and unselected, different data, a condition that is no condition) have to be refused.
A state is a distinct (operations, structure, numbers of kept samples)."""

COMPARE = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def keep(values):
    """All components, fine and coarse"""
    return values.all(axis=(0, 2))


def random_condition(rng, case, parts):
    """:return: condition quantity, list of arrays of kept samples per level, description"""
    q, s = parts[int(rng.integers(len(parts)))]
    vals = [v[s] for v in case.raw]
    f = int(rng.integers(6))
    if f == 1:
        q, vals = 2 * q - 1, [2 * v - 1 for v in vals]
    elif f == 2:
        q, vals = q * q, [v * v for v in vals]
    elif f == 3:
        q, vals = np.abs(q), [np.abs(v) for v in vals]
    elif f == 4:
        q, vals = np.minimum(q, 3 * q), [np.minimum(v, 3 * v) for v in vals]
    name = str(rng.choice(list(COMPARE)))
    op = COMPARE[name]
    kind = int(rng.integers(4))
    if kind == 0:
        q2, s2 = parts[int(rng.integers(len(parts)))]
        cond, masks = op(q, q2), [keep(op(v, w[s2])) for v, w in zip(vals, case.raw)]
        what = "quantity"
    elif kind == 1:
        c, cv, what = random_const(rng, vals[0].shape[0])
        cond, masks = op(q, c), [keep(op(v, cv)) for v in vals]
    else:
        # Threshold among the values, so that equality and partial selection occur
        pool = np.concatenate([v.ravel() for v in vals])
        pool = pool[~np.isnan(pool)]
        edge = rng.choice(pool) if name in ("==", "!=") or kind == 2 or not len(pool) else \
            np.quantile(pool, rng.uniform(0, 0.4) if name[0] == ">" else rng.uniform(0.6, 1))
        edge = float(edge)
        if rng.integers(2):
            cond = op(q, edge)
        else:
            # Reflected comparison
            mirror = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[name]
            cond = COMPARE[mirror](edge, q)
        masks = [keep(op(v, edge)) for v in vals]
        what = "value"
    return cond, masks, "{}{}".format(name, what)


@scenario("C14", quick=160, thorough=2500)
def selection(ctx, rng):
    with np.errstate(all="ignore"):
        case = quant.Case(ctx, rng, n_range=(1, 60) if rng.random() < 0.8 else (300, 1200), nan_prob=float(rng.choice([0, 0.15])))
        if rng.integers(2):
            # Discrete values, equality of values occurs
            data = [np.round(d * 2) / 2 for d in case.data]
            case = quant.Case(ctx, rng, kind=case.kind, fmt=case.fmt, n_levels=case.n_levels, data=data, name="discrete.hdf5")
        root = make_root_quantity(case.storage, case.root_fmt)
        kind, parts = leaves(rng, case, root)
        conds = [random_condition(rng, case, parts) for _ in range(int(rng.integers(1, 4)))]
        descr = [c[2] for c in conds]
        how = str(rng.choice(["args", "and", "or", "not", "chain"]))
        target_kind, targets = leaves(rng, case, root)
        target, s = targets[int(rng.integers(len(targets)))]
        if how == "args":
            selected = target.select(*[c[0] for c in conds])
            masks = [np.logical_and.reduce([c[1][l] for c in conds]) for l in range(case.n_levels)]
        elif how in ("and", "or"):
            f = np.logical_and if how == "and" else np.logical_or
            cond = conds[0][0]
            for c in conds[1:]:
                cond = f(cond, c[0])
            selected = target.select(cond)
            masks = [f.reduce([c[1][l] for c in conds]) for l in range(case.n_levels)]
        elif how == "not":
            selected = target.select(np.logical_not(conds[0][0]))
            masks = [~m for m in conds[0][1]]
        else:
            # The condition of the next selection is a function of the selected quantity
            selected = target.select(conds[0][0])
            edges = [float(x) for x in rng.normal(size=2)]
            masks = []
            for l in range(case.n_levels):
                v = case.raw[l][s]
                masks.append(conds[0][1][l] & keep(v > min(edges) - 1) & keep(v * 2 <= 2 * max(edges) + 2))
            selected = selected.select(selected > min(edges) - 1)
            selected = selected.select(2 * selected <= 2 * max(edges) + 2)
        values = [v[s][:, m] for v, m in zip(case.raw, masks)]
        where = (case.kind, kind, target_kind, how, descr)
        for l in rng.permutation(case.n_levels):
            ctx.same(quant.samples(case.storage, selected, int(l)), values[l], "selected-samples", where + ("level", int(l)))
            ctx.event("samples_kept", int(masks[l].sum()))
            ctx.event("samples_dropped", int((~masks[l]).sum()))
        # The unselected quantity stays as it was
        for l in range(case.n_levels):
            ctx.same(quant.samples(case.storage, target, l), case.raw[l][s], "original-changed", where)
        # Function of the selected samples
        square = bool(rng.integers(2))
        derived = selected * selected - 1 if square else np.minimum(selected, 0.5)
        ref = [v * v - 1 for v in values] if square else [np.minimum(v, 0.5) for v in values]
        for l in range(case.n_levels):
            ctx.close(quant.samples(case.storage, derived, l), ref[l], "function-of-selected", where)
        if all(quant.valid(v).any() for v in values):
            est = estimate_mean(selected)
            r = quant.ref_estimate(values)
            ctx.close(np.ravel(est.mean), r["mean"], "selected-mean", where, rtol=1e-8, atol=1e-10 * quant.scale_of(values))
            ctx.close(np.reshape(est.l_vars, r["l_vars"].shape), r["l_vars"], "selected-vars", where, rtol=1e-6,
                      atol=1e-9 * quant.scale_of(values) ** 2)
            ctx.equal([int(x) for x in est.n_samples], r["n"], "selected-n", where)
            ctx.event("estimates")
        ctx.state(how, kind, target_kind, tuple(descr), tuple(int(m.sum()) for m in masks))
        ctx.note("{} kept {} of {}".format(where, [int(m.sum()) for m in masks], [len(m) for m in masks]))


@scenario("C14", quick=30, thorough=300)
def refused(ctx, rng):
    case = quant.Case(ctx, rng, n_range=(5, 40))
    other = quant.Case(ctx, rng, fmt=case.fmt, n_levels=case.n_levels, n_range=(5, 40), name="other.hdf5")
    root, foreign = make_root_quantity(case.storage, case.root_fmt), make_root_quantity(other.storage, case.fmt)
    kind, parts = leaves(rng, case, root)
    q, _ = parts[int(rng.integers(len(parts)))]
    m1, m2 = q > float(rng.normal()), q * q < float(rng.uniform(0.5, 2))
    a, b = q.select(m1), q.select(m2)
    name = case.fmt[0].name
    for label, bad in (
            ("two-selections", lambda: a + b), ("two-selections", lambda: b * a), ("two-selections", lambda: np.maximum(a, b)),
            ("two-selections", lambda: a < b), ("two-selections", lambda: (a * 2 + 1) / (1 + b)),
            ("selected-unselected", lambda: a - q), ("selected-unselected", lambda: q % a),
            ("selected-unselected", lambda: q > a), ("selected-unselected", lambda: (2 * a) * np.sin(q)),
            ("condition-of-unselected", lambda: a.select(m2)), ("condition-of-selected", lambda: q.select(a > 0)),
            ("not-a-condition", lambda: q.select(q)), ("not-a-condition", lambda: q.select(m1, q * 2)),
            ("not-a-condition", lambda: q.select(np.abs(q))), ("not-a-condition", lambda: q.select(m1, np.minimum(q, 1.0))),
            ("foreign-condition", lambda: root[name].select(foreign[name] > 0)),
            ("compare-condition", lambda: m1.select(2 * q)),
    ):
        ctx.raises(bad, "not-refused-" + label, (kind, label))
        ctx.event("refused")
    ctx.state(kind, case.kind, case.n_levels, case.size)
