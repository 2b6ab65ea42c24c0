"""C12: operations on quantities are pointwise"""
import operator
import numpy as np
from mlmc.quantity.quantity import make_root_quantity, Quantity
from mlmc.quantity.quantity_estimate import estimate_mean, cache_clear
from mlmcmon.core import scenario
from mlmcmon import gen, quant

RULE = """Random expression graphs with shared subexpressions over parts of the result (root, quantity, time, location, element),
scalar and array constants, reflected operators and numpy ufuncs. Every node of the graph is evaluated (in random order, so
that in-place changes of shared values show up) and compared sample by sample, fine and coarse, with numpy applied to the
raw data. A state is a distinct set of operations of a graph with the structure of the operands."""

BINARY = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "mod": operator.mod}
UFUNC1 = [np.sin, np.cos, np.abs, np.sqrt, np.square, np.negative, np.exp, np.log1p, np.floor]
UFUNC2 = [np.add, np.subtract, np.multiply, np.divide, np.maximum, np.minimum, np.arctan2, np.hypot]


def leaves(rng, case, root):
    """Parts of the result with the same structure [(quantity, slice)]"""
    kind = str(rng.choice(["root", "named", "time", "location", "element"]))
    q = case.fmt[int(rng.integers(len(case.fmt)))]
    if kind == "root":
        return kind, [(root, slice(None))]
    if kind == "named":
        return kind, [(root[q.name], case.offset(q.name)[0])]
    if kind == "time":
        return kind, [(root[q.name][t], case.offset(q.name, t)[0]) for t in q.times]
    parts = [(root[q.name][t][l], case.offset(q.name, t, l)[0]) for t in q.times for l in q.locations]
    if kind == "location":
        return kind, parts
    out = []
    for part, s in parts:
        i, j = int(rng.integers(q.shape[0])), int(rng.integers(q.shape[1]))
        k = s.start + i * q.shape[1] + j
        out.append((part[i, j], slice(k, k + 1)))
    return kind, out


def random_const(rng, size):
    """:return (constant, array [size or 1, 1, 1])"""
    kind = int(rng.integers(7))
    if kind == 0:
        c = int(rng.integers(1, 5)) * int(rng.choice([-1, 1]))
    elif kind == 1:
        c = float(np.round(rng.uniform(0.5, 3), 3))
    elif kind == 2:
        c = np.float64(rng.uniform(-3, -0.5))
    elif kind == 3:
        c = [float(x) for x in rng.uniform(0.5, 2, size)]
    elif kind == 4:
        c = rng.uniform(0.5, 2, size)
    elif kind == 5 and size % 2 == 0:
        c = rng.uniform(0.5, 2, (2, size // 2))
    else:
        a, b = float(rng.uniform(0.5, 2)), rng.uniform(0.5, 2, size)
        return Quantity.wrap(a) * Quantity.wrap(b) + Quantity.wrap(1), (a * b + 1)[:, None, None], "const-op"
    return c, np.reshape(np.array(c, dtype=float), -1)[:, None, None], type(c).__name__


@scenario("C12", quick=160, thorough=2500)
def expressions(ctx, rng):
    with np.errstate(all="ignore"):
        case = quant.Case(ctx, rng, n_range=(1, 40) if rng.random() < 0.8 else (300, 1200), nan_prob=float(rng.choice([0, 0.1])),
                          scale=float(rng.choice([1, 100])), positive=bool(rng.integers(2)))
        root = make_root_quantity(case.storage, case.root_fmt)
        kind, parts = leaves(rng, case, root)
        size = case.raw[0][parts[0][1]].shape[0]
        # node: (quantity, list of expected values of levels, description, is_leaf)
        nodes = [(q, [v[s] for v in case.raw], "leaf", True) for q, s in parts]
        ops = set()
        for _ in range(int(rng.integers(1, 9))):
            q, v, d, leaf = nodes[int(rng.integers(len(nodes)))]
            what = str(rng.choice(["qq", "qc", "cq", "u1", "u2qq", "u2qc", "u2cq"]))
            op = str(rng.choice(list(BINARY)))
            if op == "mod" and not leaf:
                op = "mul"
            if what == "qq":
                q2, v2, d2, leaf2 = nodes[int(rng.integers(len(nodes)))]
                if op == "mod" and not leaf2:
                    op = "add"
                new = (BINARY[op](q, q2), [BINARY[op](a, b) for a, b in zip(v, v2)], "({} {} {})".format(d, op, d2))
                ops.add((what, op))
            elif what in ("qc", "cq"):
                c, cv, ck = random_const(rng, size)
                if what == "qc":
                    new = (BINARY[op](q, c), [BINARY[op](a, cv) for a in v], "({} {} {})".format(d, op, ck))
                else:
                    new = (BINARY[op](c, q), [BINARY[op](cv, a) for a in v], "({} {} {})".format(ck, op, d))
                ops.add((what, op, ck))
            elif what == "u1":
                f = UFUNC1[int(rng.integers(len(UFUNC1)))]
                if f is np.floor and not leaf:
                    f = np.cos
                new = (f(q), [f(a) for a in v], "{}({})".format(f.__name__, d))
                ops.add((what, f.__name__))
            else:
                f = UFUNC2[int(rng.integers(len(UFUNC2)))]
                if what == "u2qq":
                    q2, v2, d2, _ = nodes[int(rng.integers(len(nodes)))]
                    new = (f(q, q2), [f(a, b) for a, b in zip(v, v2)], "{}({},{})".format(f.__name__, d, d2))
                    ck = None
                else:
                    c, cv, ck = random_const(rng, size)
                    if what == "u2qc":
                        new = (f(q, c), [f(a, cv) for a in v], "{}({},{})".format(f.__name__, d, ck))
                    else:
                        new = (f(c, q), [f(cv, a) for a in v], "{}({},{})".format(f.__name__, ck, d))
                ops.add((what, f.__name__, ck))
            if all(np.all(np.isnan(x) | (np.abs(x) < 1e5)) for x in new[1]):
                nodes.append((*new, False))
        if rng.integers(2):
            cache_clear()
        order = rng.permutation(len(nodes)) if rng.integers(2) else np.arange(len(nodes))[::-1]
        for i in order:
            q, v, d, _ = nodes[int(i)]
            for level in rng.permutation(case.n_levels):
                got = quant.samples(case.storage, q, int(level))
                scale = np.nanmax(np.abs(v[level])) if v[level].size and not np.all(np.isnan(v[level])) else 1
                ctx.close(got, v[level], "pointwise", (case.kind, kind, "level", int(level), d), rtol=1e-9, atol=1e-11 * scale)
                ctx.event("values", got.size)
            ctx.equal(int(q.size()), size, "size", d)
            ctx.event("nodes")
        # The final expression enters the estimate
        q, v, d, _ = nodes[-1]
        if all(quant.valid(x).any() for x in v):
            est = estimate_mean(q)
            ref = quant.ref_estimate(v)
            ctx.close(np.ravel(est.mean), ref["mean"], "mean-of-expression", d, rtol=1e-7, atol=1e-9 * quant.scale_of(v))
        ctx.state(kind, tuple(sorted(map(str, ops))))
        if len(nodes[-1][2]) < 300:
            ctx.note("{} {} {}".format(case.kind, kind, nodes[-1][2]))


@scenario("C12", quick=40, thorough=400)
def reductions(ctx, rng):
    """Reduction over the components of the quantity"""
    case = quant.Case(ctx, rng, n_range=(2, 30))
    root = make_root_quantity(case.storage, case.root_fmt)
    kind, parts = leaves(rng, case, root)
    q, s = parts[int(rng.integers(len(parts)))]
    for name, f in (("max", np.max), ("min", np.min), ("sum", np.sum), ("prod", np.prod),
                    ("add.reduce", np.add.reduce), ("maximum.reduce", np.maximum.reduce)):
        r = f(q, axis=0, keepdims=True)
        for level in range(case.n_levels):
            v = case.raw[level][s]
            ctx.close(quant.samples(case.storage, r, level), f(v, axis=0, keepdims=True), "reduction", (kind, name))
            ctx.event("values", v.size)
        ctx.state(kind, name, case.kind)
        est = estimate_mean(r)
        ref = quant.ref_estimate([f(v[s], axis=0, keepdims=True) for v in case.raw])
        ctx.close(np.ravel(est.mean), ref["mean"], "mean-of-reduction", (kind, name), rtol=1e-8, atol=1e-10)


@scenario("C12", quick=20, thorough=200)
def algebra(ctx, rng):
    """Sum over parts, linearity and commutation with the estimate; expressions of different data are refused"""
    case = quant.Case(ctx, rng, n_range=(2, 60))
    other = quant.Case(ctx, rng, fmt=case.fmt, n_levels=case.n_levels, n_range=(2, 60), name="other.hdf5")
    root, root2 = make_root_quantity(case.storage, case.root_fmt), make_root_quantity(other.storage, case.fmt)
    kind, parts = leaves(rng, case, root)
    (q, s), (p, t) = parts[0], parts[-1]
    a, b = float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))
    est = estimate_mean(a * q + b * p)
    m1, m2 = estimate_mean(q), estimate_mean(p)
    ctx.close(np.ravel(est.mean), a * np.ravel(m1.mean) + b * np.ravel(m2.mean), "linearity", kind, rtol=1e-7, atol=1e-9)
    name = case.fmt[0].name
    for op, f in BINARY.items():
        ctx.raises(lambda: f(root[name], root2[name]), "different-data", op)
        ctx.raises(lambda: f(root[name] * 2, np.sin(root2[name])), "different-data", op)
        ctx.event("refused", 2)
    ctx.raises(lambda: np.maximum(root[name], root2[name]), "different-data", "ufunc")
    ctx.state(kind, case.kind, other.kind, case.n_levels)
