"""C25: mesh files"""
import os
import struct
import warnings
import numpy as np
from mlmc.tool.gmsh_io import GmshIO
from mlmc.tool.flow_mc import FlowSim
from mlmcmon.core import scenario

RULE = """Random meshes (ids, element types, tags, coordinates of all magnitudes, physical names) and element data are written by the code and
parsed by an independent reader, written by an independent writer in several layouts (order of sections, other sections,
white space, binary, version 1.0) and read by the code, and read back by the code itself; everything has to be identical. Meshes with boundary
regions are passed to the extraction of the points. A state is a distinct (layout, element types, numbers)."""

N_NODES = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}


def coordinate(rng):
    kind = int(rng.integers(5))
    if kind == 0:
        return float(rng.integers(-5, 6))
    if kind == 1:
        return 0.0
    return float(rng.normal() * 10.0 ** rng.integers(-20, 20)) if kind == 2 else float(rng.normal())


def random_name(rng):
    return str(rng.choice(["rock", ".bc_inflow", "fracture 1", "a", ".side", "Region-2", "ground_0", "x y z", "10"]))


def random_mesh(rng, plane=False, min_elements=0):
    n = int(rng.integers(3, 40))
    ids = [int(i) for i in rng.choice(np.arange(1, 10 ** int(rng.integers(2, 6))), n, replace=False)]
    nodes = {i: [coordinate(rng) for _ in range(3)] for i in ids}
    physical = {}
    used = set()
    for _ in range(int(rng.integers(1, 5))):
        pid = int(rng.integers(1, 300))
        if pid not in used:
            used.add(pid)
            physical[random_name(rng)] = (pid, int(rng.integers(0, 4)))
    pids = [v[0] for v in physical.values()]
    elements = {}
    n_el = int(rng.integers(min_elements, 60))
    for i in rng.choice(np.arange(1, 5000), n_el, replace=False):
        etype = int(rng.choice(list(N_NODES)))
        tags = [int(rng.choice(pids))] + [int(t) for t in rng.integers(0, 99, int(rng.integers(0, 4)))]
        if rng.random() < 0.05:
            tags = []
        elements[int(i)] = (etype, tags, [int(k) for k in rng.choice(ids, N_NODES[etype])])
    return nodes, elements, physical


def parse(path):
    """Independent reader"""
    with open(path) as f:
        lines = f.read().split("\n")
    out = dict(nodes={}, elements={}, physical={}, data=[], format=None)
    i = 0
    while i < len(lines):
        line = lines[i].strip()
        if not line:
            i += 1
            continue
        name = line[1:]
        end = lines.index("$End" + name, i)
        body = lines[i + 1:end]
        if name == "MeshFormat":
            out["format"] = body[0].split()
        elif name == "PhysicalNames":
            assert int(body[0]) == len(body) - 1
            for row in body[1:]:
                dim, pid, nm = row.split(None, 2)
                assert nm[0] == '"' and nm[-1] == '"'
                out["physical"][nm[1:-1]] = (int(pid), int(dim))
        elif name == "Nodes":
            assert int(body[0]) == len(body) - 1
            for row in body[1:]:
                c = row.split()
                assert len(c) == 4
                out["nodes"][int(c[0])] = [float(x) for x in c[1:]]
        elif name == "Elements":
            assert int(body[0]) == len(body) - 1
            for row in body[1:]:
                c = [int(x) for x in row.split()]
                out["elements"][c[0]] = (c[1], c[3:3 + c[2]], c[3 + c[2]:])
        elif name == "ElementData":
            assert body[0] == "1" and body[2] == "1" and body[4] == "3"
            n_comp, n_el = int(body[6]), int(body[7])
            rows = body[8:]
            assert len(rows) == n_el
            values = {}
            for row in rows:
                c = row.split()
                assert len(c) == 1 + n_comp
                values[int(c[0])] = [float(x) for x in c[1:]]
            out["data"].append((body[1].strip('"'), float(body[3]), int(body[5]), values))
        i = end + 1
    return out


def compare(ctx, got, nodes, elements, physical, key, where):
    ctx.equal({k: list(v) for k, v in got["nodes"].items()}, nodes, key + "-nodes", where)
    ctx.equal({k: (v[0], list(v[1]), list(v[2])) for k, v in got["elements"].items()}, elements, key + "-elements", where)
    ctx.equal({k: tuple(v) for k, v in got["physical"].items()}, physical, key + "-physical", where)


def members(mesh):
    return dict(nodes=mesh.nodes, elements=mesh.elements, physical=mesh.physical)


@scenario("C25", quick=300, thorough=2500)
def write_read(ctx, rng):
    nodes, elements, physical = random_mesh(rng)
    path = os.path.join(ctx.scratch, "mesh.msh")
    mesh = GmshIO()
    mesh.nodes, mesh.elements, mesh.physical = dict(nodes), dict(elements), dict(physical)
    own = bool(rng.integers(2))
    if own:
        mesh.filename = path
        with warnings.catch_warnings(record=True) as left_open:
            warnings.simplefilter("always")
            mesh.write_ascii()
        ctx.equal([str(w.message) for w in left_open if w.category is ResourceWarning], [], "file-left-open")
    else:
        with open(path, "w") as f:
            mesh.write_ascii(f)
    where = ("own" if own else "stream", len(nodes), len(elements), len(physical))
    compare(ctx, parse(path), nodes, elements, physical, "written", where)
    again = GmshIO(path)
    compare(ctx, members(again), nodes, elements, physical, "read", where)
    if rng.random() < 0.5:
        # Read again after reset, write over a longer file
        keep = sorted(elements)[: len(elements) // 2]
        again.elements = {k: elements[k] for k in keep}
        again.write_ascii()
        other = GmshIO()
        other.filename = path
        other.read()
        compare(ctx, members(other), nodes, {k: elements[k] for k in keep}, physical, "rewritten", where)
        other.reset()
        ctx.equal((other.nodes, other.elements, other.physical, other.element_data), ({}, {}, {}, {}), "reset", where)
        other.read()
        compare(ctx, members(other), nodes, {k: elements[k] for k in keep}, physical, "read-again", where)
    ctx.state(*where, tuple(sorted(set(e[0] for e in elements.values()))))
    ctx.event("meshes")
    ctx.event("elements", len(elements))


def random_fields(rng, ids):
    fields = {}
    for name in rng.permutation(["conductivity", "por osity", "k", "cross_section", "T"])[:int(rng.integers(1, 4))]:
        n_comp = int(rng.choice([1, 1, 3, 9]))
        v = rng.normal(size=(len(ids), n_comp)) * 10.0 ** rng.integers(-15, 15, size=(len(ids), 1))
        if rng.random() < 0.1:
            v[0, 0] = np.inf
        fields[str(name)] = v
    return fields


@scenario("C25", quick=300, thorough=2500)
def element_data(ctx, rng):
    ids = [int(i) for i in rng.choice(np.arange(1, 10 ** 5), int(rng.integers(1, 80)), replace=False)]
    path = os.path.join(ctx.scratch, "fields.msh")
    for step in range(2):
        fields = random_fields(rng, ids)
        ele_ids = np.array(ids) if rng.integers(2) else ids
        mesh = GmshIO()
        if rng.random() < 0.3:
            mesh.filename = path
            mesh.write_fields(None, ele_ids, fields)
        else:
            mesh.write_fields(path, ele_ids, fields)
        where = (len(ids), tuple((k, v.shape[1]) for k, v in fields.items()), step)
        expected = {name: {i: [float(x) for x in row] for i, row in zip(ids, v)} for name, v in fields.items()}
        parsed = parse(path)
        ctx.equal([d[0] for d in parsed["data"]], list(fields), "written-fields", where)
        ctx.equal({d[0]: d[3] for d in parsed["data"]}, expected, "written-values", where)
        read = GmshIO(path)
        ctx.equal(sorted(read.element_data), sorted(fields), "read-fields", where)
        for name in fields:
            times = read.element_data[name]
            ctx.equal([float(t) for t in times], [0.0], "read-times", where)
            time, values = list(times.values())[0]
            ctx.equal(values, expected[name], "read-values", where)
        ctx.equal((read.nodes, read.elements), ({}, {}), "data-as-elements", where)
        ctx.event("fields", len(fields))
        ctx.event("values", sum(v.size for v in fields.values()))
    ctx.state(*where)


@scenario("C25", quick=300, thorough=2500)
def foreign_files(ctx, rng):
    """Files written by other programs"""
    nodes, elements, physical = random_mesh(rng)
    ids = [int(i) for i in rng.choice(np.arange(1, 5000), int(rng.integers(1, 30)), replace=False)]
    steps = int(rng.integers(0, 4))
    sep = [" ", "  ", "\t"][int(rng.integers(3))]
    sections, data = [], {}
    rows = ["{} {} {}".format(d, i, '"{}"'.format(n)) for n, (i, d) in physical.items()]
    sections.append("$PhysicalNames\n{}\n{}\n$EndPhysicalNames".format(len(rows), "\n".join(rows)))
    fmt = [repr, lambda x: "%.17g" % x, lambda x: "%.17e" % x][int(rng.integers(3))]
    rows = [sep.join([str(i)] + [fmt(x) for x in c]) for i, c in nodes.items()]
    sections.append("$Nodes\n{}\n{}\n$EndNodes".format(len(rows), "\n".join(rows)))
    rows = [sep.join(str(x) for x in [i, t, len(tags)] + tags + nds) for i, (t, tags, nds) in elements.items()]
    sections.append("$Elements\n{}\n{}$EndElements".format(len(rows), "".join(r + "\n" for r in rows)))
    if rng.random() < 0.4:
        sections.insert(int(rng.integers(0, 3)), "$Comments\n1 2 3 4\nsome text 5 6\n$EndComments")
    if rng.random() < 0.3:
        sections.append("$NodeData\n1\n\"p\"\n1\n0.0\n3\n0\n1\n2\n1 0.5\n2 0.7\n$EndNodeData")
    for name in ["k", "flux field"][:int(rng.integers(0, 3))]:
        n_comp = int(rng.choice([1, 3]))
        data[name] = {}
        for t in range(steps):
            v = rng.normal(size=(len(ids), n_comp))
            time = float(np.round(rng.uniform(0, 5) + t * 5, 3))
            rows = ["{} {}".format(i, sep.join(repr(float(x)) for x in row)) for i, row in zip(ids, v)]
            sections.append("$ElementData\n1\n\"{}\"\n1\n{}\n3\n{}\n{}\n{}\n{}\n$EndElementData".format(
                name, time, t, n_comp, len(ids), "\n".join(rows)))
            data[name][float(t)] = (time, {i: [float(x) for x in row] for i, row in zip(ids, v)})
        if steps == 0:
            del data[name]
    path = os.path.join(ctx.scratch, "foreign.msh")
    text = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n" + "\n".join(sections) + ("\n" if rng.integers(2) else "")
    if rng.random() < 0.3:
        # Empty lines between sections and in them
        lines = text.split("\n")
        first = min([lines.index("$ElementData")] if "$ElementData" in lines else [len(lines)])
        for k in sorted(rng.integers(0, first, int(rng.integers(1, 4))))[::-1]:
            lines.insert(int(k), "" if rng.integers(2) else "  ")
        text = "\n".join(lines)
    with open(path, "w", newline="\r\n" if rng.random() < 0.2 else "\n") as f:
        f.write(text)
    if rng.integers(2):
        mesh = GmshIO(path)
    else:
        mesh = GmshIO()
        mesh.read(open(path))
    where = (len(sections), len(nodes), len(elements), sep, sorted(data))
    compare(ctx, members(mesh), nodes, elements, physical, "foreign", where)
    ctx.equal({n: {float(t): (float(x[0]), x[1]) for t, x in times.items()} for n, times in mesh.element_data.items()}, data, "foreign-data", where)
    ctx.state(len(sections), len(nodes), len(elements), sep, tuple(data), steps)
    ctx.event("meshes")


@scenario("C25", quick=120, thorough=2000)
def extraction(ctx, rng):
    """Points, regions and ids of the bulk elements"""
    flat = int(rng.choice([-1, 0, 1, 2]))
    n = int(rng.integers(6, 40))
    ids = [int(i) for i in rng.choice(np.arange(1, 9999), n, replace=False)]
    coords = rng.normal(size=(n, 3))
    if rng.random() < 0.4:
        # Small and thin domains
        coords = coords * 10 ** rng.uniform(-4, 3)
        if rng.random() < 0.5:
            coords[:, int(rng.integers(3))] *= 10 ** rng.uniform(-4, 0)
    if flat >= 0:
        coords[:, flat] = float(rng.choice([0, 1.5]))
    nodes = {i: [float(x) for x in c] for i, c in zip(ids, coords)}
    names = ["rock", ".bc_in", "fracture 1", ".bc_out", "top"]
    pids = [int(p) for p in rng.choice(np.arange(1, 500), len(names), replace=False)]
    physical = {nm: (p, 1 if nm[0] == '.' else 2) for nm, p in zip(names, pids)}
    elements = {}
    for i in rng.choice(np.arange(1, 9999), int(rng.integers(4, 60)), replace=False):
        k = int(rng.integers(len(names))) if elements else 0
        etype = 1 if names[k][0] == '.' else int(rng.choice([1, 2, 3, 4, 6, 7, 9, 15]))
        elements[int(i)] = (etype, [pids[k]] + [int(rng.choice(pids)) if rng.random() < 0.5 else int(t) for t in rng.integers(1, 90, int(rng.integers(0, 4)))], [int(x) for x in rng.choice(ids, N_NODES[etype], replace=False)])
    mesh = GmshIO()
    mesh.nodes, mesh.elements, mesh.physical = nodes, elements, physical
    path = os.path.join(ctx.scratch, "m.msh")
    with open(path, "w") as f:
        mesh.write_ascii(f)
    got = FlowSim.extract_mesh(path)
    region = {p: nm for nm, p in zip(names, pids)}
    bulk = [i for i, e in elements.items() if region[e[1][0]][0] != '.']
    where = (flat, n, len(elements), len(bulk))
    ctx.equal(sorted(int(i) for i in got['ele_ids']), sorted(bulk), "bulk-elements", where)
    ctx.equal(len(got['points']), len(bulk), "points", where)
    ctx.equal(len(got['point_region_ids']), len(bulk), "regions", where)
    ctx.equal({k: int(v) for k, v in got['region_map'].items()}, dict(zip(names, pids)), "region-map", where)
    axes = [0, 1, 2] if flat < 0 else [a for a in range(3) if a != flat]
    centers = {i: np.mean([nodes[k] for k in elements[i][2]], axis=0) for i in bulk}
    spans = np.ptp(np.array([centers[i] for i in bulk]), axis=0)
    if flat < 0 and spans.min() < 1e-10:
        axes = None      # a single element
    for i, p, r in zip(got['ele_ids'], got['points'], got['point_region_ids']):
        ctx.equal(int(r), elements[int(i)][1][0], "region-of-element", where)
        if axes is not None and (flat < 0 or np.sort(spans)[1] > 1e-10):
            ctx.close(p, centers[int(i)][axes], "barycenter", where, rtol=1e-9, atol=1e-12 * max(1.0, np.abs(coords).max()))
    ctx.state(*where)
    ctx.event("points", len(bulk))


def parse_binary(path, n_nodes=N_NODES):
    """Independent reader of binary files"""
    with open(path, "rb") as f:
        data = f.read()
    out = dict(nodes={}, elements={}, physical={})
    pos = 0

    def line():
        nonlocal pos
        end = data.index(b"\n", pos)
        text, pos = data[pos:end].decode("utf-8"), end + 1
        return text

    def take(fmt):
        nonlocal pos
        got = struct.unpack_from(fmt, data, pos)
        pos += struct.calcsize(fmt)
        return got
    while pos < len(data):
        name = line()
        if name == "$MeshFormat":
            assert line().split() == ["2.2", "1", "8"]
            assert take("<i") == (1,)
            assert line() == ""
        elif name == "$PhysicalNames":
            for _ in range(int(line())):
                dim, pid, nm = line().split(None, 2)
                assert nm[0] == '"' and nm[-1] == '"'
                out["physical"][nm[1:-1]] = (int(pid), int(dim))
        elif name == "$Nodes":
            for _ in range(int(line())):
                row = take("<i3d")
                out["nodes"][row[0]] = list(row[1:])
            assert line() == ""
        elif name == "$Elements":
            n = int(line())
            while n > 0:
                etype, count, n_tags = take("<3i")
                for _ in range(count):
                    row = take("<{}i".format(1 + n_tags + n_nodes[etype]))
                    out["elements"][row[0]] = (etype, list(row[1:1 + n_tags]), list(row[1 + n_tags:]))
                n -= count
            assert n == 0 and line() == ""
        assert line() == "$End" + name[1:]
    return out


@scenario("C25", quick=120, thorough=1500)
def binary_files(ctx, rng):
    nodes, elements, physical = random_mesh(rng)
    path = os.path.join(ctx.scratch, "binary.msh")
    where = (len(nodes), len(elements), len(physical))
    mesh = GmshIO()
    mesh.nodes, mesh.elements, mesh.physical = dict(nodes), dict(elements), dict(physical)
    if rng.integers(2):
        mesh.filename = path
        mesh.write_binary()
    else:
        mesh.write_binary(path)
    compare(ctx, parse_binary(path), nodes, elements, physical, "binary-written", where)
    compare(ctx, members(GmshIO(path)), nodes, elements, physical, "binary-read", where)
    # Written by another program, one header for an element or for more of the same type and number of tags
    blocks = {}
    single = bool(rng.integers(2))
    for i, (etype, tags, nds) in elements.items():
        blocks.setdefault((etype, len(tags), i if single else 0), []).append([i] + tags + nds)
    with open(path, "wb") as f:
        f.write(b"$MeshFormat\n2.2 1 8\n" + struct.pack("<i", 1) + b"\n$EndMeshFormat\n")
        f.write("$PhysicalNames\n{}\n{}$EndPhysicalNames\n".format(
            len(physical), "".join('{} {} "{}"\n'.format(d, i, n) for n, (i, d) in physical.items())).encode("utf-8"))
        f.write("$Nodes\n{}\n".format(len(nodes)).encode())
        f.write(b"".join(struct.pack("<i3d", i, *c) for i, c in nodes.items()) + b"\n$EndNodes\n")
        f.write("$Elements\n{}\n".format(len(elements)).encode())
        for (etype, n_tags, _), rows in blocks.items():
            f.write(struct.pack("<3i", etype, len(rows), n_tags))
            f.write(b"".join(struct.pack("<{}i".format(len(r)), *r) for r in rows))
        f.write(b"\n$EndElements\n")
    compare(ctx, members(GmshIO(path)), nodes, elements, physical, "binary-foreign", where + (single,))
    ctx.state(*where, single)
    ctx.event("meshes", 2)


@scenario("C25", quick=60, thorough=600)
def first_version(ctx, rng):
    """Files of version 1.0 have no format section and physical names, elements have two tags"""
    nodes, elements, _ = random_mesh(rng)
    elements = {i: (etype, (tags + [1, 1])[:2], nds) for i, (etype, tags, nds) in elements.items()}
    path = os.path.join(ctx.scratch, "old.msh")
    with open(path, "w") as f:
        f.write("$NOD\n{}\n{}$ENDNOD\n".format(len(nodes), "".join("{} {!r} {!r} {!r}\n".format(i, *c) for i, c in nodes.items())))
        f.write("$ELM\n{}\n{}$ENDELM\n".format(len(elements), "".join(
            " ".join(str(x) for x in [i, t] + tags + [len(nds)] + nds) + "\n" for i, (t, tags, nds) in elements.items())))
    where = (len(nodes), len(elements))
    compare(ctx, members(GmshIO(path)), nodes, elements, {}, "old", where)
    ctx.state(*where)
    ctx.event("meshes")
