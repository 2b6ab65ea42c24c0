"""Stand-in of the mesh generator: structured triangular mesh of a rectangle, parameters are in the first line of the geo file"""
import json
import sys


def main(args):
    step = float(args[args.index("-clscale") + 1])
    out = args[args.index("-o") + 1]
    geo = args[-1]
    with open(geo) as f:
        p = json.loads(f.readline()[2:])
    nx, ny = max(1, int(round(p["size"][0] / step))), max(1, int(round(p["size"][1] / step)))
    k, off = p["stride"], p["offset"]
    node = lambda i, j: off + k * (j * (nx + 1) + i)
    nodes = [(node(i, j), p["size"][0] * i / nx, p["size"][1] * j / ny) for j in range(ny + 1) for i in range(nx + 1)]
    rows, ids = [], off
    names = [(2, 10, "rock"), (2, 11, "top layer"), (1, 12, ".bc_inflow"), (1, 13, ".bc_outflow")]

    def element(etype, region, nds):
        nonlocal ids
        ids += k
        rows.append("{} {} 2 {} {} {}".format(ids, etype, region, region, " ".join(str(x) for x in nds)))
    for j in range(ny):
        element(1, 12, [node(0, j), node(0, j + 1)])
        for i in range(nx):
            region = 10 if 2 * j < ny else 11
            element(2, region, [node(i, j), node(i + 1, j), node(i + 1, j + 1)])
            element(2, region, [node(i, j), node(i + 1, j + 1), node(i, j + 1)])
        element(1, 13, [node(nx, j), node(nx, j + 1)])
    with open(out, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n{}\n".format(len(names)))
        f.write("".join('{} {} "{}"\n'.format(*n) for n in names) + "$EndPhysicalNames\n$Nodes\n{}\n".format(len(nodes)))
        f.write("".join("{} {!r} {!r} 0\n".format(*n) for n in nodes) + "$EndNodes\n$Elements\n{}\n".format(len(rows)))
        f.write("".join(r + "\n" for r in rows) + "$EndElements\n")


if __name__ == "__main__":
    main(sys.argv[1:])
