"""
Stand-in of the flow simulator: result is a weighted sum of the input field; everything it was given is appended to a log.
Some of the runs fail, it is decided by the values.
"""
import json
import os
import sys


def read_fields(path):
    with open(path) as f:
        lines = f.read().split("\n")
    fields = {}
    while "$ElementData" in lines:
        i, j = lines.index("$ElementData"), lines.index("$EndElementData")
        rows = [r.split() for r in lines[i + 9:j]]
        fields[lines[i + 2].strip('"')] = [(int(r[0]), float(r[1])) for r in rows]
        lines = lines[j + 1:]
    return fields


def flux_of(field, mesh_key):
    return sum(v / (1 + e % 7) for e, v in field) + mesh_key


def mesh_key(n):
    """Depends on the mesh"""
    return n / 1000.0


def behaviour(field, table):
    return table[int(abs(field[0][1]) * 1e7) % len(table)]


def main(args):
    yaml = args[args.index("-s") + 1]
    out = args[args.index("-o") + 1]
    inp = args[args.index("-i") + 1]
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "setting.json")) as f:
        setting = json.load(f)
    with open(yaml) as f:
        text = f.read()
    fields = read_fields(os.path.join(inp, "fields_sample.msh"))
    field = fields["conductivity"]
    kind = behaviour(field, setting["table"])
    with open(os.path.join(here, "log"), "a") as f:
        f.write(json.dumps(dict(yaml=yaml, out=out, inp=inp, fields=sorted(fields), field=field, kind=kind, text=text)) + "\n")
    if kind == "nothing":
        return 3
    flux = flux_of(field, mesh_key(len(field)))
    inflow = {"inflow": 0.5, "small_inflow": 1e-6}.get(kind, 0.0)
    region = ".bc_other" if kind == "no_region" else ".bc_outflow"
    items = [(0.0, "rock", 7.0, 1.0), (0.0, ".bc_inflow", 5.0, 5.0), (0.0, region, -flux, inflow), (0.0, "top layer", 1.0, 0.0),
             (1.5, ".bc_outflow", -99.0, 0.0)]
    if kind == "empty":
        items = []
    with open(os.path.join(out, "water_balance.yaml"), "w") as f:
        f.write("column_names: ['flux', 'flux_in', 'flux_out']\ndata:\n")
        for time, reg, fl, fin in items:
            f.write("  - time: {}\n    region: {}\n    quantity: water_volume\n    data: [ {!r}, {!r}, 0 ]\n".format(time, reg, fl, fin))
            if kind == "broken" and reg == "rock":
                f.write("   - : : [")
                return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
