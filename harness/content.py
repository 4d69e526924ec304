"""Content of a study, read value by value, compared to a spec."""
import json

import numpy as np


def snapshot(x):
    """Serialised content, to tell whether anything changed."""
    return json.dumps(x.to_json())


def read(v, N, H):
    """All values of a study attribute, read one by one by (scenario, time step)."""
    return np.array([[float(v[s, t]) for t in range(H)] for s in range(N)]).reshape(N, H)


FIELDS = dict(
    cons=("consumptions", "name", ("cost", "quantity")),
    prod=("productions", "name", ("cost", "quantity")),
    stor=("storages", "name", ("capacity", "flow_in", "flow_out", "cost", "eff")),
    link=("links", "dest", ("cost", "quantity")),
)


def compare(ctx, study, spec, why="", values=True):
    """Study holds exactly the spec: same networks, nodes, elements, in the same order, with the same values."""
    N, H = spec["N"], spec["H"]

    def eq(what, got, want):
        ctx.ev("contents_compared")
        ctx.check(got == want, "%s: %s are %r instead of %r" % (why, what, got, want))

    eq("dimensions", (study.horizon, study.nb_scn), (H, N))
    eq("networks", list(study.networks), list(spec["nets"]))
    for net, nodes in spec["nets"].items():
        eq("nodes of %r" % net, list(study.networks[net].nodes), list(nodes))
        for node, el in nodes.items():
            got = study.networks[net].nodes[node]
            for kind, (attr, name, fields) in FIELDS.items():
                items = getattr(got, attr)
                eq("%s of %r/%r" % (attr, net, node), [getattr(e, name) for e in items], [e[name] for e in el[kind]])
                for g, w in zip(items, el[kind]):
                    if kind == "stor":
                        eq("initial level", float(g.init_capacity), float(w["init_capacity"]))
                    for f in fields if values else ():
                        series(ctx, getattr(g, f), w[f], N, H, "%s %s of %s %r of %r/%r" % (why, f, kind, w[name], net, node))
    eq("converters", list(study.converters), list(spec["convs"]))
    for name, c in spec["convs"].items():
        g = study.converters[name]
        eq("converter name", g.name, name)
        eq("converter sources", list(g.src_ratios), list(c["srcs"]))
        for src, v in c["srcs"].items():
            if values:
                series(ctx, g.src_ratios[src], v, N, H, "%s ratio of converter %r" % (why, name))
        if c.get("dest"):
            eq("converter destination", (g.dest_network, g.dest_node), tuple(c["dest"]))
            if values:
                series(ctx, g.cost, c["cost"], N, H, "%s cost of converter %r" % (why, name))
                series(ctx, g.max, c["max"], N, H, "%s max of converter %r" % (why, name))


def series(ctx, got, want, N, H, what):
    x = read(got, N, H)
    ctx.ev("values_read", x.size)
    ctx.check(np.array_equal(x, want.full), "%s reads other values than given as %s" % (what, want.form), got=x, want=want.full)
