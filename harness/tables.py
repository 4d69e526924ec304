"""Expected content of the analyzer tables, from spec and dispatch; and results made of arbitrary numbers."""
import itertools

import numpy as np

import model

# table: (label columns, value columns)
TABLES = dict(
    consumption=(("network", "node", "name"), ("cost", "asked", "given")),
    production=(("network", "node", "name"), ("cost", "avail", "used")),
    storage=(("network", "node", "name"), ("max_capacity", "capacity", "max_flow_in", "flow_in", "max_flow_out", "flow_out", "cost", "init_capacity", "eff")),
    link=(("network", "node", "dest"), ("cost", "avail", "used")),
    src_converter=(("network", "node", "name"), ("ratio", "flow", "max")),
    dest_converter=(("network", "node", "name"), ("flow", "cost", "max")),
)


def elements(spec, d, table):
    """(labels, {column: array (N, H)}) of each element of a table"""
    N, H = spec["N"], spec["H"]
    if table in ("src_converter", "dest_converter"):
        for name, c in spec["convs"].items():
            if table == "dest_converter":
                yield (c["dest"][0], c["dest"][1], name), dict(flow=d.s["dest", name], cost=c["cost"].full, max=c["max"].full)
            else:
                for (net, node), r in c["srcs"].items():
                    yield (net, node, name), dict(ratio=r.full, flow=d.s["src", name, (net, node)], max=c["max"].full / r.full)
        return
    for net, nodes in spec["nets"].items():
        for node, el in nodes.items():
            if table == "consumption":
                for c in el["cons"]:
                    yield (net, node, c["name"]), dict(cost=c["cost"].full, asked=c["quantity"].full, given=d.s["cons", net, node, c["name"]])
            elif table == "production":
                for c in el["prod"]:
                    yield (net, node, c["name"]), dict(cost=c["cost"].full, avail=c["quantity"].full, used=d.s["prod", net, node, c["name"]])
            elif table == "link":
                for c in el["link"]:
                    yield (net, node, c["dest"]), dict(cost=c["cost"].full, avail=c["quantity"].full, used=d.s["link", net, node, c["dest"]])
            else:
                for c in el["stor"]:
                    n = c["name"]
                    yield (net, node, n), dict(max_capacity=c["capacity"].full, capacity=d.s["cap", net, node, n], max_flow_in=c["flow_in"].full,
                                               flow_in=d.s["fin", net, node, n], max_flow_out=c["flow_out"].full, flow_out=d.s["fout", net, node, n],
                                               cost=c["cost"].full, init_capacity=np.full((N, H), float(c["init_capacity"])), eff=c["eff"].full)


def rows(spec, d, table):
    """{(network, node, name, scn, t): tuple of values}"""
    _, cols = TABLES[table]
    out = {}
    for labels, vals in elements(spec, d, table):
        arrs = [vals[c] for c in cols]
        for s in range(spec["N"]):
            for t in range(spec["H"]):
                key = labels + (s, t)
                assert key not in out
                out[key] = tuple(float(a[s, t]) for a in arrs)
    return out


def fake_result(spec, rng):
    """A result with the structure of the study and arbitrary distinct numbers."""
    from hadar.optimizer.domain.output import (OutputConsumption, OutputConverter, OutputLink, OutputNetwork, OutputNode, OutputProduction,
                                               OutputStorage, Result)

    shape = (spec["N"], spec["H"])
    x = lambda: np.round(rng.uniform(0, 1000, shape), 6)

    def storage(c):
        # levels follow from flows: some plots derive one from the others
        fin, fout = x(), x()
        level = float(c["init_capacity"]) + np.cumsum(fin * c["eff"].full - fout, axis=1)
        return OutputStorage(name=c["name"], capacity=level, flow_in=fin, flow_out=fout)

    nets = {}
    for net, nodes in spec["nets"].items():
        out = {}
        for node, el in nodes.items():
            out[node] = OutputNode(
                consumptions=[OutputConsumption(name=c["name"], quantity=x()) for c in el["cons"]],
                productions=[OutputProduction(name=c["name"], quantity=x()) for c in el["prod"]],
                storages=[storage(c) for c in el["stor"]],
                links=[OutputLink(dest=c["dest"], quantity=x()) for c in el["link"]],
            )
        nets[net] = OutputNetwork(nodes=out)
    convs = {name: OutputConverter(name=name, flow_src={k: x() for k in c["srcs"]}, flow_dest=x()) for name, c in spec["convs"].items()}
    return Result(networks=nets, converters=convs)


def analysed(ctx, spec, real):
    """(study, result, dispatch, analyzer) with a solved result or arbitrary numbers"""
    import hadar as hd

    import gen
    import lab

    study = gen.build(spec)
    result = lab.solve(ctx, study) if real else fake_result(spec, ctx.rng)
    d = model.Dispatch(spec, result)
    u = ctx.rng.random()
    if u < 0.2:  # another result of the same study, analysed before or after
        hd.ResultAnalyzer(study, fake_result(spec, ctx.rng)).get_cost()
    agg = hd.ResultAnalyzer(study, result)
    if 0.2 <= u < 0.4:
        hd.ResultAnalyzer(study, fake_result(spec, ctx.rng)).get_cost()
    ctx.ev("other_results_analysed", int(u < 0.4))
    ctx.ev("analyzers_built")
    return study, result, d, agg
