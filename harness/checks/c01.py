"""C01 energy balance: conservation monitor over every node, scenario and time step of every solve."""
import gen
import lab

TOL = 1e-6


def judge(ctx, spec, d):
    for net, nodes in spec["nets"].items():
        for node, el in nodes.items():
            supply, demand = d.balance(net, node)
            r = lab.ratio(supply - demand, d.scale(), TOL)
            ctx.top("residual_over_tolerance", r)
            ctx.ev("balances", supply.size)
            ctx.ev("balances_non_zero", int((supply > 1e-9).sum()))
            ctx.check(r <= 1, "balance of node %r of network %r is broken" % (node, net), at=lab.where(supply - demand),
                      supply=supply, demand=demand, spec=lambda: gen.dump(spec))
            if (supply > 1e-9).any():
                loops = any(l["dest"] == node for l in el["link"])
                back = any(any(l2["dest"] == node for l2 in nodes[l["dest"]]["link"]) for l in el["link"] if l["dest"] != node)
                ins = sum(c["dest"] == (net, node) for c in spec["convs"].values())
                outs = sum((net, node) in c["srcs"] for c in spec["convs"].values())
                ctx.seen(len(el["cons"]), len(el["prod"]), len(el["stor"]), len(el["link"]), loops, back, ins, outs,
                         spec["H"] > 1, spec["N"] > 1)


def case(ctx):
    rng = ctx.rng
    i = ctx.index % 4
    if i == 0:
        spec = gen.spec(rng)
    elif i == 1:  # dense meshes with loops
        spec = gen.spec(rng, max_nodes=6, max_nets=2, size=0.95, conv=False)
        for net, nodes in spec["nets"].items():
            for node, el in nodes.items():
                for dest in nodes:
                    if rng.random() < (0.3 if dest != node else 0.25) and dest not in [l["dest"] for l in el["link"]]:
                        el["link"].append(dict(dest=dest, cost=gen.value(rng, spec["H"], spec["N"], -1, 3, "int"),
                                               quantity=gen.value(rng, spec["H"], spec["N"], 0, 30, "int")))
    elif i == 2:  # many converters, several between the same nodes
        spec = gen.spec(rng, min_conv=3)
        convs = spec["convs"]
        first = convs[list(convs)[0]]
        for name in list(convs)[1:]:
            if rng.random() < 0.5:
                convs[name]["dest"] = first["dest"]
            if rng.random() < 0.5:
                convs[name]["srcs"] = {k: gen.value(rng, spec["H"], spec["N"], 0.2, 2, "dec") for k in first["srcs"]}
    else:
        spec = gen.spec(rng, min_stor=3)
    ctx.note = gen.describe(spec)
    study, result, d = lab.solved(ctx, spec)
    judge(ctx, spec, d)
