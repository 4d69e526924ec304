"""C14 aggregates: costs, balances, remaining capacities and counts recomputed from spec and result."""
import numpy as np

import gen
import model
import tables

TOL = 1e-6


def near(ctx, what, got, want, spec, size):
    got = np.asarray(got, dtype=float)
    ctx.ev("aggregates_compared", want.size)
    ctx.check(got.shape == want.shape, "%s has shape %s instead of %s" % (what, got.shape, want.shape), spec=lambda: gen.dump(spec))
    bad = np.abs(got - want) > 1e-13 * size + 1e-9 * np.maximum(1.0, np.abs(want).max() if want.size else 1.0)
    ctx.check(not bad.any(), "%s is wrong" % what, got=got, want=want, spec=lambda: gen.dump(spec))


def case(ctx):
    rng = ctx.rng
    real = ctx.index % 3 == 0
    spec = gen.spec(rng, max_nodes=4, min_conv=int(rng.integers(0, 3)), drained=0 if ctx.index % 5 == 1 else 0.1)
    if ctx.index % 5 == 1:
        drop = ["cons", "prod", "stor", "link", "conv"][rng.integers(5)]
        if drop == "conv":
            spec["convs"] = {}
        for nodes in spec["nets"].values():
            for el in nodes.values():
                if drop in el:
                    el[drop] = []
    N, H = spec["N"], spec["H"]
    ctx.note = gen.describe(spec)
    study, result, d, agg = tables.analysed(ctx, spec, real)
    total = np.zeros((N, H))
    count = np.zeros(6)
    todo = []
    # what is added up, for rounding
    cost_size = sum(float(np.abs(c["quantity"].full * c["cost"].full).max()) for k, _, _, c in gen.walk(spec) if k == "cons")
    size = sum(float(np.abs(c["quantity"].full).max()) for k, _, _, c in gen.walk(spec) if "quantity" in c)
    for net, nodes in spec["nets"].items():
        sub = np.zeros((N, H))
        subcount = np.zeros(6)
        rac = np.zeros((N, H))
        for node, el in nodes.items():
            cost = d.node_cost(net, node)
            sub += cost
            n = np.array([len(el["cons"]), len(el["prod"]), len(el["stor"]), len(el["link"]),
                          sum((net, node) in c["srcs"] for c in spec["convs"].values()),
                          sum(tuple(c["dest"]) == (net, node) for c in spec["convs"].values())], dtype=float)
            subcount += n
            bal = np.zeros((N, H))
            for l in el["link"]:
                bal += d.s["link", net, node, l["dest"]]
            for other, oel in nodes.items():
                for l in oel["link"]:
                    if l["dest"] == node:
                        bal -= d.s["link", net, other, node]
            for p in el["prod"]:
                rac += p["quantity"].full - d.s["prod", net, node, p["name"]]
            for c in el["cons"]:
                rac -= c["quantity"].full - d.s["cons", net, node, c["name"]]
            todo.append(("cost of node %r of %r" % (node, net), lambda a=net, b=node: agg.get_cost(node=b, network=a), cost))
            todo.append(("balance of node %r of %r" % (node, net), lambda a=net, b=node: agg.get_balance(node=b, network=a), bal))
            todo.append(("counts of node %r of %r" % (node, net), lambda a=net, b=node: agg.get_elements_inside(node=b, network=a), n))
            if net == "default":
                todo.append(("cost of node %r" % node, lambda b=node: agg.get_cost(node=b), cost))
                todo.append(("balance of node %r" % node, lambda b=node: agg.get_balance(node=b), bal))
                todo.append(("counts of node %r" % node, lambda b=node: agg.get_elements_inside(node=b), n))
            ctx.seen(tuple(n), real, bool(np.abs(bal).max() > 0), H > 1, N > 1)
        total += sub
        count += subcount
        todo.append(("cost of network %r" % net, lambda a=net: agg.get_cost(network=a), sub))
        todo.append(("counts of network %r" % net, lambda a=net: agg.get_elements_inside(network=a), subcount))
        todo.append(("remaining capacity of network %r" % net, lambda a=net: agg.get_rac(network=a), rac))
        todo.append(("remaining capacity of network %r" % net, lambda a=net: agg.get_rac(a), rac))
        if net == "default":
            todo.append(("remaining capacity", lambda: agg.get_rac(), rac))
        todo.append(("number of nodes of %r" % net, lambda a=net, b=nodes: np.array([agg.nodes(a) == list(b)]), np.array([1.0])))
    todo.append(("size of study", lambda: np.array([agg.nb_scn, agg.horizon]), np.array([N, H])))
    todo.append(("cost of study", lambda: agg.get_cost(), total))
    todo.append(("counts of study", lambda: agg.get_elements_inside(), count))
    # asked in any order, some several times
    for i in list(rng.permutation(len(todo))) + list(rng.integers(len(todo), size=4)):
        what, f, want = todo[i]
        got = f()
        near(ctx, what, got, want, spec, cost_size if what.startswith("cost") else size)
        if isinstance(got, np.ndarray) and got.flags.writeable and rng.random() < 0.5:  # an answer belongs to its user
            got[...] = -777.0
            ctx.ev("answers_tampered")
    if real:
        got = np.asarray(agg.get_cost()).sum(axis=1)
        _, mag = d.cost()
        for s in range(min(N, 4)):
            best, found, size = model.reference(spec, s)
            r = abs(got[s] - found) / (TOL * max(1.0, abs(found), mag[s], size))
            ctx.top("gap_over_tolerance", r)
            ctx.ev("optimal_costs_compared")
            ctx.check(r <= 1, "study cost of scenario %d is %.9g, optimum is %.9g" % (s, got[s], found), spec=lambda: gen.dump(spec))
