"""
C23 building calls act where they are addressed: random interleavings of calls over kept handles, against a
reference machine; then same optimal cost as the study built in the plain order.
"""
import numpy as np

import content
import gen
import lab
import model
from checks.c07 import partial

TOL = 1e-6


def shuffled(rng, ops, spec):
    """A random order of the operations where nodes exist before what needs them."""
    todo = [ops[i] for i in rng.permutation(len(ops))]
    out, have = [], set()
    while todo:
        for k, op in enumerate(todo):
            if op[0] == "net":
                ok = True
            elif op[0] == "node":
                ok = ("net", op[1]) in have
            elif op[0] == "link":
                ok = ("node", op[1], op[2]) in have and ("node", op[1], spec["nets"][op[1]][op[2]]["link"][op[3]]["dest"]) in have
            elif op[0] == "dest":
                ok = ("node",) + tuple(spec["convs"][op[1]]["dest"]) in have
            else:
                ok = ("node", op[1], op[2]) in have
            if ok:
                out.append(op)
                have.add(op[:3] if op[0] == "node" else op[:2])
                del todo[k]
                break
    return out


def case(ctx):
    import hadar as hd

    rng = ctx.rng
    spec = gen.spec(rng, max_nodes=4, H=int(rng.integers(1, 5)), N=int(rng.integers(1, 4)), size=0.6, min_conv=int(rng.integers(0, 2)))
    ctx.note = gen.describe(spec)
    order = shuffled(rng, gen.ops(spec), spec)
    study = hd.Study(horizon=spec["H"], nb_scn=spec["N"])
    nets, nodes = {}, {}  # kept handles
    done = []
    last = None
    for op in order:
        kind = op[0]
        if kind == "net":
            # from the study, or from any handle
            pool = [study] + [h for hs in nets.values() for h in hs] + [h for hs in nodes.values() for h in hs]
            h = pool[rng.integers(len(pool))].network(op[1])
            nets.setdefault(op[1], []).append(h)
        elif kind == "node":
            pool = nets[op[1]] + [h for (n, _), hs in nodes.items() if n == op[1] for h in hs]
            h = pool[rng.integers(len(pool))].node(op[2])
            nodes.setdefault((op[1], op[2]), []).append(h)
        elif kind == "link":
            pool = nets[op[1]] + [h for (n, _), hs in nodes.items() if n == op[1] for h in hs]
            h = gen.apply(study, spec, op, pool[rng.integers(len(pool))])
            nets[op[1]].append(h)  # it gives the network back
        elif kind == "dest":
            pool = [h for hs in nets.values() for h in hs] + [h for hs in nodes.values() for h in hs]
            h = gen.apply(study, spec, op, pool[rng.integers(len(pool))])
            ctx.check(h.build() is study, "build() gives another study")
        else:
            pool = nodes[(op[1], op[2])]
            h = gen.apply(study, spec, op, pool[rng.integers(len(pool))])
            pool.append(h)  # chaining goes on with the same node
        done.append(op)
        ctx.ev("calls_on_kept_handles")
        now = partial(spec, done)
        content.compare(ctx, study, now, "after %r" % (op,), values=False)
        if rng.random() < 0.3:
            # open again what exists
            before = content.snapshot(study)
            net = list(now["nets"])[rng.integers(len(now["nets"]))]
            pool = [study] + [x for hs in nodes.values() for x in hs]
            h = pool[rng.integers(len(pool))].network(net)
            nets[net].append(h)
            if now["nets"][net] and rng.random() < 0.7:
                node = list(now["nets"][net])[rng.integers(len(now["nets"][net]))]
                nodes[(net, node)].append(h.node(node))
            ctx.ev("reopenings")
            ctx.check(content.snapshot(study) == before, "opening %r again altered the study" % net)
    final = partial(spec, done)
    content.compare(ctx, study, final, "at the end")
    for h in [x for hs in nodes.values() for x in hs][:5]:
        ctx.check(h.build() is study, "build() gives another study")
    ctx.seen(gen.shape_of(spec), len(done))
    # same optimum as in plain order
    result = lab.solve(ctx, study)
    a = model.Dispatch(final, result)
    _, _, b = lab.solved(ctx, spec)
    ta, mag = a.cost()
    tb, _ = b.cost()
    r = lab.ratio(ta - tb, np.maximum(mag, np.abs(ta)), TOL)
    ctx.top("difference_over_tolerance", r)
    ctx.ev("optimal_costs_compared")
    ctx.check(r <= 1, "order of additions changes the optimal cost: %s and %s" % (ta.tolist(), tb.tolist()), spec=gen.dump(final))
