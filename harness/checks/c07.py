"""C07 structure of results, purity of solving, and histories of build / solve / extend / solve."""
import copy
import json

import numpy as np

import c_admissible
import gen
import lab
import model

TOL = 1e-6


def snapshot(study):
    return json.dumps(study.to_json())


def mirror(ctx, spec, result):
    """Result has exactly the structure of the spec, in order."""
    def eq(what, got, want):
        ctx.ev("structures_compared")
        ctx.check(list(got) == list(want), "%s of result are %r instead of %r" % (what, list(got), list(want)), spec=lambda: gen.dump(spec))

    shape = (spec["N"], spec["H"])

    def series(what, x):
        x = np.asarray(x)
        ctx.ev("series_observed")
        ctx.check(x.shape == shape, "%s has shape %s instead of %s" % (what, x.shape, shape), spec=lambda: gen.dump(spec))
        ctx.check(np.issubdtype(x.dtype, np.number) and np.isfinite(x).all(), "%s is not a finite series" % what, spec=lambda: gen.dump(spec))

    b = result.benchmark
    for what, times in (("modeler", b.modeler), ("solver", b.solver)):
        ctx.check(len(times) == spec["N"], "benchmark has %d %s times for %d scenarios" % (len(times), what, spec["N"]), spec=lambda: gen.dump(spec))
        ctx.check(all(0 <= t <= 1e6 for t in times), "benchmark has a %s time %r" % (what, times))
    ctx.check(0 <= b.mapper <= 1e6 and 0 <= b.total <= 1e6, "benchmark has times %r %r" % (b.mapper, b.total))
    eq("networks", result.networks, spec["nets"])
    for net, nodes in spec["nets"].items():
        eq("nodes of %r" % net, result.networks[net].nodes, nodes)
        for node, el in nodes.items():
            out = result.networks[net].nodes[node]
            at = "%r/%r" % (net, node)
            eq("consumptions of " + at, [c.name for c in out.consumptions], [c["name"] for c in el["cons"]])
            eq("productions of " + at, [c.name for c in out.productions], [c["name"] for c in el["prod"]])
            eq("storages of " + at, [c.name for c in out.storages], [c["name"] for c in el["stor"]])
            eq("links of " + at, [c.dest for c in out.links], [c["dest"] for c in el["link"]])
            for c in out.consumptions + out.productions + out.links:
                series(at, c.quantity)
            for c in out.storages:
                for x in (c.capacity, c.flow_in, c.flow_out):
                    series(at, x)
    eq("converters", result.converters, spec["convs"])
    for name, c in spec["convs"].items():
        out = result.converters[name]
        eq("name of converter", [out.name], [name])
        eq("sources of converter %r" % name, out.flow_src, c["srcs"])
        series("converter", out.flow_dest)
        for x in out.flow_src.values():
            series("converter source", x)


def arrays(result):
    for net in result.networks.values():
        for node in net.nodes.values():
            for c in node.consumptions + node.productions + node.links:
                yield c.quantity
            for c in node.storages:
                yield c.capacity
                yield c.flow_in
                yield c.flow_out
    for c in result.converters.values():
        yield c.flow_dest
        yield from c.flow_src.values()


def close(ctx, what, spec, a, b):
    ta, mag = a.cost()
    tb, _ = b.cost()
    r = lab.ratio(ta - tb, np.maximum(np.abs(ta), mag), TOL)
    ctx.top("difference_over_tolerance", r)
    ctx.check(r <= 1, "%s: costs %s instead of %s" % (what, tb.tolist(), ta.tolist()), spec=lambda: gen.dump(spec))


def partial(spec, done):
    """Spec made of the operations already applied, in the order they were applied."""
    out = dict(H=spec["H"], N=spec["N"], nets={}, convs={})
    for op in done:
        kind = op[0]
        if kind == "net":
            out["nets"].setdefault(op[1], {})
        elif kind == "node":
            out["nets"][op[1]].setdefault(op[2], dict(cons=[], prod=[], stor=[], link=[]))
        elif kind in ("cons", "prod", "stor", "link"):
            out["nets"][op[1]][op[2]][kind].append(spec["nets"][op[1]][op[2]][kind][op[3]])
        elif kind == "src":
            c = out["convs"].setdefault(op[3], dict(srcs={}))
            c["srcs"][(op[1], op[2])] = spec["convs"][op[3]]["srcs"][(op[1], op[2])]
        elif kind == "dest":
            c = spec["convs"][op[1]]
            out["convs"].setdefault(op[1], dict(srcs={})).update(dest=c["dest"], cost=c["cost"], max=c["max"])
    return out


def case(ctx):
    import hadar as hd

    rng = ctx.rng
    spec = gen.spec(rng, max_nodes=4)
    ctx.note = gen.describe(spec)
    study = gen.build(spec)
    before = snapshot(study)
    r1 = lab.solve(ctx, study)
    d1 = model.Dispatch(spec, r1)
    mirror(ctx, spec, r1)
    ctx.seen(gen.shape_of(spec))
    ctx.check(snapshot(study) == before, "solving changed the study", spec=lambda: gen.dump(spec))
    agg = hd.ResultAnalyzer(study, r1)
    some = next(iter(spec["nets"]))
    agg.get_cost()
    agg.get_rac(some)
    ctx.check(snapshot(study) == before, "analysing changed the study", spec=lambda: gen.dump(spec))
    for k, v in model.Dispatch(spec, r1).s.items():
        ctx.check(np.array_equal(v, d1.s[k]), "analysing changed the result (%s)" % (k,), spec=lambda: gen.dump(spec))

    # again, with same content
    image1 = json.dumps(r1.to_json())
    r2 = lab.solve(ctx, study)
    ctx.check(json.dumps(r1.to_json()) == image1, "solving again changed a former result", spec=lambda: gen.dump(spec))
    mirror(ctx, spec, r2)
    d2 = model.Dispatch(spec, r2)
    close(ctx, "solving the same study again", spec, d1, d2)
    # results share nothing between them, nor with the study
    a1, a2 = list(arrays(r1)), list(arrays(r2))
    ctx.check(not any(x is y or np.shares_memory(x, y) for x in a1 for y in a2[:40] if x.size), "two results share data", spec=lambda: gen.dump(spec))
    for x in a2:
        x[...] = -12345.0
    if isinstance(r2.benchmark.modeler, list) and isinstance(r2.benchmark.solver, list):
        r2.benchmark.modeler.append(-1.0)
        r2.benchmark.solver.append(-1.0)
    ctx.check(json.dumps(r1.to_json()) == image1, "changing a result changed another one", spec=lambda: gen.dump(spec))
    ctx.check(snapshot(study) == before, "changing a result changed the study", spec=lambda: gen.dump(spec))
    for k, v in model.Dispatch(spec, r1).s.items():
        ctx.check(np.array_equal(v, d1.s[k]), "changing a result changed another one", spec=lambda: gen.dump(spec))
    r3 = lab.solve(ctx, study)
    d3 = model.Dispatch(spec, r3)
    c_admissible.judge(ctx, spec, d3)
    close(ctx, "solving after a former result was changed", spec, d1, d3)
    ctx.ev("repeated_solves", 2)

    # extend a solved study
    ops = gen.ops(spec)
    deps = sum(op[0] in ("net", "node") for op in ops)
    cuts = sorted(set(int(c) for c in rng.integers(1, len(ops) + 1, size=2)) | {len(ops)})
    # converters are usable only when complete: cut never inside one
    growing = hd.Study(horizon=spec["H"], nb_scn=spec["N"])
    done = []
    for cut in cuts:
        while cut < len(ops) and ops[cut - 1][0] == "src":
            cut += 1
        for op in ops[len(done):cut]:
            gen.apply(growing, spec, op)
            done.append(op)
        now = partial(spec, done)
        r = lab.solve(ctx, growing)
        mirror(ctx, now, r)
        d = model.Dispatch(now, r)
        c_admissible.judge(ctx, now, d)
        for scn in range(min(2, now["N"])):
            best, found, size = model.reference(now, scn)
            total, mag = d.cost()
            scale = max(1.0, abs(found), mag[scn], size)
            ctx.check(abs(total[scn] - found) <= TOL * scale, "after extension, scenario %d costs %.9g instead of %.9g" % (scn, total[scn], found),
                      spec=lambda: gen.dump(now))
        ctx.ev("extensions_solved")
    close(ctx, "study extended then solved", spec, d1, d)
    # a study rebuilt on the side is not affected by former ones
    other = hd.Study(horizon=spec["H"], nb_scn=spec["N"])
    ctx.check(list(other.networks) == [] and list(other.converters) == [], "a new study is not empty")
