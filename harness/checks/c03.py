"""C03 storage dynamics: level recomputed from initial level, efficiency and flows for every storage."""
import numpy as np

import gen
import lab

TOL = 1e-6


def judge(ctx, spec, d):
    for net, nodes in spec["nets"].items():
        for node, el in nodes.items():
            for rank, b in enumerate(el["stor"]):
                level, fin, fout = (d.s[k, net, node, b["name"]] for k in ("cap", "fin", "fout"))
                before = np.hstack([np.full((spec["N"], 1), float(b["init_capacity"])), level[:, :-1]])
                diff = level - (before + fin * b["eff"].full - fout)
                r = lab.ratio(diff, d.scale(), TOL)
                ctx.top("residual_over_tolerance", r)
                ctx.ev("levels", level.size)
                ctx.ev("levels_non_zero", int((level > 1e-9).sum()))
                ctx.ev("inflows_non_zero", int((fin > 1e-9).sum()))
                ctx.ev("outflows_non_zero", int((fout > 1e-9).sum()))
                ctx.check(r <= 1, "level of storage %r of node %r of network %r does not follow from its flows" % (b["name"], node, net),
                          at=lab.where(diff), level=level, flow_in=fin, flow_out=fout, eff=b["eff"].full, init=b["init_capacity"],
                          spec=lambda: gen.dump(spec))
                if (fin > 1e-9).any() or (fout > 1e-9).any():
                    ctx.seen(rank, len(el["stor"]), len(nodes), spec["H"], spec["N"], float(b["init_capacity"]) > 0,
                             b["eff"].form.split("/")[0], (fin > 1e-9).any(), (fout > 1e-9).any())


def case(ctx):
    rng = ctx.rng
    mode = ctx.index % 3
    spec = gen.spec(rng, min_stor=int(rng.integers(1, 6)), H=int(rng.integers(24, 70)) if mode == 2 and rng.random() < 0.3 else None)
    H, N = spec["H"], spec["N"]
    if mode >= 1:
        # make storing worthwhile: supply and demand alternate, storage is free
        for net, nodes in spec["nets"].items():
            for node, el in nodes.items():
                full = 100.0 * (rng.random((N, H)) < 0.5)
                el["prod"] = [p for p in el["prod"] if p["name"] != "zz"] + [dict(name="zz", cost=gen.V(1, np.ones((N, H)), "scalar"), quantity=gen.V(full, full, "mat"))]
                need = 60.0 * (1 - full / 100.0)
                el["cons"].append(dict(name="zz", cost=gen.V(5000, np.full((N, H), 5000.0), "scalar"), quantity=gen.V(need, need, "mat")))
    if mode == 2:
        # same storage names everywhere
        for net, nodes in spec["nets"].items():
            for node, el in nodes.items():
                for k, b in enumerate(el["stor"]):
                    b["name"] = ["cell", "cell2", "x", "y", "z", "w", "v"][k] if k < 7 else "cell%d" % k
    if ctx.index % 5 == 0:
        gen.drain(rng, spec)
    ctx.note = gen.describe(spec)
    study, result, d = lab.solved(ctx, spec)
    judge(ctx, spec, d)
