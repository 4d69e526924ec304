"""C04 converter ratios: source flow times ratio against destination flow, for every source."""
import numpy as np

import gen
import lab

TOL = 1e-6


def judge(ctx, spec, d):
    for name, c in spec["convs"].items():
        out = d.s["dest", name]
        for rank, (src, ratio) in enumerate(c["srcs"].items()):
            flow = d.s["src", name, src]
            diff = flow * ratio.full - out
            r = lab.ratio(diff, d.scale(), TOL)
            ctx.top("residual_over_tolerance", r)
            ctx.ev("conversions", out.size)
            ctx.ev("conversions_non_zero", int((out > 1e-9).sum()))
            ctx.check(r <= 1, "converter %r does not convert source %r with its ratio" % (name, src), at=lab.where(diff),
                      flow_src=flow, flow_dest=out, ratio=ratio.full, spec=lambda: gen.dump(spec))
            if (out > 1e-9).any():
                same = sum(o["dest"] == c["dest"] for o in spec["convs"].values())
                ctx.seen(rank, len(c["srcs"]), len({s[0] for s in c["srcs"]}), same, len(spec["convs"]), ratio.form.split("/")[0],
                         spec["H"], spec["N"], c["dest"] in c["srcs"])


def case(ctx):
    rng = ctx.rng
    spec = gen.spec(rng, min_conv=int(rng.integers(1, 5)))
    H, N = spec["H"], spec["N"]
    if ctx.index % 2:
        # converting is worthwhile: supply at sources, dear demand at destination
        for name, c in spec["convs"].items():
            for net, node in c["srcs"]:
                el = spec["nets"][net][node]
                if "zz" not in [p["name"] for p in el["prod"]]:
                    q = np.round(rng.uniform(20, 100, (N, H)))
                    el["prod"].append(dict(name="zz", cost=gen.V(0, np.zeros((N, H)), "scalar"), quantity=gen.V(q, q, "mat")))
            el = spec["nets"][c["dest"][0]][c["dest"][1]]
            if "zz" not in [p["name"] for p in el["cons"]]:
                q = np.round(rng.uniform(20, 100, (N, H)))
                el["cons"].append(dict(name="zz", cost=gen.V(5000, np.full((N, H), 5000.0), "scalar"), quantity=gen.V(q, q, "mat")))
        names = list(spec["convs"])
        if len(names) > 1 and rng.random() < 0.5:
            for n in names[1:]:
                spec["convs"][n]["dest"] = spec["convs"][names[0]]["dest"]
    ctx.note = gen.describe(spec)
    study, result, d = lab.solved(ctx, spec)
    judge(ctx, spec, d)
