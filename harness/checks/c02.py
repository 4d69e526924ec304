"""C02 bounds: every value of every result against the bound of that very element, scenario and time step."""
import numpy as np

import gen
import lab

TOL = 1e-6


def judge(ctx, spec, d):
    for key, series, upper in d.bounds():
        scale = max(1.0, float(upper.max()))
        over = lab.ratio(np.maximum(series - upper, 0), scale, TOL)
        under = lab.ratio(np.maximum(-series, 0), scale, TOL)
        ctx.top("excess_over_tolerance", max(over, under))
        ctx.ev("bounds_judged", series.size)
        tight = int(((np.abs(series - upper) < 1e-6 * scale) & (upper > 0)).sum())
        ctx.ev("bounds_reached", tight)
        ctx.ev("zero_bounds", int((upper == 0).sum()))
        ctx.check(over <= 1 and under <= 1, "%s is outside of its bounds" % (key,), series=series, bound=upper, spec=lambda: gen.dump(spec))
        if tight:
            ctx.seen(key[0], len(np.unique(upper)) > 1, np.ptp(upper, axis=0).max() > 0, np.ptp(upper, axis=1).max() > 0,
                     spec["H"], spec["N"])


def case(ctx):
    rng = ctx.rng
    spec = gen.spec(rng, min_stor=int(rng.integers(0, 3)), min_conv=int(rng.integers(0, 2)), drained=0)
    if ctx.index % 2:
        # bounds vary strongly from one (scenario, time step) to another, and bind: cheap supply, dear demand
        H, N = spec["H"], spec["N"]
        for kind, net, node, e in gen.walk(spec):
            for k in ("quantity", "flow_in", "flow_out", "max"):
                if k in e:
                    full = e[k].full * np.where(rng.random((N, H)) < 0.5, 0.05, 1.0)
                    e[k] = gen.V(full, full, "mat")
            if kind == "cons":
                e["cost"] = gen.V(1000, np.full((N, H), 1000.0), "scalar")
            if kind == "stor":
                full = e["capacity"].full * (1 + 3 * rng.random((N, H)))
                e["capacity"] = gen.V(full, full, "mat")
    if ctx.index % 4 in (1, 2):
        gen.drain(rng, spec)
        ctx.ev("storages_starting_over_capacity", sum(
            float(e["init_capacity"]) > e["capacity"].full.min() for kind, _, _, e in gen.walk(spec) if kind == "stor"))
    ctx.note = gen.describe(spec)
    study, result, d = lab.solved(ctx, spec)
    judge(ctx, spec, d)
