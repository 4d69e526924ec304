"""C05 optimality: cost of the returned dispatch against an independent reference optimum of each scenario."""
import numpy as np

import c_admissible
import gen
import lab
import model

TOL = 1e-6


def judge(ctx, spec, d):
    # a dispatch outside of the model may be cheaper than the optimum: it must be admissible too
    c_admissible.judge(ctx, spec, d)
    total, mag = d.cost()
    for scn in range(spec["N"]):
        best, found, size = model.reference(spec, scn)
        ctx.ev("reference_optima")
        scale = max(1.0, abs(best), mag[scn], size)
        # the certificate itself has to be tight, else it decides nothing
        if abs(found - best) > TOL * scale / 4:
            ctx.ev("undecided_optima")
            best = found
        r = abs(total[scn] - best) / (TOL * scale)
        ctx.top("gap_over_tolerance", r)
        ctx.check(r <= 1, "scenario %d costs %.9g, optimum is %.9g" % (scn, total[scn], best), spec=lambda: gen.dump(spec))
        ctx.ev("scenarios_with_non_zero_cost", int(abs(best) > 1e-9))
    active = sorted({k[0] for k, v in d.cost_terms() if np.abs(v).max() > 1e-9})
    neg = any((e[k].full < 0).any() for _, _, _, e in gen.walk(spec) for k in ("cost",))
    ctx.seen(gen.shape_of(spec), tuple(active), neg)
    for k in active:
        ctx.ev("studies_where_%s_costs" % k)


def case(ctx):
    rng = ctx.rng
    mode = ctx.index % 5
    if mode == 0:
        spec = gen.spec(rng)
    elif mode == 1:
        spec = gen.spec(rng, min_stor=2)
        if rng.random() < 0.5:
            gen.drain(rng, spec)
    elif mode == 2:
        spec = gen.spec(rng, min_conv=2)
    elif mode == 3:  # every kind of element, all costs vary with scenario and time
        spec = gen.spec(rng, min_stor=1, min_conv=1, size=0.5)
        for kind, _, _, e in gen.walk(spec):
            hi = dict(cons=1000, prod=100, stor=2, link=10, conv=20)[kind]
            lo = -hi / 4 if rng.random() < 0.3 else 0
            c = np.round(rng.uniform(lo, hi, (spec["N"], spec["H"])), 1)
            e["cost"] = gen.V(c, c, "mat")
    else:  # long horizon
        spec = gen.spec(rng, H=int(rng.integers(20, 50)), N=int(rng.integers(1, 3)), max_nodes=3, max_nets=2, size=0.3, min_stor=1)
    ctx.note = gen.describe(spec)
    study, result, d = lab.solved(ctx, spec)
    judge(ctx, spec, d)
