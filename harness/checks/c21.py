"""C21 infeasible studies: solving raises if and only if some scenario has no admissible dispatch (certified by duality)."""
import numpy as np

import c_admissible
import gen
import lab
import model


def verdict(spec):
    """'feasible', 'infeasible' or None if too close to call, with the culprit scenario"""
    close = False
    for scn in range(spec["N"]):
        bound, value = model.feasibility(spec, scn)
        if bound > 1e-2:
            return "infeasible", scn
        if value > 1e-9:
            close = True
    return (None, None) if close else ("feasible", None)


def endless(ctx):
    """Bounds without limit, and costs for which one scenario has no best dispatch (or which are no numbers)."""
    rng = ctx.rng
    N = int(rng.choice([1, 2, 3, 5, 9]))
    spec = gen.spec(rng, N=N, H=int(rng.integers(1, 6)), max_nodes=4, size=0.5, style="int", scale=1.0, drained=0)
    H = spec["H"]
    mat = lambda x: gen.V(x, x, "mat")
    net = list(spec["nets"])[rng.integers(len(spec["nets"]))]
    nodes = spec["nets"][net]
    names = list(nodes)
    ring = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
    s, t = int(rng.integers(N)), int(rng.integers(H))
    kind = ["none", "none", "unbounded", "nan", "inf"][rng.integers(5)]
    for n in ring:
        to = ring[(ring.index(n) + 1) % len(ring)]
        nodes[n]["link"] = [l for l in nodes[n]["link"] if l["dest"] != to]
        cost, cap = np.full((N, H), 1.0), np.full((N, H), 50.0)
        if kind in ("unbounded", "none"):
            cap = np.full((N, H), np.inf) if rng.random() < 0.5 else cap
            cap[s, t] = np.inf
        if kind == "unbounded":
            cost[s, t] = -1.0
        elif kind != "none" and n == ring[0]:
            cost[s, t] = np.nan if kind == "nan" else np.inf * (1 if rng.random() < 0.5 else -1)
        nodes[n]["link"].append(dict(dest=to, quantity=mat(cap), cost=mat(cost)))
    ctx.note = dict(gen.describe(spec), without_end=kind, ring=len(ring), culprit=s)
    study = gen.build(spec)
    try:
        result = lab.solve(ctx, study, n_cpu=int(rng.choice([1, 2, 4])))
    except Exception as e:
        ctx.ev("studies_refused")
        ctx.ev("refused_" + kind)
        ctx.check(kind != "none", "solving a feasible study with unlimited links raises %s: %s" % (type(e).__name__, str(e)[:200]), spec=lambda: gen.dump(spec))
    else:
        ctx.check(kind == "none", "scenario %d has no best dispatch (%s) but a result is returned" % (s, kind), spec=lambda: gen.dump(spec))
        ctx.ev("answered_with_unlimited_links")
        top = sum(float(e["quantity"].full.sum()) for k, _, _, e in gen.walk(spec) if k == "prod") + 1e4
        judged = gen.map_values(spec, lambda v: gen.V(np.minimum(v.full, top), np.minimum(v.full, top), "mat"))
        c_admissible.judge(ctx, judged, model.Dispatch(judged, result))
    ctx.seen("endless", kind, N, H, len(ring))


def case(ctx):
    rng = ctx.rng
    mode = ctx.index % 5
    if mode == 4:
        return endless(ctx)
    N = int(rng.choice([1, 2, 3, 5, 9, 17]))
    spec = gen.spec(rng, N=N, H=int(rng.integers(1, 8)), max_nodes=4, min_stor=int(rng.integers(1, 4)), size=0.5, style="int", scale=1.0, drained=0)
    H = spec["H"]
    stors = [(net, node, b) for kind, net, node, b in gen.walk(spec) if kind == "stor"]
    net, node, b = stors[rng.integers(len(stors))]
    if mode == 0:
        pass  # stays feasible
    elif mode == 1:
        # one level bound, of one scenario and one time step, below what must be stored
        s, t = int(rng.integers(N)), int(rng.integers(H))
        cap = b["capacity"].full + 20
        b["init_capacity"] = int(cap.min())
        cap[s, t] = float(rng.integers(0, max(1, int(cap.min() / 2))))
        b["capacity"] = gen.V(cap, cap, "mat")
        if rng.random() < 0.6:
            out = b["flow_out"].full * float(rng.choice([0, 0.3, 1]))
            b["flow_out"] = gen.V(out, out, "mat")
    elif mode == 2:
        # initial level over capacity at first step, may or may not be drained
        b["init_capacity"] = int(b["capacity"].full[:, 0].max() + rng.integers(0, 30))
        if rng.random() < 0.4:
            spec["nets"][net][node]["cons"] = []
    else:
        # random initial levels everywhere
        for _, _, x in stors:
            if rng.random() < 0.5:
                x["init_capacity"] = int(rng.integers(0, 60))
    want, culprit = verdict(spec)
    ctx.note = dict(gen.describe(spec), verdict=want, culprit=culprit)
    if want is None:
        ctx.ev("too_close_to_call")
        return
    study = gen.build(spec)
    try:
        result = lab.solve(ctx, study, n_cpu=int(rng.choice([1, 2, 4])))
    except Exception as e:
        ctx.ev("studies_refused")
        ctx.check(want == "infeasible", "solving a feasible study raises %s: %s" % (type(e).__name__, str(e)[:200]), spec=lambda: gen.dump(spec))
        ctx.seen("no", mode, N, H, culprit, len(stors))
        return
    ctx.check(want == "feasible", "scenario %s has no admissible dispatch but a result is returned" % culprit, spec=lambda: gen.dump(spec))
    d = model.Dispatch(spec, result)
    c_admissible.judge(ctx, spec, d)
    ctx.ev("studies_answered")
    over = any((np.asarray(x["capacity"].full) < x["init_capacity"]).any() for _, _, x in stors)
    ctx.ev("answered_with_forced_drain", int(over))
    ctx.seen("yes", mode, N, H, over, len(stors))
