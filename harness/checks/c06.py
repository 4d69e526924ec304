"""
C06 scenario isolation: the same scenario solved alone, among others, beside other studies, in other orders, with other worker
counts, under perturbed completion order and after other solves must cost the same.
"""
import threading

import numpy as np

import c_admissible
import gen
import lab
import model

TOL = 1e-6


def costs(ctx, spec, n_cpu, jit=None):
    if jit is None:
        _, _, d = lab.solved(ctx, spec, n_cpu)
    else:
        with lab.jitter(jit, 0.03):
            _, _, d = lab.solved(ctx, spec, n_cpu)
        ctx.ev("solves_with_perturbed_schedule")
    c_admissible.judge(ctx, spec, d)
    return d.cost()


def together(ctx, specs, n_cpu):
    """Solve all studies at the same time, each by its own thread; their dispatches."""
    import hadar as hd

    studies = [gen.build(s) for s in specs]
    gate = threading.Barrier(len(specs))
    out = [None] * len(specs)

    def work(i):
        gate.wait()
        try:
            out[i] = hd.LPOptimizer().solve(studies[i])
        except BaseException as e:  # given to the main thread
            out[i] = e

    threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(specs))]
    with lab.cpus(n_cpu):
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    for r in out:
        if isinstance(r, BaseException):
            raise r
    ctx.ev("studies_solved_at_the_same_time", len(specs))
    dispatches = [model.Dispatch(s, r) for s, r in zip(specs, out)]
    for s, d in zip(specs, dispatches):
        c_admissible.judge(ctx, s, d)
    return [d.cost()[0] for d in dispatches]


def same(ctx, what, a, b, mag, spec, **kw):
    r = abs(a - b) / (TOL * max(1.0, abs(a), abs(b), mag))
    ctx.top("difference_over_tolerance", r)
    ctx.ev("scenario_costs_compared")
    ctx.check(r <= 1, "%s: cost %.9g instead of %.9g" % (what, b, a), spec=lambda: gen.dump(spec), **kw)


def case(ctx):
    rng = ctx.rng
    N = int(rng.choice([2, 3, 4, 5, 7, 9, 12, 17, 33, 70, 130, 270], p=[0.1, 0.15, 0.15, 0.15, 0.1, 0.1, 0.1, 0.1, 0.03, 0.01, 0.007, 0.003]))
    spec = gen.spec(rng, N=N, H=int(rng.integers(1, 6)), max_nodes=3, size=0.4)
    if not any(True for _ in gen.walk(spec)):
        spec = gen.spec(rng, N=N, H=3, max_nodes=4, min_stor=1, min_conv=1, size=0.5)
    if ctx.index % 2:  # scenarios of very different magnitudes, so that any mix shows
        f = rng.permutation(N) + 1.0

        def spread(v, k=None):
            return gen.V(v.full * f[:, None], v.full * f[:, None], "mat")

        for kind, _, _, e in gen.walk(spec):
            for k in ("quantity", "flow_in", "flow_out", "max"):
                if k in e:
                    e[k] = spread(e[k])
            if kind == "stor":
                e["capacity"] = spread(e["capacity"])
    ctx.note = gen.describe(spec)
    n_cpu = int(rng.choice([1, 2, 3, 4, 8, min(N, 40), min(N, 40) + 3]))
    base, mag = costs(ctx, spec, n_cpu)
    ctx.seen(N, n_cpu, gen.shape_of(spec))
    distinct = len({round(float(x), 6) for x in base})
    ctx.ev("studies_with_distinct_scenario_costs", int(distinct > 1))

    # alone
    some = rng.choice(N, size=min(N, 3), replace=False)
    for s in some:
        alone, _ = costs(ctx, gen.scenarios(spec, [s]), int(rng.choice([1, 2])))
        same(ctx, "scenario %d solved alone" % s, alone[0], base[s], mag[s], spec, n_cpu=n_cpu)
    # other order, other workers, perturbed schedule, with repetition of scenarios
    order = rng.permutation(N)
    if rng.random() < 0.5:
        order = np.concatenate([order, rng.choice(N, size=int(rng.integers(1, 4)))])
    other = gen.scenarios(spec, order)
    n2 = int(rng.choice([1, 2, 3, 5, 8]))
    got, _ = costs(ctx, other, n2, jit=int(rng.integers(1 << 20)))
    for pos, s in enumerate(order):
        same(ctx, "scenario %d at place %d of another study" % (s, pos), base[s], got[pos], mag[s], spec, n_cpu=n2)
    # history: another study with same names and other values, then again the first one
    twin = gen.scenarios(spec, rng.permutation(N)[: max(1, N // 2)])
    for kind, _, _, e in gen.walk(twin):
        if "cost" in e:
            e["cost"] = gen.V(e["cost"].full * 2 + 1, e["cost"].full * 2 + 1, "mat")
    costs(ctx, twin, 2)
    again, _ = costs(ctx, spec, int(rng.choice([1, 2, 4])))
    for s in range(N):
        same(ctx, "scenario %d solved again later" % s, base[s], again[s], mag[s], spec)
    # other studies with the same names are solved at the same time
    if ctx.index % 3 == 0 and N <= 17:
        for _ in range(2):
            orders = [np.arange(N)] + [rng.permutation(N) for _ in range(int(rng.integers(1, 4)))]
            found = together(ctx, [gen.scenarios(spec, o) for o in orders], int(rng.choice([1, 2, 4])))
            for o, got in zip(orders, found):
                for pos, s in enumerate(o):
                    same(ctx, "scenario %d at place %d, solved while other studies are" % (s, pos), base[s], got[pos], mag[s], spec)
