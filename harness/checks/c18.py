"""
C18 faults: what was lost at each step is decomposed into outages (difference constraints, exact decision), seeds and
frequencies are observed over many draws. Bounds of the statistical oracles are exceeded by chance with probability < 1e-12.
"""
import multiprocessing

import numpy as np
import pandas as pd

import hadar as hd

import stages as st


def decomposable(c, dmin, dmax, faults_min, faults_max):
    """
    Is c (number of running outages at each step) a superposition of outages lasting dmin..dmax steps, cut at the end?

    Outages can be matched first-in first-out. With S(t), E(t) the number of starts/ends up to t, S - E = c,
    everything started by t - dmax is ended at t, what is ended at t was started by t - dmin. Minimal starts P and
    ends N follow increments of c, X(t) >= 0 non decreasing counts the additional start/end pairs: these are
    difference constraints, decided by Bellman-Ford.
    """
    H = len(c)
    d = np.diff(np.concatenate([[0], c]))
    P, N = np.cumsum(np.maximum(d, 0)), np.cumsum(np.maximum(-d, 0))
    dmin = max(1, dmin)
    # variables X(-1) = 0 .. X(H-1), index t + 1; constraint x[j] - x[i] <= w
    edges = []
    for t in range(H):
        edges.append((t + 1, t, 0))  # X(t-1) - X(t) <= 0
        j = t - dmax
        pj = P[j] if j >= 0 else 0
        edges.append((t + 1, max(j, -1) + 1, N[t] - pj))  # X(j) - X(t) <= N(t) - P(j)
        j = t - dmin
        pj = P[j] if j >= 0 else 0
        edges.append((max(j, -1) + 1, t + 1, pj - N[t]))  # X(t) - X(j) <= P(j) - N(t)
    edges.append((0, H, faults_max - P[-1]))  # total starts <= faults_max
    edges.append((H, 0, P[-1] - faults_min))  # total starts >= faults_min
    I, J, W = (np.array(x) for x in zip(*edges))
    x = np.zeros(H + 1)
    for _ in range(H + 2):
        y = x.copy()
        np.minimum.at(y, J, x[I] + W)
        if (y == x).all():
            return True
        x = y
    return False


def self_test():
    assert decomposable([0, 1, 1, 0], 2, 2, 0, 4)
    assert not decomposable([0, 1, 0, 0], 2, 2, 0, 4)
    assert decomposable([0, 0, 0, 1], 2, 2, 0, 4)
    assert not decomposable([0, 1, 1, 1, 0, 0], 1, 2, 0, 1)
    assert decomposable([0, 1, 1, 1, 0, 0], 1, 2, 0, 2)
    assert not decomposable([0, 1, 1, 1, 1, 1, 0], 3, 4, 0, 9)
    assert decomposable([1, 2, 2, 1, 0], 3, 3, 2, 2)
    assert not decomposable([1, 2, 2, 1, 0], 4, 4, 0, 9)
    assert not decomposable([1, 1, 1, 1], 1, 4, 5, 9) and decomposable([1, 1, 1, 1], 1, 4, 4, 9)


self_test()


def losses(before, after):
    """{scenario: quantity lost at each step}"""
    return {s: before[s, n] - after[s, n] for s, n in before if n == "quantity"}


def judge(ctx, df, out, p, text):
    """Structure of one output"""
    before, after = st.meaning(df), st.read(out)
    want = {k: v for k, v in before.items() if k[1] != "quantity"}
    ctx.check(after is not None and set(after) == set(before), "%s: columns changed" % text, got=list(map(str, after or ())), want=list(map(str, before)))
    diff = st.difference({k: after[k] for k in want}, want)
    ctx.check(diff is None, "%s: %s" % (text, diff))
    ctx.check(list(out.index) == list(df.index), "%s changed the time index" % text)
    counts = {}
    for s, lost in losses(before, after).items():
        c = lost / p["loss"]
        k = np.round(c)
        ctx.check(bool((np.abs(c - k) <= 1e-9).all() and (k >= 0).all()), "%s: lost quantities are not multiples of the loss" % text, scn=s, lost=lost.tolist())
        k = k.astype(int)
        H = len(k)
        lo = 0 if p["freq"] < 1 else (H if p["dmin"] > 0 else 0)
        hi = 0 if p["freq"] == 0 else H
        ok = decomposable(k, p["dmin"], p["dmax"], lo, hi)
        ctx.check(ok, "%s: losses are not outages of %d..%d steps" % (text, p["dmin"], p["dmax"]), scn=s, running=k.tolist())
        ctx.ev("steps_judged", H)
        ctx.ev("outage_steps_seen", int(k.sum()))
        counts[s] = k
        if k.any():
            ctx.seen(H > 20, min(p["dmin"], 4), min(p["dmax"] - p["dmin"], 6), min(int(k.max()), 5), p["freq"] == 1, bool(k[-1]), bool(k[0]))
    return counts


def flat(counts):
    return np.concatenate([counts[s] for s in sorted(counts)])


def in_process(args):
    stage, df = args
    return stage(df)


def hoeffding(n):
    """half width of a confidence interval of level 1 - 1e-12 for a mean of n values of [0, 1]"""
    return np.sqrt(np.log(2e12) / 2 / n)


def zeros(h, n):
    return pd.DataFrame(np.zeros((h, n)), columns=pd.MultiIndex.from_tuples([(i, "quantity") for i in range(n)]))


def parameters(rng, H):
    dmin = int(rng.choice([0, 1, 1, 2, 3, 7, 24]))
    dmax = dmin + int(rng.choice([0, 0, 1, 2, 5, 30]))
    if dmax == 0:
        dmax = 1
    freq = float(rng.choice([0, 0.01, 0.1, 0.3, 0.5, 0.9, 1]))
    loss = float(rng.choice([1, 0.5, 3.25, 100, 1000]))
    return dict(loss=loss, freq=freq, dmin=dmin, dmax=dmax)


def fault(p, seed=None):
    kw = {} if seed is None else dict(seed=seed)
    return hd.Fault(loss=p["loss"], occur_freq=p["freq"], downtime_min=p["dmin"], downtime_max=p["dmax"], **kw)


def shape_case(ctx):
    """Any table, any parameters"""
    rng = ctx.rng
    for _ in range(4):
        cols = ["quantity"] + [c for c in st.COLUMNS[1:] if rng.random() < 0.12]
        H = int(rng.choice([1, 2, 3, 8, 24, 60, 60, 200]))
        df = st.table(rng, cols, h=H)
        p = parameters(rng, H)
        seed = [None, 0, 1, int(rng.integers(2 ** 32))][rng.integers(4)]
        text = "Fault(%s, seed=%s)" % (p, seed)
        ctx.note = dict(stage=text, horizon=H)
        stage = fault(p, seed)
        image, state = st.image(df), st.state(stage)
        out = stage(df)
        counts = judge(ctx, df, out, p, text)
        ctx.ev("runs")
        ctx.check(st.same_image(st.image(df), image), "%s changed its input" % text)
        ctx.check(st.state(stage) == state, "%s changed by its use" % text)
        if seed is not None:
            # the same faults, whatever happened before, whatever the stage object, the process and the quantities
            np.random.seed(int(rng.integers(1000)))
            np.random.rand(int(rng.integers(5)))
            others = [stage(df), fault(p, seed)(df), (hd.Clip() + fault(p, seed))(df)]
            bis = df.copy()
            key = [c for c in bis.columns if (c if bis.columns.nlevels == 1 else c[1]) == "quantity"]
            for c in key:
                bis[c] = bis[c] * 2.0 + 5
            again = [judge(ctx, df, o, p, text) for o in others] + [judge(ctx, bis, fault(p, seed)(bis), p, text)]
            for c in again:
                ctx.ev("seeded_runs_compared")
                ctx.check((flat(c) == flat(counts)).all(), "%s: not the same faults with the same seed" % text)
    # seed 0 is a seed like others
    df = pd.DataFrame({"quantity": np.arange(50.0)})
    p = dict(loss=1.0, freq=0.5, dmin=1, dmax=2)
    a, b = fault(p, 0)(df), fault(p, 0)(df)
    ctx.check((a.values == b.values).all(), "seed 0 is not reproducible")
    ctx.ev("seeded_runs_compared")


def random_case(ctx):
    """Without seed: draws differ and follow the declared frequency and durations"""
    rng = ctx.rng
    # ordinary tables: scenarios, runs, processes all differ (equal by chance < 1e-30)
    H, S = int(rng.integers(200, 400)), int(rng.integers(2, 6))
    df = st.table(rng, ["quantity"], h=H, scenarios=list(range(S)), flat=False)
    p = dict(loss=2.0, freq=0.5, dmin=int(rng.integers(1, 4)), dmax=int(rng.integers(4, 9)))
    text = "Fault(%s)" % p
    ctx.note = dict(stage=text, horizon=H, scenarios=S)
    stage = fault(p)
    outs = [stage(df), stage(df), fault(p)(df)]
    pipe = stage + hd.Clip()
    outs += [pipe(df), pipe(df)]
    with multiprocessing.get_context("fork").Pool(2) as pool:
        outs += pool.map(in_process, [(stage, df), (stage, df), (pipe, df)], chunksize=1)
    with multiprocessing.get_context("fork").Pool(1) as pool:
        outs += pool.map(in_process, [(stage, df)])
    seen = {}
    for i, o in enumerate(outs):
        c = judge(ctx, df, o, p, text)
        for s in range(S):
            key = c[s].tobytes()
            ctx.check(key not in seen, "%s: run %d scenario %d has exactly the faults of run %s scenario %s" % ((text, i, s) + seen.get(key, (0, 0))))
            seen[key] = (i, s)
            ctx.ev("unseeded_draws_compared")
    # frequency
    n, k = 4000, 40
    f = float(rng.choice([0.02, 0.1, 0.37, 0.5, 0.8, 0.95]))
    out = hd.Fault(loss=1, occur_freq=f, downtime_min=1, downtime_max=1)(zeros(n, k))
    x = -out.values
    mean, tol = x.sum() / x.size, hoeffding(x.size)
    ctx.top("frequency_error_over_bound", abs(mean - f) / tol)
    ctx.ev("statistical_checks")
    ctx.check(abs(mean - f) <= tol, "frequency %.5f observed instead of %.5f over %d steps" % (mean, f, x.size))
    # any step may fail, including first and last: about 90 starts expected by step, at least 40 of them visible
    few, m = 12, 300
    c = -hd.Fault(loss=1, occur_freq=0.3, downtime_min=1, downtime_max=2)(zeros(few, m)).values
    starts = np.maximum(np.diff(np.concatenate([np.zeros((1, m), int), np.round(c).astype(int)]), axis=0), 0).sum(axis=1)
    ctx.ev("statistical_checks")
    ctx.check((starts > 0).all(), "no outage ever begins at steps %s" % np.where(starts == 0)[0].tolist(), starts=starts.tolist())
    few, m = 40, 500
    dmin = int(rng.integers(1, 4))
    dmax = dmin + int(rng.integers(0, 4))
    c = np.round(-hd.Fault(loss=1, occur_freq=1 / few, downtime_min=dmin, downtime_max=dmax)(zeros(few, m)).values).astype(int)
    # durations of outages alone in their scenario, away from the end
    durations = {}
    for j in range(m):
        on = np.where(c[:, j] > 0)[0]
        if on.size and c[:, j].max() == 1 and on[-1] - on[0] + 1 == on.size and on[-1] < few - 1 and on.size <= dmax:
            durations[on.size] = durations.get(on.size, 0) + 1
    ctx.ev("isolated_outages", sum(durations.values()))
    lack = [d for d in range(dmin, dmax + 1) if d not in durations]
    ctx.check(not lack, "durations %s never drawn among %d outages of %d..%d" % (lack, sum(durations.values()), dmin, dmax), seen=durations)
    ctx.ev("statistical_checks")


def case(ctx):
    (random_case if ctx.index % 7 == 0 else shape_case)(ctx)
