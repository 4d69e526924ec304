"""
C19 shuffler: every row returned is identified as one whole scenario of its source (rows carry unique numbers), draws are
compared between timelines and shuffles. Statistical oracles fail by chance with probability < 1e-12 each.
"""
import time

import numpy as np
import pandas as pd

import hadar as hd

import lab
import stages as st

CASE_TIMEOUT = 300


def first(low, high, size):
    return np.full(size, low)


def last(low, high, size):
    return np.full(size, high - 1)


def cycle(low, high, size):
    return low + (np.arange(size) * 7 + 3) % (high - low)


def backward(low, high, size):
    return np.array([high - 1 - i % (high - low) for i in range(size)])


SAMPLERS = [first, last, cycle, backward]


class Late(hd.Stage):
    """Stage which forwards its data after some delay: workers end in shuffled order"""

    def __init__(self, seconds):
        hd.Stage.__init__(self, hd.FreePlug())
        self.seconds = seconds

    def _process_timeline(self, timeline):
        time.sleep(self.seconds)
        return timeline


def unique(rng, n, h):
    """No number twice, so a row identifies its scenario"""
    return rng.permutation(n * h * 3)[: n * h].reshape(n, h)


def raw(rng, n, h):
    x = unique(rng, n, h)
    k = rng.integers(4)
    if k == 0:
        return x.astype(float) / 4
    if k == 1:
        return np.asfortranarray(x.astype(float))
    if k == 2:
        return x.astype(np.int64)
    big = np.zeros((2 * n, h))
    big[::2] = x
    return big[::2]


def piped(rng, n, h, mixed):
    """(DataFrame, pipeline, expected source matrix)"""
    extra = [c for c in ["a", "b", "zz", "", 0] if rng.random() < 0.25]
    flat = n == 1 and rng.random() < 0.7
    x = unique(rng, n, h).astype(float)
    keys = [(s, c) for s in range(n) for c in ["quantity"] + extra]
    if mixed and rng.random() < 0.4:  # which scenario is the i-th is then not specified, no matter without custom sampler
        keys = [keys[i] for i in rng.permutation(len(keys))]
    cols = [x[s] if c == "quantity" else rng.integers(0, 9, size=h) * 1.0 for s, c in keys]
    df = pd.DataFrame(dict(enumerate(cols)))
    df.columns = [c for _, c in keys] if flat else pd.MultiIndex.from_tuples(keys)
    df.index = st.index(rng, h)
    k = rng.integers(6)
    want = x
    if k == 0:
        pipe = hd.Clip(lower=10) + hd.ToShuffler("quantity")
        want = np.maximum(x, 10)
    elif k == 1:
        pipe = hd.Rename(quantity="q2") + hd.ToShuffler("q2")
    elif k == 2:
        m = int(rng.integers(1, 4))
        pipe = hd.RepeatScenario(m) + hd.ToShuffler("quantity")
        want = np.tile(x, (m, 1))
    elif k == 3:
        pipe = Late(float(rng.uniform(0, 0.05))) + hd.ToShuffler("quantity") + hd.Clip(upper=30)
        want = np.minimum(x, 30)
    elif k == 4:
        pipe = st.Mix(["quantity"], ["to_shuffler", "other"], True) + Late(float(rng.uniform(0, 0.02)))
        want = x * 2 + np.arange(n)[:, None] + np.arange(h)[None, :]
    else:
        pipe = hd.Fault(loss=1, occur_freq=0, downtime_min=1, downtime_max=2) + hd.ToShuffler("quantity")
    return df, pipe, want


def shape_case(ctx):
    rng = ctx.rng
    sampler = SAMPLERS[rng.integers(len(SAMPLERS))] if rng.random() < 0.5 else None
    sh = hd.Shuffler() if sampler is None else hd.Shuffler(sampler=sampler)
    sources, mine = {}, {}
    names = [st.COLUMNS[i] for i in rng.choice(len(st.COLUMNS), size=int(rng.integers(1, 10)), replace=False)]
    twice = names[0] if rng.random() < 0.2 else None
    for name in ([twice] if twice else []) + names:
        n, h = int(rng.choice([1, 2, 3, 7, 20, 40])), int(rng.choice([1, 2, 5, 24, 60, 300]))
        if rng.random() < 0.5:
            data = raw(rng, n, h)
            back = sh.add_data(name, data)
            sources[name] = np.array(data, dtype=float)
            mine.setdefault(name, []).append((data, data.copy()))
        else:
            df, pipe, want = piped(rng, n, h, sampler is None)
            back = sh.add_pipeline(name, df, pipe)
            sources[name] = want
            mine.setdefault(name, []).append((df, st.image(df)))
        ctx.check(back is sh, "adding a timeline doesn't give the shuffler back, documented so that calls are chained", got=repr(back))
    ctx.note = dict(timelines={k: list(v.shape) for k, v in sources.items()}, sampler=getattr(sampler, "__name__", None))
    for again in range(int(rng.integers(1, 4))):
        nb = int(rng.choice([1, 2, 5, 30, 100, 300]))
        cpu = int(rng.integers(1, 7))
        with lab.cpus(cpu):
            got = sh.shuffle(nb)
        ctx.ev("shuffles")
        ctx.check(isinstance(got, dict) and set(got) == set(sources), "shuffle returns %s instead of %s" % (sorted(got), sorted(sources)))
        for name, src in sources.items():
            x = np.asarray(got[name], dtype=float)
            ctx.check(x.shape == (nb, src.shape[1]), "%r has shape %s instead of %s" % (name, x.shape, (nb, src.shape[1])))
            if sampler is not None:
                want = src[sampler(0, src.shape[0], nb)]
                ctx.ev("custom_sampler_rows", nb)
                ctx.check((x == want).all(), "%r doesn't follow the sampler %s" % (name, sampler.__name__), got=x[:5], want=want[:5])
            lines = {r.tobytes() for r in src}
            for i in range(nb):
                ctx.ev("rows_identified")
                ctx.check(np.ascontiguousarray(x[i]).tobytes() in lines, "row %d of %r is not a scenario of its source" % (i, name), row=x[i], source=src[:5])
            ctx.seen(src.shape[0], src.shape[1] > 1, nb, cpu, sampler is None, isinstance(mine[name][-1][0], pd.DataFrame))
        # what is returned belongs to the user
        for name in got:
            if isinstance(got[name], np.ndarray) and got[name].flags.writeable:
                got[name][:] = -5
        for name, items in mine.items():
            for given, before in items:
                same = st.same_image(st.image(given), before) if isinstance(given, pd.DataFrame) else (given == before).all()
                ctx.ev("sources_compared")
                ctx.check(bool(same), "data of %r changed" % name)


def random_case(ctx):
    """Independence and coverage with the default sampler"""
    rng = ctx.rng
    cpu = int(rng.integers(1, 9))
    n, nb, k = 1000, 200, int(rng.integers(2, 9))
    sh = hd.Shuffler()
    frames = rng.random() < 0.4
    for i in range(k):
        if frames and i % 2:
            df = pd.DataFrame(np.arange(n)[None, :] * np.ones((2, 1)), columns=pd.MultiIndex.from_tuples([(s, "quantity") for s in range(n)]))
            sh.add_pipeline("t%d" % i, df, hd.Clip() + hd.ToShuffler("quantity"))
        else:
            sh.add_data("t%d" % i, np.arange(n)[:, None] * np.ones((1, 2)))
    ctx.note = dict(timelines=k, cpu=cpu, scenarios=n, draws=nb)
    draws = {}
    other = hd.Shuffler()  # another shuffler, same process
    other.add_data("t0", np.arange(n)[:, None] * np.ones((1, 2)))
    for again in range(3):
        with lab.cpus(cpu):
            got = sh.shuffle(nb)
        for name in got:
            draws[again, name] = np.asarray(got[name])[:, 0].astype(int)
    with lab.cpus(cpu):
        draws["other", "t0"] = np.asarray(other.shuffle(nb)["t0"])[:, 0].astype(int)
    ctx.ev("shuffles", 4)
    keys = list(draws)
    for a in range(len(keys)):
        for b in range(a):
            same = int((draws[keys[a]] == draws[keys[b]]).sum())
            ctx.top("equal_draws_among_200", same)
            ctx.ev("draw_pairs_compared")
            # expected 0.2; at least 14 by chance: < C(200,14) / 1000^14 < 1e-19
            ctx.check(same < 14, "draws of %s and %s are equal at %d positions among %d: not independent" % (keys[a], keys[b], same, nb))
            # shifted copies of one stream
            for shift in (1, 2):
                same = int((draws[keys[a]][shift:] == draws[keys[b]][:-shift]).sum())
                ctx.check(same < 14, "draws of %s are the draws of %s shifted by %d" % (keys[a], keys[b], shift))
    # 200 draws among 1000 without any repetition: < 1e-9 ; over 3 timelines < 1e-27
    if sum(len(set(draws[x].tolist())) == nb for x in keys) >= 3:
        ctx.fail("draws are without replacement")
    ctx.ev("replacement_judged")
    # every scenario with the same chance
    m, big = int(rng.integers(2, 9)), 6000
    sh = hd.Shuffler()
    sh.add_data("x", np.arange(m)[:, None] * 1.0)
    df = pd.DataFrame(np.arange(m)[None, :] * np.ones((2, 1)), columns=pd.MultiIndex.from_tuples([(s, "quantity") for s in range(m)]))
    sh.add_pipeline("y", df, hd.Clip() + hd.ToShuffler("quantity"))
    with lab.cpus(cpu):
        got = sh.shuffle(big)
    for name in got:
        freq = np.bincount(np.asarray(got[name])[:, 0].astype(int), minlength=m) / big
        tol = np.sqrt(np.log(2e13) / 2 / big)
        ctx.top("frequency_error_over_bound", np.abs(freq - 1 / m).max() / tol)
        ctx.ev("statistical_checks", m)
        ctx.check(freq.size == m and bool((np.abs(freq - 1 / m) <= tol).all()), "scenarios of %r drawn with frequencies %s" % (name, freq.tolist()))
    # faults generated while shuffling are also different between timelines and shuffles, and rows stay whole scenarios
    h, s = 120, 3
    df = pd.DataFrame(np.zeros((h, s)), columns=pd.MultiIndex.from_tuples([(i, "quantity") for i in range(s)]))
    sh = hd.Shuffler()
    for i in range(3):
        sh.add_pipeline("p%d" % i, df, hd.Fault(loss=1, occur_freq=0.5, downtime_min=1, downtime_max=3) + hd.ToShuffler("quantity"))
    owner = {}
    for again in range(2):
        with lab.cpus(cpu):
            got = sh.shuffle(20)
        for name in got:
            rows = {np.ascontiguousarray(r).tobytes() for r in np.asarray(got[name])}
            ctx.check(len(rows) <= s, "%d distinct rows drawn from %d scenarios" % (len(rows), s))
            for r in rows:
                ctx.ev("generated_rows_compared")
                ctx.check(owner.setdefault(r, (again, name)) == (again, name), "shuffle %d of %r has the faults of %s" % (again, name, owner[r]))
    ctx.seen("random", k, cpu, frames, m)


def case(ctx):
    (random_case if ctx.index % 5 == 0 else shape_case)(ctx)
