"""C17 built in stages: every cell of the output against the meaning of the stage; input compared to its image."""
import numpy as np

import stages as st


def drawn(rng, cols, kind):
    some = lambda n: [cols[i] for i in rng.choice(len(cols), size=n, replace=False)]
    new = [c for c in st.COLUMNS + ["to_shuffler"] if c not in cols]
    if kind == 0:
        lo, hi = sorted(np.round(rng.uniform(-60, 210, size=2) * 8) / 8)
        lower = [None, float(lo), int(lo), 0, 0.0, -0.5][rng.integers(6)]
        upper = [None, float(hi), int(hi) + 1, 0][rng.integers(4)]
        if lower is not None and upper is not None and lower > upper:
            lower, upper = upper, lower
        if lower is not None and rng.random() < 0.1:
            upper = lower
        return st.clip(lower, upper)
    if kind == 1:
        old = some(int(rng.integers(1, len(cols) + 1)))
        mode = rng.integers(3)
        if mode == 0 and len(old) > 1:  # cycle
            return st.rename(**dict(zip(old, old[1:] + old[:1])))
        if mode == 1 and len(old) > 1:  # chain a->b, b->new
            return st.rename(**dict(zip(old, old[1:] + [new[rng.integers(len(new))]])))
        return st.rename(**dict(zip(old, [new[i] for i in rng.choice(len(new), size=len(old), replace=False)])))
    if kind == 2:
        return st.to_shuffler(some(1)[0])
    if kind == 3:
        names = some(int(rng.integers(1, max(2, len(cols)))))
        if len(names) == len(cols):
            names = names[1:]
        if not names:
            return None
        return st.drop(names[0] if len(names) == 1 and rng.random() < 0.6 else names)
    return st.repeat(int(rng.choice([1, 1, 2, 3, 5, 12])))


def case(ctx):
    rng = ctx.rng
    for _ in range(12):
        cols = [st.COLUMNS[i] for i in rng.choice(len(st.COLUMNS), size=int(rng.integers(1, 6)), replace=False)]
        k = drawn(rng, cols, int(rng.integers(5)))
        if k is None:
            continue
        n = int(rng.choice([1, 2, 3, 5, 11]))
        labels = [list(range(n)), [int(x) for x in rng.permutation(n)], [int(x) for x in rng.choice(99, size=n, replace=False)],
                  ["s%d" % x for x in rng.choice(99, size=n, replace=False)], [-int(x) for x in range(n)]][rng.integers(5)]
        df = st.table(rng, cols, h=int(rng.choice([1, 2, 5, 24, 60])), scenarios=labels, nan=True)
        ctx.note = dict(stage=k.text, columns=cols, scenarios=labels)
        image, state = st.image(df), st.state(k.stage)
        m = st.meaning(df)
        for again in range(2):
            out = k.stage(df)
            want = k.expect(m)
            diff = st.difference(st.read(out), want)
            ctx.check(diff is None, "%s: %s" % (k.text, diff), table=str(df)[:1500])
            ctx.check(list(out.index) == list(df.index), "%s changed the time index" % k.text, got=list(map(str, out.index))[:30], want=list(map(str, df.index))[:30])
            ctx.ev("cells_compared", sum(v.size for v in want.values()))
            ctx.ev("stage_" + k.text.split("(")[0])
            ctx.check(st.same_image(st.image(df), image), "%s changed its input" % k.text)
            ctx.check(st.state(k.stage) == state, "%s changed by its use" % k.text)
            for j in range(min(6, out.shape[1])):
                out.iloc[:, j] = -777.0
            ctx.check(st.same_image(st.image(df), image), "changing the output of %s changes its input" % k.text)
        touched = sum(not (key in m and st.same_vec(v, m[key])) for key, v in want.items())
        ctx.seen(k.text.split("(")[0], df.columns.nlevels, len(cols), n, touched == 0, list(labels) == sorted(labels))
