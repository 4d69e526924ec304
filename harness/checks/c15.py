"""C15 pipelines against the composition of the meanings of their stages; images of everything shared before and after."""
import numpy as np

import hadar as hd
from hadar.workflow.pipeline import Pipeline

import stages as st


def case(ctx):
    rng = ctx.rng
    cols = [st.COLUMNS[i] for i in rng.choice(len(st.COLUMNS), size=int(rng.integers(1, 5)), replace=False)]
    if "quantity" not in cols and rng.random() < 0.5:
        cols[0] = "quantity"
    # tables with the same columns, other sizes
    dfs = [st.table(rng, cols) for _ in range(int(rng.integers(1, 4)))]
    images = [st.image(d) for d in dfs]
    # pipelines grow by adding stages to what already exists
    known = []  # every stage ever made: (Known, state)
    pipes = []  # (pipeline, [Known..], columns after, plug at birth)
    history = []
    answers = []  # those the program keeps, with their image

    def fresh(columns):
        if "quantity" in columns and rng.random() < 0.12:
            f = hd.Fault(loss=2.0, occur_freq=0.5, downtime_min=1, downtime_max=3, seed=int(rng.integers(0, 3)))
            k = st.Known(f, None, ["quantity"], ["quantity"], "Fault")
        else:
            k = st.draw(rng, columns, "s%d" % len(known))
        known.append((k, st.state(k.stage)))
        return k

    def after(k, columns):
        if k.ins is None:
            return list(columns)
        if k.text.startswith("Rename") or k.text.startswith("ToShuffler"):
            m = dict(zip(k.ins, k.outs))
            return [m.get(c, c) for c in columns]
        return [c for c in columns if c not in k.ins] + [c for c in k.outs if c not in columns or c in k.ins]

    def promised(ks):
        """columns a following stage may ask: those of the model of the declared plugs"""
        out = None
        for k in ks:
            if k.ins is None:
                continue
            out = list(k.outs) if out is None else list(k.outs) + [o for o in out if o not in k.ins]
        return out

    def link(pipe, ks, columns):
        prom = promised(ks)
        usable = [c for c in columns if prom is None or c in prom]
        olds = [k for k, _ in known if k.ins is None or all(i in usable for i in k.ins)]
        olds = [k for k in olds if not (k.outs and any(o in columns and o not in k.ins for o in k.outs))]
        k = olds[rng.integers(len(olds))] if olds and rng.random() < 0.4 else fresh(usable)
        if k.ins is not None and (any(i not in usable for i in k.ins) or any(o in columns and o not in k.ins for o in k.outs)):
            return None
        if not after(k, columns):
            return None  # a table without any column has no scenario
        return k

    def grow():
        u = rng.random()
        if pipes and u < 0.6:  # extend a pipeline, the shorter remains usable
            p, ks, columns, _ = pipes[rng.integers(len(pipes))]
            k = link(p, ks, columns)
            if k is None:
                return
            q = p + k.stage
            ks2 = ks + [k]
        else:
            ks2, columns = [], list(cols)
            for _ in range(int(rng.integers(1, 6))):
                k = link(None, ks2, columns)
                if k is None:
                    break
                ks2.append(k)
                columns = after(k, columns)
            if not ks2:
                return
            if len(ks2) == 1 or rng.random() < 0.5:
                mine = [k.stage for k in ks2]
                q = Pipeline(mine)
                ctx.check([id(x) for x in mine] == [id(k.stage) for k in ks2], "the list of stages given by the user changed", history=history)
            else:
                q = ks2[0].stage + ks2[1].stage
                for k in ks2[2:]:
                    q = q + k.stage
        columns = list(cols)
        for k in ks2:
            columns = after(k, columns)
        history.append("link " + " + ".join(k.text for k in ks2))
        ctx.check(isinstance(q, Pipeline), "linking gives %s" % type(q).__name__, history=history)
        ctx.check(all(q is not p[0] for p in pipes), "adding a stage gave an existing pipeline", history=history)
        pipes.append((q, ks2, columns, st.plug(q)))
        ctx.ev("pipelines_linked")

    def run():
        if not pipes:
            return
        p, ks, _, _ = pipes[rng.integers(len(pipes))]
        i = int(rng.integers(len(dfs)))
        history.append("run %s on table %d" % (" + ".join(k.text for k in ks), i))
        got = p(dfs[i])
        ctx.ev("runs")
        # one by one
        one = dfs[i]
        for k in ks:
            one = k.stage(one)
        diff = st.difference(st.read(got), st.read(one) or {})
        ctx.check(diff is None, "pipeline differs from its stages applied one by one: %s" % diff, history=history)
        ctx.check(list(got.index) == list(one.index) == list(dfs[i].index), "time index changed", history=history)
        # meaning
        if all(k.expect is not None for k in ks):
            m = st.meaning(dfs[i])
            for k in ks:
                m = k.expect(m)
            diff = st.difference(st.read(got), m, 1e-12)
            ctx.ev("tables_predicted")
            ctx.ev("values_compared", sum(v.size for v in m.values()))
            ctx.check(diff is None, "pipeline gives a wrong table: %s" % diff, history=history, table=str(dfs[i])[:1500])
            ctx.seen(tuple(k.text.split("(")[0] for k in ks), dfs[i].columns.nlevels, len(m))
        # an answer belongs to the user: no other answer depends on it
        for old, im in answers:
            ctx.check(st.same_image(st.image(old), im), "an answer given before has changed", history=history)
        if rng.random() < 0.4:
            again = p(dfs[i])
            answers.append((again, st.image(again)))
            ctx.ev("answers_kept")
        if rng.random() < 0.5:
            for j in range(got.shape[1]):
                got.iloc[:, j] = -12345.0
            ctx.ev("answers_tampered")
            for old, im in answers:
                ctx.check(st.same_image(st.image(old), im), "an answer changes with another one", history=history)
        elif rng.random() < 0.5:
            answers.append((got, st.image(got)))
            ctx.ev("answers_kept")

    def quiet():
        for d, im in zip(dfs, images):
            ctx.check(st.same_image(st.image(d), im), "data given by the user changed", history=history)
        for k, s in known:
            now = st.state(k.stage)
            ctx.check(now == s, "stage %s changed from %s to %s" % (k.text, s, now), history=history)
        for p, ks, _, pl in pipes:
            ctx.check(st.plug(p) == pl, "inputs or outputs of an existing pipeline changed from %s to %s" % (pl, st.plug(p)), history=history)
        ctx.ev("images_compared", len(dfs) + len(known) + len(pipes))

    for _ in range(int(rng.integers(8, 20))):
        (grow if not pipes or rng.random() < 0.45 else run)()
        quiet()
    # data without scenario level = scenario 0
    flat = st.table(rng, cols, flat=True)
    lifted = flat.copy()
    import pandas as pd

    lifted.columns = pd.MultiIndex.from_tuples([(0, c) for c in flat.columns])
    p, ks, _, _ = pipes[rng.integers(len(pipes))] if pipes else (None, [], None, None)
    if p is not None:
        diff = st.difference(st.read(p(flat)), st.read(p(lifted)) or {})
        ctx.ev("flat_tables")
        ctx.check(diff is None, "data without scenario differs from scenario 0: %s" % diff, history=history)
    st.RUNS.clear()
    ctx.note = dict(history=history)
