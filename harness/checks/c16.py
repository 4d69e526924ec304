"""C16 link decisions, declared inputs/outputs and data checks against a small model of plugs; accepted pipelines are run."""
import numpy as np
import pandas as pd

import hadar as hd
from hadar.workflow.pipeline import Pipeline

import stages as st

POOL = ["quantity", "a", "b", "c", "A", "x y", "to_shuffler", "loss", "quantity2", "los", "ab", "to_shuffler_2"]
FREE = "free"


def join(state, k):
    """(ok, new state); state is FREE or (inputs, outputs)"""
    if k.ins is None:
        return True, state
    if state == FREE:
        return True, (list(k.ins), list(k.outs))
    if any(i not in state[1] for i in k.ins):
        return False, None
    return True, (state[0], list(k.outs) + [o for o in state[1] if o not in k.ins])


def draw(rng, state, label):
    """A stage, often but not always linkable after state"""
    known = POOL if state == FREE else sorted(set(state[1]))
    source = known if known and rng.random() < 0.8 else POOL
    some = lambda lo, hi, src: [src[i] for i in rng.choice(len(src), size=min(len(src), int(rng.integers(lo, hi))), replace=False)]
    k = rng.integers(9)
    if k == 0:
        return st.clip(0, None)
    if k == 1:
        return st.shift(1.0, label)
    if k == 2:
        return st.repeat(int(rng.integers(1, 3)))
    if k == 3:
        old = some(1, 3, source)
        new = some(len(old), len(old) + 1, POOL)
        return st.rename(**dict(zip(old, new)))
    if k == 4:
        return st.to_shuffler(some(1, 2, source)[0])
    if k == 5:
        return st.drop(some(1, 3, source))
    return st.mix(some(0, 4, source), some(0, 4, POOL), rng.random() < 0.5, label)


def columns_after(k, cols):
    """Columns of the data after a stage, None when two columns would have the same name"""
    if k.ins is None:
        return cols
    if k.text.startswith("Rename") or k.text.startswith("ToShuffler"):
        m = dict(zip(k.ins, k.outs))
        out = [m.get(c, c) for c in cols]
        return out if len(set(out)) == len(out) else None
    out = [c for c in cols if c not in k.ins]
    return out + [o for o in k.outs if o not in out]


def data(rng, cols):
    cols = [cols[i] for i in rng.permutation(len(cols))]
    return st.table(rng, cols, h=int(rng.integers(1, 6)))


def shown(x):
    return "%s[%s -> %s]" % st.plug(x)


def case(ctx):
    rng = ctx.rng
    for attempt in range(6):
        ks, state = [], FREE
        pipe = None
        refused = False
        how = int(rng.integers(3))  # 0: by addition, 1: from a list, 2: list then addition
        cut = int(rng.integers(1, 4))
        for n in range(int(rng.integers(2, 8))):
            k = draw(rng, state, "s%d" % n)
            ok, after = join(state, k)
            todo = ks + [k]
            texts = " + ".join(x.text for x in todo)
            ctx.note = dict(stages=texts)
            before = None if pipe is None else st.plug(pipe)
            try:
                if not ks:
                    new = Pipeline([k.stage])
                elif how == 1 or (how == 2 and n < cut):
                    new = Pipeline([x.stage for x in todo])
                elif len(ks) == 1:
                    new = ks[0].stage + k.stage
                else:
                    new = pipe + k.stage
                raised = None
            except ValueError as e:
                raised = e
            ctx.ev("links_judged")
            ctx.ev("links_accepted" if ok else "links_refused")
            ctx.check((raised is None) == ok, "%s is %s, expected %s, before it is %s" % (
                texts, "refused (%s)" % raised if raised is not None else "accepted", "accepted" if ok else "refused", state))
            if before is not None:
                ctx.check(st.plug(pipe) == before, "linking changed inputs or outputs of a pipeline", stages=texts)
            if not ok:
                ctx.seen("refused", how, len(ks), len(k.ins), len(state[1]))
                # and by the other way too
                for other in (lambda: Pipeline([x.stage for x in todo]), lambda: pipe + k.stage):
                    try:
                        other()
                        ctx.fail("%s accepted" % texts)
                    except ValueError:
                        ctx.ev("links_refused")
                continue
            ks, state, pipe = todo, after, new
            want = ([], []) if state == FREE else state
            got = st.plug(pipe)
            ctx.check(set(got[1]) == set(want[0]), "inputs of %s are %s instead of %s" % (texts, got[1], want[0]))
            ctx.check(set(got[2]) == set(want[1]), "outputs of %s are %s instead of %s" % (texts, got[2], want[1]))
            ctx.ev("plugs_compared")
            ctx.seen("plug", how, len(ks), len(want[0]), len(set(want[1])))
        # only stages can be linked
        before = st.plug(pipe)
        for other in (3, None, "Clip", lambda x: x, Pipeline([ks[-1].stage])):
            for what, target in (("pipeline", pipe), ("stage", ks[-1].stage)):
                if isinstance(other, Pipeline) and what == "stage":
                    continue
                try:
                    target + other
                    ctx.fail("%s links with %s" % (what, type(other).__name__))
                except ValueError:
                    ctx.ev("strangers_refused")
        ctx.check(st.plug(pipe) == before, "a refused link changed inputs or outputs of a pipeline", stages=texts)
        ins, outs = ([], []) if state == FREE else (sorted(set(state[0])), sorted(set(state[1])))
        texts = " + ".join(k.text for k in ks)
        ctx.note = dict(stages=texts)
        extra = [c for c in POOL + ["zz"] if c not in ins and rng.random() < 0.3]
        # data without one of the inputs
        for missing in ins:
            have = [c for c in ins if c != missing] + (extra or ["zz"])
            # names which look like the missing one are other names
            near = [c for c in (missing + "2", missing + " ", " " + missing, missing[:-1], missing[1:], missing.upper(), missing.title(), missing * 2)
                    if c and c != missing and c not in have]
            if near and rng.random() < 0.6:
                have += [near[i] for i in rng.choice(len(near), size=int(rng.integers(1, len(near) + 1)), replace=False)]
                have = list(dict.fromkeys(have))
                ctx.ev("lookalikes_given")
            df = data(rng, have)
            image = st.image(df)
            st.RUNS.clear()
            targets = [("pipeline", pipe)] + ([("stage", ks[0].stage)] if ks[0].ins and missing in ks[0].ins else [])
            for what, target in targets:
                try:
                    target(df)
                    ctx.fail("%s given data without %r is not refused" % (what, missing), stages=texts)
                except ValueError:
                    pass
                ctx.ev("data_refused")
                ctx.check(not st.RUNS, "stages %s ran on refused data" % st.RUNS, stages=texts, missing=missing)
                ctx.check(st.same_image(st.image(df), image), "refused data changed", stages=texts)
            sh = hd.Shuffler()
            try:
                sh.add_pipeline("x", df, pipe)
                ctx.fail("shuffler accepts data without %r" % missing, stages=texts)
            except ValueError:
                ctx.ev("data_refused")
        # data with all the inputs
        cols = ins + extra
        if not cols:
            cols = ["zz"]
        names = cols
        for k in ks:
            names = columns_after(k, names)
            if names is None or not names:
                break
        if names:
            df = data(rng, cols)
            out = pipe(df)
            ctx.ev("accepted_pipelines_run")
            have = set(out.columns.get_level_values(1))
            missing = [o for o in outs if o not in have]
            ctx.check(not missing, "declared outputs %s are not in the result %s" % (missing, sorted(map(str, have))), stages=texts)
            scn = list(out.columns.get_level_values(0).unique())
            for s in scn:
                lack = [o for o in outs if o not in set(out[s].columns)]
                ctx.check(not lack, "declared outputs %s are not in scenario %s" % (lack, s), stages=texts)
            ctx.ev("outputs_seen", len(outs) * len(scn))
        # connection to shuffler
        df = data(rng, cols)
        sh = hd.Shuffler()
        try:
            sh.add_pipeline("x", df, pipe)
            accepted = True
        except ValueError:
            accepted = False
        ctx.ev("shuffler_links_judged")
        ctx.check(accepted == ("to_shuffler" in outs), "shuffler %s a pipeline with outputs %s" % ("accepts" if accepted else "refuses", outs), stages=texts)
    st.RUNS.clear()
