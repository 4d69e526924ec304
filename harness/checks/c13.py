"""C13 analyzer queries: any order of steps and any selection, interleaved and after tampering, against a plain filter."""
import itertools

import numpy as np

import gen
import tables

ELEMENT = dict(consumption="consumption", production="production", storage="storage", link="link", to_converter="src_converter", from_converter="dest_converter")


def selection(rng, step, values, size):
    """A selection of a step: (argument or None for all, selected values, is it one single value)"""
    values = list(values)
    u = rng.random()
    if step in ("time", "scn") and u < 0.35:
        a, b = [None if rng.random() < 0.3 else int(rng.integers(-size, size + 2)) for _ in range(2)]
        c = None if rng.random() < 0.6 else int(rng.choice([1, 2, 3, -1]))
        s = slice(a, b, c)
        sel = list(range(size))[s]
        return s, sel, len(sel) == 1
    if u < 0.6 or not values:
        return None, values, False
    if u < 0.8:
        v = values[rng.integers(len(values))]
        return v, [v], True
    if u < 0.83:
        v = "no such thing" if step not in ("time", "scn") else size + 5
        return v, [], True
    k = int(rng.integers(1, len(values) + 1))
    sel = [values[i] for i in rng.choice(len(values), size=k, replace=False)]
    return list(sel), sel, k == 1


def expected(rows, net, order, sel, element):
    """{index tuple in order (network first): values} and number of leading levels dropped"""
    pos = dict(node=1, element=2, scn=3, time=4)
    keep = {s: set(map(str, sel[s][1])) if s in ("node", "element") else set(sel[s][1]) for s in order}
    out = {}
    for k, v in rows.items():
        if k[0] != net:
            continue
        if all((str(k[pos[s]]) if s in ("node", "element") else k[pos[s]]) in keep[s] for s in order):
            out[(k[0],) + tuple(k[pos[s]] for s in order)] = v
    drop = 1
    for s in order[:-1]:
        if sel[s][2]:
            drop += 1
        else:
            break
    return out, drop


def run(ctx, q, order, sel, element):
    for s in order:
        f = getattr(q, element if s == "element" else s)
        q = f() if sel[s][0] is None and ctx.rng.random() < 0.7 else f(sel[s][0])
    return q


def judge(ctx, df, rows, net, order, sel, element, spec):
    table = ELEMENT[element]
    labels, cols = tables.TABLES[table]
    want, drop = expected(rows, net, order, sel, element)
    names = dict(node="node", element=labels[2], scn="scn", time="t")
    what = "%s of %r by %s" % (element, net, [(s, sel[s][0]) for s in order])
    ctx.ev("queries_judged")
    ctx.check(hasattr(df, "columns"), "%s: not a table but %s" % (what, type(df).__name__))
    ctx.check(len(df) == len(want), "%s: %d rows instead of %d" % (what, len(df), len(want)), spec=lambda: gen.dump(spec), got=repr(df)[:500])
    if not want:
        ctx.ev("empty_answers")
        return
    levels = (["network"] + [names[s] for s in order])[drop:]
    ctx.check(list(df.index.names) == levels, "%s: indexed by %s instead of %s" % (what, list(df.index.names), levels), spec=lambda: gen.dump(spec))
    ctx.check(all(c in df.columns for c in cols), "%s: columns %s instead of %s" % (what, list(df.columns), cols))
    keys = [k if isinstance(k, tuple) else (k,) for k in df.index.tolist()]
    short = {k[drop:]: v for k, v in want.items()}
    ctx.check(len(short) == len(want) and len(set(keys)) == len(keys), "%s: rows are not told apart" % what)
    vals = list(zip(*[df[c].tolist() for c in cols]))
    for k, v in zip(keys, vals):
        ctx.ev("rows_observed")
        ctx.check(k in short, "%s: unexpected row %s" % (what, k), spec=lambda: gen.dump(spec))
        w = short[k]
        ctx.check(all(abs(a - b) <= 1e-9 * max(1.0, abs(b)) for a, b in zip(v, w)), "%s: row %s has %s instead of %s" % (what, k, v, w), spec=lambda: gen.dump(spec))
    ctx.seen(element, tuple(order), tuple(type(sel[s][0]).__name__ for s in order), drop)


def tamper(rng, df):
    """What a user may do with a returned table."""
    try:
        how = rng.integers(4)
        if how == 0:
            df.iloc[:, :] = -777.0
        elif how == 1:
            df.drop(df.index[: len(df) // 2 + 1], inplace=True)
        elif how == 2:
            for c in list(df.columns):
                df[c] *= -3
        else:
            df.sort_values(list(df.columns)[0], inplace=True)
            df.drop(columns=list(df.columns)[:1], inplace=True)
    except Exception:
        pass


def case(ctx):
    rng = ctx.rng
    H, N = None, None
    if ctx.index % 3 == 0:
        H, N = int(rng.integers(8, 30)), int(rng.integers(1, 13))
    spec = gen.spec(rng, H=H, N=N, max_nodes=4, min_conv=int(rng.integers(0, 3)), size=0.6 if H else None)
    ctx.note = gen.describe(spec)
    study, result, d, agg = tables.analysed(ctx, spec, real=ctx.index % 10 == 0)
    rows = {e: tables.rows(spec, d, t) for e, t in ELEMENT.items()}
    size = dict(time=spec["H"], scn=spec["N"])
    nets = list(spec["nets"])

    def draw():
        net = nets[rng.integers(len(nets))]
        element = list(ELEMENT)[rng.integers(len(ELEMENT))]
        if rng.random() < 0.6:  # rather an element which is there
            there = [e for e in ELEMENT if any(k[0] == net for k in rows[e])]
            element = there[rng.integers(len(there))] if there else element
        order = [["node", "element", "scn", "time"][i] for i in rng.permutation(4)]
        pos = dict(node=1, element=2)
        sel = {}
        for s in order:
            values = range(size[s]) if s in size else (list(spec["nets"][net]) if s == "node" else sorted({k[2] for k in rows[element] if k[0] == net}))
            sel[s] = selection(rng, s, values, size.get(s, 0))
        return net, element, order, sel

    for _ in range(8):
        net, element, order, sel = draw()
        if not any(len(rows[e]) for e in rows) or not len(rows[element]):
            # no element of this kind in the whole study: answer is empty
            df = run(ctx, agg.network(net), order, sel, element)
            judge(ctx, df, rows[element], net, order, sel, element, spec)
            continue
        cut = int(rng.integers(0, 4))
        # a prefix shared by several queries
        q = agg.network(net)
        for s in order[:cut]:
            f = getattr(q, element if s == "element" else s)
            arg = sel[s][0]
            q = f(list(arg)) if isinstance(arg, list) else f(arg)
        # a step can't be asked twice, nor two kinds of element
        for s in order[:cut]:
            again = list(ELEMENT)[rng.integers(len(ELEMENT))] if s == "element" else s
            try:
                getattr(q, again)()
            except Exception:
                ctx.ev("repeated_steps_refused")
            else:
                ctx.fail("query by %s accepts %s again" % (order[:cut], again))
        for _ in range(int(rng.integers(1, 4))):
            rest = order[cut:]
            rest = [rest[i] for i in rng.permutation(len(rest))]
            e2 = element
            sel2 = dict(sel)
            if "element" in rest:
                e2 = list(ELEMENT)[rng.integers(len(ELEMENT))] if rng.random() < 0.5 else element
                sel2["element"] = selection(rng, "element", sorted({k[2] for k in rows[e2] if k[0] == net}), 0)
            for s in rest:
                if s in size and rng.random() < 0.5:
                    sel2[s] = selection(rng, s, range(size[s]), size[s])
            order2 = order[:cut] + rest
            df = run(ctx, q, rest, sel2, e2)
            judge(ctx, df, rows[e2], net, order2, sel2, e2, spec)
            ctx.ev("queries_sharing_prefix", int(cut > 0))
            if rng.random() < 0.6 and len(df):
                tamper(rng, df)
                ctx.ev("answers_tampered")
                df = run(ctx, q, rest, sel2, e2)
                judge(ctx, df, rows[e2], net, order2, sel2, e2, spec)
    # the tables themselves did not move
    import checks.c12 as c12

    for table in tables.TABLES:
        c12.judge_table(ctx, spec, d, agg, table)
