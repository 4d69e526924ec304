"""C12 analyzer tables: one row per element, scenario and time step, with labels and values of that very element."""
import numpy as np

import content
import gen
import tables


def judge_table(ctx, spec, d, agg, table):
    labels, cols = tables.TABLES[table]
    want = tables.rows(spec, d, table)
    df = getattr(agg, table)
    missing = [c for c in labels + cols + ("scn", "t") if c not in df.columns]
    ctx.check(not missing, "table %s has no column %s" % (table, missing))
    ctx.check(len(df) == len(want), "table %s has %d rows instead of %d" % (table, len(df), len(want)), spec=lambda: gen.dump(spec))
    keys = list(zip(*[df[c].tolist() for c in labels + ("scn", "t")])) if len(df) else []
    vals = list(zip(*[df[c].tolist() for c in cols])) if len(df) else []
    seen = set()
    for k, v in zip(keys, vals):
        k = k[:3] + (float(k[3]), float(k[4]))
        ctx.ev("rows_observed")
        ctx.check(k in want, "table %s has an unknown row %s" % (table, k), spec=lambda: gen.dump(spec))
        ctx.check(k not in seen, "table %s has twice the row %s" % (table, k), spec=lambda: gen.dump(spec))
        seen.add(k)
        ok = all(abs(a - b) <= 1e-9 * max(1.0, abs(b)) for a, b in zip(v, want[k]))
        ctx.check(ok, "row %s of table %s has values %s instead of %s" % (k, table, dict(zip(cols, v)), dict(zip(cols, want[k]))), spec=lambda: gen.dump(spec))
    ctx.check(len(seen) == len(want), "table %s misses %d rows" % (table, len(want) - len(seen)), spec=lambda: gen.dump(spec))
    ctx.ev("tables_%s" % table)
    ctx.ev("empty_tables", int(not want))
    n = len({k[:3] for k in want})
    ctx.seen(table, n, spec["H"], spec["N"])


def case(ctx):
    rng = ctx.rng
    spec = gen.spec(rng, min_conv=int(rng.integers(0, 4)), min_stor=int(rng.integers(0, 3)), drained=0.2 if ctx.index % 7 else 0)
    if ctx.index % 7 == 0:  # studies without some kind of element
        drop = ["cons", "prod", "stor", "link", "conv"][rng.integers(5)]
        if drop == "conv":
            spec["convs"] = {}
        for nodes in spec["nets"].values():
            for el in nodes.values():
                if drop in el:
                    el[drop] = []
    ctx.note = gen.describe(spec)
    study, result, d, agg = tables.analysed(ctx, spec, real=ctx.index % 5 == 0)
    before = content.snapshot(study)
    for table in tables.TABLES:
        judge_table(ctx, spec, d, agg, table)
    ctx.check(content.snapshot(study) == before, "analysing changed the study")
