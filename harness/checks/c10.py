"""C10 JSON round trips of studies and results, purity of (de)serialisation, and equality decided both ways."""
import copy
import json

import numpy as np

import content
import gen
import lab
import model

TOL = 1e-6


def distinct(ctx, a, b, why):
    ctx.ev("differences_judged")
    ctx.check(not (a == b) and not (b == a) and a != b, "objects which differ by %s are equal" % why)
    ctx.seen("diff", why)


def equal(ctx, a, b, why):
    ctx.ev("equalities_judged")
    ctx.check((a == b) is True or bool(a == b), "%s: objects are not equal" % why)
    ctx.check(bool(b == a) and not (a != b), "%s: equality is not symmetric" % why)


def matrices(spec):
    return gen.map_values(spec, lambda v: gen.V(v.full.copy(), v.full, "mat"))


def clone(spec):
    out = gen.map_values(spec, lambda v: gen.V(v.full.copy(), v.full.copy(), "mat"))
    return out


def mutate(rng, spec):
    """One difference: (reason, spec). Returns None if it does not apply."""
    s = clone(spec)
    kinds = list(gen.walk(s))
    how = int(rng.integers(8))
    if how <= 2 and kinds:
        kind, net, node, e = kinds[rng.integers(len(kinds))]
        fields = [k for k, v in e.items() if isinstance(v, gen.V)]
        if kind == "conv" and e["srcs"] and rng.random() < 0.5:
            k = list(e["srcs"])[rng.integers(len(e["srcs"]))]
            v, label = e["srcs"][k], "conv ratio"
        else:
            f = fields[rng.integers(len(fields))]
            v, label = e[f], "%s %s" % (kind, f)
        i, j = rng.integers(s["N"]), rng.integers(s["H"])
        x = v.full[i, j]
        new = x + float(rng.choice([1.0, 0.5, 1e-6])) if not label.endswith("eff") else (x / 2 if x > 0 else 0.5)
        v.full[i, j] = new
        v.raw[i, j] = new
        return "value of %s" % label, s
    if how == 3 and kinds:
        kind, net, node, e = kinds[rng.integers(len(kinds))]
        if kind in ("cons", "prod", "stor"):
            e["name"] = e["name"] + "_"
            return "name of %s" % kind, s
        if kind == "conv":
            s["convs"] = {(k + "_" if k == node else k): v for k, v in s["convs"].items()}
            return "name of conv", s
    if how == 4:
        net = list(s["nets"])[rng.integers(len(s["nets"]))]
        node = list(s["nets"][net])[rng.integers(len(s["nets"][net]))]
        el = s["nets"][net][node]
        full = [k for k in el if el[k]]
        if full and rng.random() < 0.5:
            k = full[rng.integers(len(full))]
            del el[k][rng.integers(len(el[k]))]
            return "missing %s" % k, s
        s["nets"][net]["one more node"] = dict(cons=[], prod=[], stor=[], link=[])
        return "one more node", s
    if how == 5:
        s["nets"]["one more network"] = {}
        return "one more network", s
    if how == 6:
        stors = [e for k, _, _, e in kinds if k == "stor"]
        if stors:
            e = stors[rng.integers(len(stors))]
            e["init_capacity"] = e["init_capacity"] + 1
            return "initial level", s
    if how == 7 and s["convs"]:
        name = list(s["convs"])[rng.integers(len(s["convs"]))]
        flat = [(n, d) for n in s["nets"] for d in s["nets"][n] if (n, d) != tuple(s["convs"][name]["dest"])]
        if flat:
            s["convs"][name]["dest"] = flat[rng.integers(len(flat))]
            return "converter destination", s
    return None


def case(ctx):
    import hadar as hd
    from hadar.optimizer.domain.output import Result

    rng = ctx.rng
    spec = gen.spec(rng, max_nodes=4, size=0.6, min_conv=int(rng.integers(0, 2)))
    for kind, _, _, e in gen.walk(spec):  # numbers as numpy gives them
        if kind == "stor" and rng.random() < 0.3:
            x = e["init_capacity"]
            same = [t(x) for t in (np.float64, np.float32, np.int64, np.int32, np.uint16) if float(t(x)) == float(x)]
            e["init_capacity"] = same[rng.integers(len(same))]
            ctx.ev("numpy_levels")
    ctx.note = gen.describe(spec)
    study = gen.build(spec)
    ctx.check(study.version == hd.__version__, "a new study has version %r" % (study.version,))
    if rng.random() < 0.3:
        study.version = "0.4.%d" % rng.integers(9)
    before = content.snapshot(study)
    j = study.to_json()
    text = json.dumps(j)
    ctx.check(text == before and json.dumps(study.to_json()) == before, "serialising twice gives different texts")
    data = json.loads(text)
    s2 = hd.Study.from_json(data)
    ctx.check(json.dumps(data) == text, "reading a study modified the JSON data")
    s3 = hd.Study.from_json(data)
    for s, why in ((s2, "study read back"), (s3, "study read back again")):
        equal(ctx, study, s, why)
        content.compare(ctx, s, spec, why)
        ctx.check(s.version == study.version, "%s: version is lost" % why)
        ctx.check(content.snapshot(s) == text, "%s: it serialises differently" % why)
    s4 = hd.Study.from_json(study.to_json())  # without text in between
    equal(ctx, study, s4, "study read from its dictionary")
    ctx.check(content.snapshot(study) == before, "reading a study modified the original")
    ctx.check(study != None and not (study == "x") and not (study == 3), "study equals something else")  # noqa: E711
    ctx.ev("studies_round_tripped")
    ctx.ev("sources_with_separator_in_name", sum(":" in n + d for c in spec["convs"].values() for n, d in c["srcs"]))
    ctx.seen("study", gen.shape_of(spec))

    # same content built apart, and content with one difference
    base = matrices(spec)
    a = gen.build(base)
    equal(ctx, a, gen.build(clone(spec)), "same content built twice")
    for _ in range(6):
        m = mutate(rng, spec)
        if m:
            b = gen.build(m[1])
            distinct(ctx, a, b, m[0])
            b2 = hd.Study.from_json(json.loads(json.dumps(b.to_json())))
            distinct(ctx, a, b2, m[0])
    if rng.random() < 0.3:
        distinct(ctx, hd.Study(horizon=3, nb_scn=2), hd.Study(horizon=2, nb_scn=2), "horizon")
        distinct(ctx, hd.Study(horizon=3, nb_scn=2), hd.Study(horizon=3, nb_scn=3), "scenarios")
        distinct(ctx, hd.Study(horizon=3, version="1"), hd.Study(horizon=3, version="2"), "version")

    # not finished yet: converters without destination
    half = hd.Study(horizon=spec["H"], nb_scn=spec["N"])
    order = [op for op in gen.ops(spec) if op[0] != "dest" or rng.random() < 0.5]
    for op in order[:int(rng.integers(1, len(order) + 1))] if rng.random() < 0.3 else order:
        gen.apply(half, spec, op)
    text = content.snapshot(half)
    again = hd.Study.from_json(json.loads(json.dumps(half.to_json())))
    equal(ctx, half, again, "unfinished study read back")
    ctx.check(content.snapshot(again) == text and content.snapshot(half) == text, "unfinished study read back serialises differently")
    missing = [n for n in half.converters if n in spec["convs"] and ("dest", n) not in order]
    if missing:
        ctx.ev("converters_finished_after_reading", len(missing))
        for n in missing:
            net, node = spec["convs"][n]["dest"]
            for s in (half, again):
                s.network(net).node(node)
                gen.apply(s, spec, ("dest", n))
        equal(ctx, half, again, "study finished after reading")

    # results
    r = lab.solve(ctx, study)
    rtext = json.dumps(r.to_json())
    ctx.check(json.dumps(r.to_json()) == rtext, "serialising a result twice gives different texts")
    data = json.loads(rtext)
    r2 = Result.from_json(data)
    ctx.check(json.dumps(data) == rtext, "reading a result modified the JSON data")
    r3 = Result.from_json(data)
    d = model.Dispatch(spec, r)
    for x, why in ((r2, "result read back"), (r3, "result read back again"), (Result.from_json(r.to_json()), "result read from its dictionary")):
        equal(ctx, r, x, why)
        ctx.check(json.dumps(x.to_json()) == rtext, "%s: it serialises differently" % why)
        dx = model.Dispatch(spec, x)
        for k in d.s:
            ctx.check(np.array_equal(d.s[k], dx.s[k]), "%s: series %s differs" % (why, k))
        ctx.check(list(x.benchmark.modeler) == list(r.benchmark.modeler) and list(x.benchmark.solver) == list(r.benchmark.solver)
                  and x.benchmark.mapper == r.benchmark.mapper and x.benchmark.total == r.benchmark.total, "%s: benchmark is lost" % why)
    ctx.ev("results_round_tripped")
    # one difference in a result
    if d.s:
        for _ in range(3):
            x = Result.from_json(json.loads(rtext))
            k = list(d.s)[rng.integers(len(d.s))]
            arr = series_of(x, k)
            i, t = rng.integers(spec["N"]), rng.integers(spec["H"])
            arr[i, t] += float(rng.choice([1.0, -0.5, 1e-6]))
            distinct(ctx, r, x, "result series %s" % k[0])
        x = Result.from_json(json.loads(rtext))
        x.benchmark.total += 1
        distinct(ctx, r, x, "benchmark")
        x = Result.from_json(json.loads(rtext))
        net = list(x.networks)[rng.integers(len(x.networks))]
        if x.networks[net].nodes:
            node = list(x.networks[net].nodes)[rng.integers(len(x.networks[net].nodes))]
            del x.networks[net].nodes[node]
            distinct(ctx, r, x, "missing node in result")

    # same outcome
    rs = lab.solve(ctx, s2)
    ta, mag = d.cost()
    tb, _ = model.Dispatch(spec, rs).cost()
    q = lab.ratio(ta - tb, np.maximum(mag, np.abs(ta)), TOL)
    ctx.top("difference_over_tolerance", q)
    ctx.check(q <= 1, "study read back costs %s instead of %s" % (tb.tolist(), ta.tolist()), spec=lambda: gen.dump(spec))
    one, two = hd.ResultAnalyzer(study, r), hd.ResultAnalyzer(s2, r2)
    for table in ("consumption", "production", "storage", "link", "src_converter", "dest_converter"):
        ctx.check(getattr(one, table).equals(getattr(two, table)), "table %s differs after round trip" % table)
    ctx.check(np.array_equal(one.get_cost(), two.get_cost()), "analysed cost differs after round trip")
    ctx.check(content.snapshot(study) == before and content.snapshot(s2) == before, "a study changed meanwhile")
    ctx.ev("outcomes_compared")


def series_of(result, k):
    if k[0] == "dest":
        return result.converters[k[1]].flow_dest
    if k[0] == "src":
        return result.converters[k[1]].flow_src[k[2]]
    node = result.networks[k[1]].nodes[k[2]]
    if k[0] == "link":
        return model.one(node.links, k[3], "dest").quantity
    if k[0] in ("cap", "fin", "fout"):
        return getattr(model.one(node.storages, k[3]), dict(cap="capacity", fin="flow_in", fout="flow_out")[k[0]])
    return model.one(node.consumptions if k[0] == "cons" else node.productions, k[3]).quantity
