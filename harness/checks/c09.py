"""C09 forms of a value: each (scenario, time step) reads the value given, and equivalent forms give the same optimal cost."""
import copy

import numpy as np
import pandas as pd

import content
import gen
import lab

TOL = 1e-6
DTYPES = ["float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", ">f8", ">i4"]


def alike(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (pd.Series, pd.DataFrame)):
        return a.equals(b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


def spoil(raw, x=101):
    """The program goes on with its own object after giving it. True if this object has changed."""
    if isinstance(raw, list):
        for i, row in enumerate(raw):
            if isinstance(row, list):
                row[:] = [x] * len(row)
            else:
                raw[i] = x
    elif isinstance(raw, np.ndarray) and raw.flags.writeable:
        raw[...] = x
    elif isinstance(raw, pd.DataFrame):
        raw.iloc[:, :] = x
    elif isinstance(raw, pd.Series):
        raw.iloc[:] = x
    else:
        return False
    return True


def forms(rng, arr, H, N):
    """Ways to give an array of some accepted shape: (label, raw)"""
    out = [("list", arr.tolist()), ("array", arr.copy()), ("fortran", np.asfortranarray(arr.copy()))]
    ro = arr.copy()
    ro.setflags(write=False)
    out.append(("read only", ro))
    out.append(("reversed view", arr[::-1].copy()[::-1]))
    if arr.ndim == 1:
        out += [("series", pd.Series(arr.copy())), ("dated series", pd.Series(arr.copy(), index=pd.date_range("2020", periods=arr.size)))]
        out += [("broadcast", np.broadcast_to(arr.copy(), arr.shape))]
        out += [("repeated index", pd.Series(arr.copy(), index=np.arange(arr.size) // 2, name="é"))]
        if arr.size > 1:
            out += [("shuffled index", pd.Series(arr.copy(), index=np.arange(arr.size)[::-1]))]
    else:
        out += [("frame", pd.DataFrame(arr.copy())), ("named frame", pd.DataFrame(arr.copy(), columns=["é%d" % i for i in range(arr.shape[1])], index=["s%d" % i for i in range(arr.shape[0])]))]
        out += [("repeated labels", pd.DataFrame(arr.copy(), columns=np.arange(arr.shape[1]) // 2, index=["s"] * arr.shape[0]))]
        out += [("transposed view", np.array(arr.T, order="C").T), ("list of lists", [list(r) for r in arr])]
    for d in DTYPES:
        cast = arr.astype(d)
        if np.array_equal(cast.astype(float), arr):
            out.append((d, cast))
            if arr.ndim == 1:
                out.append(("series " + d, pd.Series(cast.copy().astype(np.dtype(d).newbyteorder("=")))))
            elif not d.startswith(">"):
                out.append(("frame " + d, pd.DataFrame(cast.copy())))
    if np.array_equal(arr, np.round(arr)) and np.abs(arr).max() < 2 ** 53:
        out.append(("python ints", [int(x) for x in arr] if arr.ndim == 1 else [[int(x) for x in r] for r in arr]))
    return out


SLOTS = ["cons.quantity", "cons.cost", "prod.quantity", "prod.cost", "stor.capacity", "stor.flow_in", "stor.flow_out", "stor.cost", "stor.eff",
         "link.quantity", "link.cost", "conv.ratio", "conv.max", "conv.cost"]


def put(study, slot, raw, net="net"):
    """Build a small study with a value in some place, and give it back as the study holds it."""
    kind, field = slot.split(".")
    n = study.network(net).node("a")
    if kind == "cons":
        n.consumption("e", **{"cost": 1, "quantity": 1, field: raw})
        return study.networks[net].nodes["a"].consumptions[0].__dict__[field]
    if kind == "prod":
        n.production("e", **{"cost": 1, "quantity": 1, field: raw})
        return study.networks[net].nodes["a"].productions[0].__dict__[field]
    if kind == "stor":
        n.storage("e", **{"capacity": 1, "flow_in": 1, "flow_out": 1, "cost": 1, "eff": 1, field: raw})
        return study.networks[net].nodes["a"].storages[0].__dict__[field]
    if kind == "link":
        study.network(net).node("b")
        study.network(net).link(src="a", dest="b", **{"cost": 1, "quantity": 1, field: raw})
        return study.networks[net].nodes["a"].links[0].__dict__[field]
    n.to_converter("v" + net, ratio=raw if field == "ratio" else 1)
    study.network(net).node("b").converter("v" + net, to_network=net, to_node="b", **{"cost": 1, "max": 1, **({field: raw} if field != "ratio" else {})})
    c = study.converters["v" + net]
    return c.src_ratios[(net, "a")] if field == "ratio" else c.__dict__[field]


def case(ctx):
    import hadar as hd

    rng = ctx.rng
    if ctx.index % 3 != 2:
        # one value, all its forms
        H, N = int(rng.choice([1, 2, 3, 5, 24, 50])), int(rng.choice([1, 2, 3, 5, 20]))
        shape = [(), (H,), (N, 1), (N, H)][rng.integers(4)]
        slot = SLOTS[rng.integers(len(SLOTS))]
        style = rng.integers(5)
        if slot == "stor.eff":
            x = rng.random(shape) if style < 3 else (rng.random(shape) < 0.5).astype(float)
        elif style == 0:
            x = np.round(rng.uniform(0, 120, shape))
        elif style == 1:
            x = rng.uniform(0, 1, shape)
        elif style == 2:
            x = np.round(rng.uniform(0, 9, shape)) * 10.0 ** rng.integers(-12, 15)
        elif style == 3:
            x = np.round(rng.uniform(0, 3e9, shape))
        else:
            x = np.round(rng.uniform(0, 1000, shape)) / 8
        x = np.asarray(x, dtype=float)
        if slot.endswith("cost") and rng.random() < 0.4:
            x = -x
        if slot == "conv.ratio":
            x = x + 0.25
        full = np.broadcast_to(x, (N, H))
        if shape == ():
            ways = [("float", float(x))] + ([("int", int(x))] if float(x).is_integer() else [])
            ways += [("row", np.full(H, float(x))), ("col", [[float(x)]] * N), ("mat", np.full((N, H), float(x)))]
        else:
            ways = forms(rng, x, H, N)
            ways += [("full", full.copy()), ("full list", full.tolist())]
        ctx.note = dict(H=H, N=N, slot=slot, shape=list(shape), ways=[w[0] for w in ways])
        for label, raw in ways:
            study = hd.Study(horizon=H, nb_scn=N)
            given = copy.deepcopy(raw)
            v = put(study, slot, raw)
            ctx.check(alike(raw, given), "%s given as %s of shape %s was modified" % (slot, label, shape), got=raw, want=given)
            other = 1 if slot == "stor.eff" else 101
            if spoil(raw, other):
                # the same object with other values, for another element
                w = content.read(put(study, slot, raw, "next"), N, H)
                ctx.check(bool((w == other).all()), "%s given as %s of shape %s, an object given before with other values, reads other values" % (slot, label, shape), got=w, want=other)
                ctx.ev("objects_given_again")
            ctx.ev("given_objects_changed_later")
            got = content.read(v, N, H)
            ctx.ev("values_read", got.size)
            ctx.ev("forms_given")
            ctx.check(np.array_equal(got, full), "%s given as %s of shape %s reads other values" % (slot, label, shape), got=got, want=full)
            for at in ((N, 0), (0, H), (N + 2, 0), (0, H + 5), (N, H)):
                try:
                    v[at]
                    ctx.fail("%s given as %s of shape %s is read at %s, with %d scenarios and %d time steps" % (slot, label, shape, at, N, H))
                except IndexError:
                    ctx.ev("reads_out_of_range_refused")
            flat = np.asarray(v.flatten(), dtype=float)
            ctx.check(np.array_equal(flat, full.flatten()), "%s given as %s of shape %s flattens to other values" % (slot, label, shape), got=flat, want=full)
            ctx.seen(slot, label, shape == (), len(shape), H == 1, N == 1, H == N)
            # as read back after serialisation too
            twin = hd.Study.from_json(study.to_json())
            ctx.check(twin == study, "%s given as %s of shape %s: study differs from its copy" % (slot, label, shape))
        bad = np.zeros([(H + 1,), (N, H + 1), (N + 1, 1), (N + 2, H), (N, H, 1)][rng.integers(5)])
        if bad.shape not in ((H,), (N, 1), (N, H)):
            try:
                put(hd.Study(horizon=H, nb_scn=N), slot, bad)
                ctx.fail("array of shape %s accepted for %d scenarios and horizon %d" % (bad.shape, N, H))
            except ValueError:
                ctx.ev("shapes_refused")
    else:
        spec = gen.spec(rng, max_nodes=3, size=0.4)
        N, H = spec["N"], spec["H"]
        ctx.note = gen.describe(spec)

        def other(v):
            f = v.full
            ways = [("mat", f)]
            if np.ptp(f) == 0:
                ways += [("scalar", f[0, 0]), ("row", f[0]), ("col", f[:, :1])]
            elif (f == f[0]).all():
                ways.append(("row", f[0]))
            elif (f == f[:, :1]).all():
                ways.append(("col", f[:, :1]))
            form, arr = ways[rng.integers(len(ways))]
            arr = np.array(arr)
            if form == "scalar":
                return gen.V(float(arr), f, "scalar")
            all_ = forms(rng, arr, H, N)
            label, raw = all_[rng.integers(len(all_))]
            return gen.V(raw, f, form + "/" + label)

        _, _, a = lab.solved(ctx, spec)
        twin = gen.map_values(spec, other)
        for kind, _, _, e in gen.walk(twin):
            if kind == "stor":
                x = e["init_capacity"]
                same = [t(x) for t in (float, np.float64, np.float32, np.int64, np.int32, np.uint8, int) if float(t(x)) == float(x)]
                e["init_capacity"] = same[rng.integers(len(same))]
                ctx.ev("level_as_" + type(e["init_capacity"]).__name__)
        s2, _, b = lab.solved(ctx, twin)
        content.compare(ctx, s2, twin, "equivalent forms")
        ta, mag = a.cost()
        tb, _ = b.cost()
        r = lab.ratio(ta - tb, np.maximum(mag, np.abs(ta)), TOL)
        ctx.top("difference_over_tolerance", r)
        ctx.ev("optimal_costs_compared", N)
        ctx.check(r <= 1, "equivalent forms of values give costs %s and %s" % (ta.tolist(), tb.tolist()), spec=lambda: gen.dump(spec), twin=gen.dump(twin))
        ctx.seen(gen.shape_of(spec))
