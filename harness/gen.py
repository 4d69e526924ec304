"""
Workload generator. A study is described by a plain *spec*, independent from hadar classes; hadar only
ever receives it through its public building interface, and the oracles only ever read the spec.

spec = dict(H, N, nets={network: {node: dict(cons=[..], prod=[..], stor=[..], link=[..])}}, convs={name: ..})
"""
import numpy as np
import pandas as pd

NODES = ["", "a", "b", "c", "A", "ab", "a b", "é", "日本", "0", "1", "n-1", "%s", "%d%%", "a:b", "default", "None", "in",
         "node.1", "'q'", '"', "\\", "t", "scn", "name", "used", "x" * 40, "a,b", "{0}", "-", "nan", "a/b", "b ", "B", "a::b", ":x", "%3A", "::",
         "x" * 40 + "y", "z" * 70, " a", "a\nb", "e\u0301", "1.0", "-1", "True", "<b>", "a|b", "a;b", "inf", "A B"]
NETS = ["", "default", "elec", "gas", "h2", "elec ", "Elec", "e", "réseau", "a", "0", "net:1", "None", "g a s", "e:", "a::", "%25", "elec" * 20, "elec" * 20 + "2", "True", "1.0"]
NAMES = ["", "load", "nuclear", "in", "p", "P", "pv", "a", "b", "x y", "é", "0", "1", "%s", "load1", "load2", "stor", "cell",
         "t", "name", "cost", "None", "l" * 30, "c:d", "import", "export", "quantity", "nan",
         "l" * 31, "w" * 80, " p", "p\tq", "1.0", "-1", "True", "<i>", "LOAD"]
SEPARATORS = ["", "", " ", "-", "_", ".", ":", "::", "/", ",", "|", "->", "\t"]
CONVS = ["", "conv", "conv2", "c", "gas to elec", "é", "a", "%d", "conv3", "x:y", "x::y", "0", "load", "import", "conv" * 20, "conv" * 20 + "x", " c"]


class V:
    """A value: what is given to hadar (raw) and what it means (full, shape (nb_scn, horizon))."""

    __slots__ = ("raw", "full", "form")

    def __init__(self, raw, full, form):
        self.raw, self.full, self.form = raw, np.asarray(full, dtype=float), form

    def __repr__(self):
        return "%s%s" % (self.form, np.array2string(self.full, threshold=30, precision=6))


def container(rng, arr, integral):
    """Wrap an array of shape (h,), (n, 1) or (n, h) into some accepted container."""
    kinds = ["list", "array", "array", "pandas", "fortran", "strided", "float32"]
    if integral:
        kinds += ["int64", "int32", "ints"]
        if arr.size and arr.min() >= 0 and arr.max() < 250:
            kinds += ["uint8"]
    kind = kinds[rng.integers(len(kinds))]
    if kind == "list":
        raw = arr.tolist()
    elif kind == "ints":
        raw = [int(x) for x in arr] if arr.ndim == 1 else [[int(x) for x in r] for r in arr]
    elif kind == "array":
        raw = arr.copy()
    elif kind == "pandas":
        if arr.ndim == 1:
            raw = pd.Series(arr.copy(), index=np.arange(arr.size) * 3 + 7)
        else:
            raw = pd.DataFrame(arr.copy(), columns=["c%d" % i for i in range(arr.shape[1])])
    elif kind == "fortran":
        raw = np.asfortranarray(arr)
    elif kind == "strided":
        big = np.full(tuple(2 * s for s in arr.shape), -1.0)
        big[tuple(slice(None, None, 2) for _ in arr.shape)] = arr
        raw = big[tuple(slice(None, None, 2) for _ in arr.shape)]
    elif kind == "float32":
        raw = arr.astype(np.float32)
    else:
        raw = arr.astype(kind)
    return kind, raw


def wrap(rng, base, form, H, N, integral):
    """Give a value with its form. base has shape (), (H,), (N, 1) or (N, H)."""
    if form == "scalar":
        x = float(base)
        raw = int(x) if integral and rng.random() < 0.5 else x
        return V(raw, np.full((N, H), x), "scalar")
    kind, raw = container(rng, base, integral)
    seen = np.array(raw, dtype=float) if not isinstance(raw, np.ndarray) else raw.astype(float)
    return V(raw, np.broadcast_to(seen, (N, H)).copy(), form + "/" + kind)


FORMS = ["scalar", "row", "col", "mat"]


def value(rng, H, N, lo, hi, style, form=None, zero=0.1):
    """Draw a value in [lo, hi]. style: 'int', 'dec' (one decimal) or 'real'."""
    form = form or FORMS[rng.choice(4, p=[0.3, 0.2, 0.15, 0.35])]
    shape = {"scalar": (), "row": (H,), "col": (N, 1), "mat": (N, H)}[form]
    x = rng.uniform(lo, hi, size=shape)
    if style == "int":
        x = np.round(x)
    elif style == "dec":
        x = np.round(x, 1)
    if lo <= 0 <= hi and rng.random() < 0.5:
        x = np.where(rng.random(size=shape) < zero, 0.0, x)
    x = np.clip(x, lo, hi) + 0.0
    if form != "scalar":
        x = np.asarray(x, dtype=float)
    return wrap(rng, x, form, H, N, style == "int" and float(lo).is_integer() and float(hi).is_integer())


def pick(rng, pool, k):
    return [pool[i] for i in rng.choice(len(pool), size=min(k, len(pool)), replace=False)]


def dims(rng, big=0.06):
    """horizon and number of scenarios"""
    u = rng.random()
    if u < big / 30:  # beyond 256 of them
        h = int(rng.integers(257, 420)) if rng.random() < 0.9 else int(rng.integers(1000, 1300))
        return (h, 1) if rng.random() < 0.6 else (1, int(rng.integers(257, 300)))
    if u < big / 6:  # beyond a day, a week, 64 or 100 scenarios
        return int(rng.integers(90, 240)), int(rng.integers(1, 3))
    if u < big:
        return int(rng.integers(25, 80)), int(rng.integers(1, 4))
    if u < big * 7 / 6:
        return int(rng.integers(1, 3)), int(rng.integers(60, 140))
    if u < 2 * big:
        return int(rng.integers(1, 4)), int(rng.integers(17, 45))
    return int(rng.integers(1, 9)), int(rng.integers(1, 6))


def spec(rng, H=None, N=None, max_nets=3, max_nodes=5, conv=True, stor=True, scale=None, neg=True, size=None,
         min_conv=0, min_stor=0, style=None, drained=0.1):
    """Draw a feasible study."""
    h, n = dims(rng)
    H, N = H or h, N or n
    if size is None:
        size = rng.random()
    style = style or ["int", "int", "dec", "real"][rng.integers(4)]
    scale = scale or [1.0, 1.0, 1.0, 1.0, 100.0, 0.01, 1.0, 1.0, 1e4][rng.integers(9)]
    if scale < 1:
        style = "real"
    if H * N > 85:
        max_nets, max_nodes = min(max_nets, 2), min(max_nodes, 2)
    crowd = H * N <= 16 and rng.random() < 0.08  # more than ten of a kind somewhere
    qmax = 100.0 * scale
    neg = neg and rng.random() < 0.25
    # unserved energy and everything else; wider ranges than a million are beyond the precision of the solver
    dear, money = [(1000.0, 1.0), (1000.0, 1.0), (1e6, 1.0), (1000.0, 1000.0)][rng.choice(4, p=[0.3, 0.3, 0.3, 0.1])]

    def cost(hi=100.0):
        hi = hi * money
        lo = -hi / 10 if neg and rng.random() < 0.4 else 0.0
        return value(rng, H, N, np.floor(lo), hi, style if scale >= 1 else "dec")

    def qt(hi=qmax, **kw):
        return value(rng, H, N, 0.0, hi, style, **kw)

    NETS_, NODES_, NAMES_, CONVS_ = NETS, NODES, NAMES, CONVS
    if rng.random() < 0.1:  # names which, put end to end, are the names of other elements
        sep = SEPARATORS[rng.integers(len(SEPARATORS))]
        chain = [sep.join(["a"] * i) for i in range(1, 18)]
        few = int(rng.integers(4, 18))
        NETS_, NODES_, NAMES_, CONVS_ = chain[:4], chain[: max(few, max_nodes + 3)], chain[: max(few, 8)], chain[:6]
    n_nets = int(rng.choice([1, 1, 2, 3][: max_nets + 1])) if max_nets > 1 else 1
    nets = {}
    for net in pick(rng, NETS_, n_nets):
        k = int(rng.integers(1, max_nodes + 1)) if size < 0.9 else max_nodes + 3
        if crowd and max_nodes >= 4 and rng.random() < 0.4:
            k = int(rng.integers(10, 15))
        nodes = {}
        for node in pick(rng, NODES_, k):
            n_c = int(rng.choice([0, 1, 1, 2, 3]))
            n_p = int(rng.choice([0, 1, 2, 2, 4]))
            n_s = int(rng.choice([0, 0, 1, 2, 3])) if stor else 0
            if crowd and k < 10 and rng.random() < 0.4:
                n_c, n_p, n_s = (int(x) for x in rng.choice([1, 2, 11, 13], size=3))
                n_s = n_s if stor else 0
            el = dict(cons=[], prod=[], stor=[], link=[])
            for name in pick(rng, NAMES_, n_c):
                el["cons"].append(dict(name=name, cost=cost(dear), quantity=qt()))
            for name in pick(rng, NAMES_, n_p):
                el["prod"].append(dict(name=name, cost=cost(), quantity=qt()))
            for name in pick(rng, NAMES_, n_s):
                el["stor"].append(storage(rng, H, N, name, qmax, style, cost))
            nodes[node] = el
        names = list(nodes)
        density = rng.random()
        for src in names:
            for dest in [names[i] for i in rng.permutation(len(names))]:
                p = density * 0.6 if src != dest else 0.05
                if rng.random() < p:
                    nodes[src]["link"].append(dict(dest=dest, cost=cost(10.0), quantity=qt(qmax / 2)))
        nets[net] = nodes
    out = dict(H=H, N=N, nets=nets, convs={})
    flat = [(n, d) for n in nets for d in nets[n]]
    if stor and min_stor:
        have = sum(len(nets[n][d]["stor"]) for n, d in flat)
        while have < min_stor:
            n, d = flat[rng.integers(len(flat))]
            used = [s["name"] for s in nets[n][d]["stor"]]
            free = [x for x in NAMES_ if x not in used] or [x for x in NAMES if x not in used]
            name = free[rng.integers(min(5, len(free)))]
            nets[n][d]["stor"].append(storage(rng, H, N, name, qmax, style, cost))
            have += 1
    if conv:
        n_v = int(rng.choice([0, 0, 1, 1, 2, 3]))
        for name in pick(rng, CONVS_, max(n_v, min_conv)):
            k = min(len(flat), int(rng.choice([1, 1, 2, 3])) if not crowd else int(rng.integers(1, 8)))
            srcs = {}
            for i in rng.choice(len(flat), size=k, replace=False):
                low, high = (0.1, 3.0) if rng.random() < 0.85 else (0.002, 0.1) if rng.random() < 0.5 else (3.0, 60.0)
                srcs[flat[i]] = value(rng, H, N, low, high, "dec" if style != "real" and low >= 0.1 else "real")
            dest = flat[rng.integers(len(flat))]
            out["convs"][name] = dict(srcs=srcs, dest=dest, cost=cost(20.0), max=qt(qmax))
    if stor and H <= 30 and rng.random() < drained:
        drain(rng, out)
    return out


def storage(rng, H, N, name, qmax, style, cost):
    cap = value(rng, H, N, 0.0, qmax, style, zero=0.03)
    init = 0
    low = float(cap.full.min())
    if rng.random() < 0.6:
        init = low * rng.choice([1.0, 0.5, 0.25])
        init = int(init) if style == "int" or rng.random() < 0.3 else float(init)
    eff = value(rng, H, N, 0.0, 1.0, "dec" if rng.random() < 0.5 else "real", zero=0.05)
    if rng.random() < 0.15:
        eff = V(1, np.ones((N, H)), "scalar")
    return dict(
        name=name, capacity=cap, init_capacity=init,
        flow_in=value(rng, H, N, 0.0, qmax / 2, style), flow_out=value(rng, H, N, 0.0, qmax / 2, style),
        cost=cost(2.0) if rng.random() < 0.7 else V(0, np.zeros((N, H)), "scalar"),
        eff=eff,
    )


def drain(rng, spec):
    """
    Storages starting over the capacity they have later. Whatever is stored may always leave at once (outflow
    bound, and a consumption able to take it), so the study stays feasible; holding is rewarded, or needed later.
    """
    H, N = spec["H"], spec["N"]
    for net, nodes in spec["nets"].items():
        for node, el in nodes.items():
            total = 0.0
            for b in el["stor"]:
                if rng.random() < 0.3:
                    continue
                full = b["capacity"].full * np.where(rng.random((N, H)) < 0.4, rng.choice([0.0, 0.3, 0.6]), 1.0)
                init = float(np.round(b["capacity"].full.max() * rng.choice([0.7, 1.0, 1.3]), 1))
                out = np.maximum(b["flow_out"].full, init)
                b.update(capacity=V(full, full, "mat"), init_capacity=init, flow_out=V(out, out, "mat"))
                if rng.random() < 0.5:
                    b["cost"] = V(-1, np.full((N, H), -1.0), "scalar")
                total += init + float(np.max(b["flow_in"].full)) * H
            if total and el["stor"]:
                sink = np.full((N, H), total)
                used = [c["name"] for c in el["cons"]]
                name = [x for x in ("sink", "zz2", "k9") if x not in used][0]
                k = float(rng.choice([0, 1, 500]))
                el["cons"].append(dict(name=name, cost=V(k, np.full((N, H), k), "scalar"), quantity=V(sink, sink, "mat")))
    return spec


# ---------------------------------------------------------------------------------------------------
def ops(spec):
    """Building operations in the order of the spec."""
    out = []
    for net, nodes in spec["nets"].items():
        out.append(("net", net))
        for node, el in nodes.items():
            out.append(("node", net, node))
            for kind in ("cons", "prod", "stor"):
                for i in range(len(el[kind])):
                    out.append((kind, net, node, i))
    for net, nodes in spec["nets"].items():
        for node, el in nodes.items():
            for i in range(len(el["link"])):
                out.append(("link", net, node, i))
    for name, c in spec["convs"].items():
        for src in c["srcs"]:
            out.append(("src", src[0], src[1], name))
        out.append(("dest", name))
    return out


def apply(study, spec, op, handle=None):
    """Apply one building operation through the fluent interface. handle: node/network selector to use."""
    kind = op[0]
    if kind == "net":
        return study.network(op[1])
    if kind == "node":
        return study.network(op[1]).node(op[2])
    if kind == "dest":
        c = spec["convs"][op[1]]
        h = handle or study.network(c["dest"][0])
        return h.converter(name=op[1], to_network=c["dest"][0], to_node=c["dest"][1], max=c["max"].raw, cost=c["cost"].raw)
    net, node = op[1], op[2]
    if kind == "link":
        e = spec["nets"][net][node]["link"][op[3]]
        h = handle or study.network(net)
        return h.link(src=node, dest=e["dest"], cost=e["cost"].raw, quantity=e["quantity"].raw)
    h = handle or study.network(net).node(node)
    if kind == "src":
        return h.to_converter(name=op[3], ratio=spec["convs"][op[3]]["srcs"][(net, node)].raw)
    e = spec["nets"][net][node][kind][op[3]]
    if kind == "cons":
        return h.consumption(name=e["name"], cost=e["cost"].raw, quantity=e["quantity"].raw)
    if kind == "prod":
        return h.production(name=e["name"], cost=e["cost"].raw, quantity=e["quantity"].raw)
    return h.storage(name=e["name"], capacity=e["capacity"].raw, flow_in=e["flow_in"].raw, flow_out=e["flow_out"].raw,
                     cost=e["cost"].raw, init_capacity=e["init_capacity"], eff=e["eff"].raw)


def build(spec):
    import hadar as hd

    study = hd.Study(horizon=spec["H"], nb_scn=spec["N"])
    for op in ops(spec):
        apply(study, spec, op)
    return study


# ---------------------------------------------------------------------------------------------------
def walk(spec):
    """all (kind, element) dictionaries holding values"""
    for net, nodes in spec["nets"].items():
        for node, el in nodes.items():
            for kind in ("cons", "prod", "stor", "link"):
                for e in el[kind]:
                    yield kind, net, node, e
    for name, c in spec["convs"].items():
        yield "conv", None, name, c


def map_values(spec, f):
    """Copy of the spec where each value v is replaced by f(v), with new dimensions kept by caller."""
    out = dict(H=spec["H"], N=spec["N"], nets={}, convs={})
    for net, nodes in spec["nets"].items():
        out["nets"][net] = {}
        for node, el in nodes.items():
            out["nets"][net][node] = {
                kind: [{k: f(v) if isinstance(v, V) else v for k, v in e.items()} for e in el[kind]] for kind in el
            }
    for name, c in spec["convs"].items():
        out["convs"][name] = dict(srcs={k: f(v) for k, v in c["srcs"].items()}, dest=c["dest"], cost=f(c["cost"]), max=f(c["max"]))
    return out


def scenarios(spec, idx):
    """Spec restricted to (or reordered by) a list of scenarios."""
    idx = list(idx)
    out = map_values(spec, lambda v: V(v.full[idx].copy(), v.full[idx], "mat"))
    out["N"] = len(idx)
    return out


def shape_of(spec):
    """Short structural signature of a study."""
    n = lambda k: sum(1 for x in walk(spec) if x[0] == k)
    return (spec["H"], spec["N"], len(spec["nets"]), tuple(len(v) for v in spec["nets"].values()), n("cons"), n("prod"),
            n("stor"), n("link"), tuple(len(c["srcs"]) for c in spec["convs"].values()))


def describe(spec):
    h, n, nets, nodes, c, p, s, l, v = shape_of(spec)
    return dict(horizon=h, scenarios=n, networks=nets, nodes=list(nodes), consumptions=c, productions=p, storages=s, links=l,
                converter_sources=list(v))


def dump(spec):
    """Spec as plain JSON, for replay files."""
    val = lambda v: dict(form=v.form, full=v.full.tolist()) if v.full.size <= 60 else dict(form=v.form, shape=list(v.full.shape))
    el = lambda e: {k: val(v) if isinstance(v, V) else v.item() if isinstance(v, np.generic) else v for k, v in e.items()}
    return dict(
        H=spec["H"], N=spec["N"],
        nets={n: {d: {k: [el(e) for e in x] for k, x in els.items()} for d, els in nodes.items()} for n, nodes in spec["nets"].items()},
        convs={n: dict(srcs={repr(k): val(v) for k, v in c["srcs"].items()}, dest=c["dest"], cost=val(c["cost"]), max=val(c["max"]))
               for n, c in spec["convs"].items()},
    )
