"""C20 plots: numbers read back from the figures against the result; analyzer tables compared to their image after each plot."""
import numpy as np
import pandas as pd
from pandas.util import hash_pandas_object

import hadar as hd

import gen
import tables

TOL = 1e-9


def arr(x):
    return np.array([] if x is None else x, dtype=float)


def axis(x):
    """numbers, dates as rounded seconds"""
    return [round(pd.Timestamp(i).timestamp(), 3) if not isinstance(i, (int, float, np.number)) else float(i) for i in x]


def close(a, b, scale=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool((np.abs(a - b) <= TOL * max(1.0, scale, np.abs(b).max() if b.size else 0)).all())


def digest(agg):
    """Tables held by the analyzer"""
    out = {}
    for name, v in sorted(vars(agg).items()):
        if isinstance(v, pd.DataFrame):
            out[name] = (list(v.columns), int(hash_pandas_object(v, index=True).sum()) if len(v) else 0, len(v))
    return out


def answers(agg, spec):
    """What the analyzer answers, through its public interface"""
    out = dict(cost=np.array(agg.get_cost(), dtype=float))
    for net, nodes in spec["nets"].items():
        out["rac", net] = np.array(agg.get_rac(net), dtype=float)
        for node, el in nodes.items():
            out["balance", net, node] = np.array(agg.get_balance(node=node, network=net), dtype=float)
            for kind, asked in (("cons", "consumption"), ("prod", "production"), ("stor", "storage"), ("link", "link")):
                if el[kind]:
                    df = getattr(agg.network(net).node(node), asked)().scn().time()
                    out[asked, net, node] = np.array(df.sort_index().values, dtype=float)
    return out


class Bench:
    def __init__(self, ctx, spec, d, agg, plot, times):
        self.ctx, self.spec, self.d, self.agg, self.plot, self.times = ctx, spec, d, agg, plot, times
        self.N, self.H = spec["N"], spec["H"]
        self.image = digest(agg)

    def same_times(self, x):
        x = axis([] if x is None else x)
        return len(x) == self.H and bool(np.abs(np.array(x) - self.times).max() < 0.01)

    def say(self, ok, message, **detail):
        self.ctx.check(ok, message, spec=lambda: gen.dump(self.spec), **detail)

    def shown(self, fig, what):
        """Common to all figures: it is serialisable, and plotting changed nothing"""
        self.ctx.ev("figures")
        fig.to_plotly_json()
        now = digest(self.agg)
        changed = [k for k in self.image if k in now and now[k] != self.image[k]]
        self.say(not changed, "%s changed data of the analyzer: %s" % (what, changed))

    def series(self, sel, full, rac, what):
        """timeline, monotone and gaussian of one element; full has shape (N, H)"""
        ctx, N, H = self.ctx, self.N, self.H
        order = ["timeline", "mono_t", "mono_s", "gauss_t", "gauss_s"]
        for k in [order[i] for i in ctx.rng.permutation(5)]:
            t, s = int(ctx.rng.integers(H)), int(ctx.rng.integers(N))
            if k == "timeline":
                fig = sel().timeline()
                self.say(len(fig.data) == N, "timeline of %s has %d curves for %d scenarios" % (what, len(fig.data), N))
                for i, tr in enumerate(fig.data):
                    self.say(close(tr.y, full[i]), "timeline of %s, scenario %d shows %s instead of %s" % (what, i, arr(tr.y), full[i]))
                    self.say(self.same_times(tr.x), "timeline of %s has time axis %s" % (what, axis(tr.x)))
                ctx.ev("values_read", full.size)
            elif k in ("mono_t", "mono_s"):
                fig = sel().monotone(t=t) if k == "mono_t" else sel().monotone(scn=s)
                want = np.sort(full[:, t] if k == "mono_t" else full[s])[::-1]
                ys = [tr.y for tr in fig.data]
                self.say(len(ys) == 1 and close(ys[0], want), "monotone of %s (%s) shows %s instead of %s" % (what, (k, t, s), ys, want))
                x = arr(fig.data[0].x)
                self.say(x.size == want.size and bool((np.diff(x) >= 0).all()), "monotone of %s has axis %s" % (what, x))
                ctx.ev("values_read", want.size)
            else:
                fig = sel().gaussian(t=t) if k == "gauss_t" else sel().gaussian(scn=s)
                v, r = (full[:, t], rac[:, t]) if k == "gauss_t" else (full[s], rac[s])
                named = {tr.name: arr(tr.x) for tr in fig.data if tr.name in ("passed", "failed")}
                ok, ko = named.get("passed", arr(None)), named.get("failed", arr(None))
                self.say(close(np.sort(np.concatenate([ok, ko])), np.sort(v)), "gaussian of %s (%s) shows %s instead of %s" % (what, (k, t, s), named, v))
                # a remaining capacity of about zero may be on any side
                sure = np.abs(r) > 1e-6 * max(1.0, np.abs(full).max(), np.abs(rac).max())
                for side, shown in ((r >= 0, ok), (r < 0, ko)):
                    lack = [x for x in v[sure & side] if not np.isclose(shown, x, rtol=1e-9, atol=1e-9).any()] if shown.size else list(v[sure & side])
                    self.say(not lack, "gaussian of %s (%s): values %s are not on the side of their remaining capacity" % (what, (k, t, s), lack))
                    ctx.ev("sides_judged", int((sure & side).sum()))
                self.say(ok.size >= int((sure & (r >= 0)).sum()) and ko.size >= int((sure & (r < 0)).sum()), "gaussian of %s: wrong split" % what)
                ctx.ev("values_read", v.size)
            if k == "timeline":
                self.not_both({"monotone of " + what: sel().monotone, "gaussian of " + what: sel().gaussian}, t, s)
            self.shown(fig, "%s of %s" % (k, what))
            ctx.seen(k, H > 1, N > 1, bool(np.ptp(full) > 0), bool((rac < 0).any()))

    def not_both(self, plots, t, s):
        """A curve is for a scenario or for a time step."""
        for name, f in plots.items():
            try:
                f(t=t, scn=s)
            except ValueError:
                self.ctx.ev("double_demands_refused")
            else:
                self.say(False, "%s accepts a time step and a scenario together" % name)

    def storage(self, sel, el, key, what):
        ctx, N, H = self.ctx, self.N, self.H
        s, t = int(ctx.rng.integers(N)), int(ctx.rng.integers(H))
        fin, fout = self.d.s[("fin",) + key], self.d.s[("fout",) + key]
        level = el["init_capacity"] + np.cumsum(fin * el["eff"].full - fout, axis=1)
        for s in {s, 0}:
            fig = sel().candles(scn=s) if s or ctx.rng.random() < 0.5 else sel().candles()
            tr = fig.data[0]
            scale = np.abs(level).max() + fin.sum() + fout.sum()
            self.say(close(tr.close, level[s], scale), "candles of %s close at %s instead of %s" % (what, arr(tr.close), level[s]))
            opened = np.append(el["init_capacity"], level[s][:-1])
            self.say(close(tr.open, opened, scale), "candles of %s open at %s instead of %s" % (what, arr(tr.open), opened))
            self.say(self.same_times(tr.x), "candles of %s have time axis %s" % (what, axis(tr.x)))
            if self.real:
                cap = self.d.s[("cap",) + key]
                self.say(close(arr(tr.close) / max(1, scale), cap[s] / max(1, scale)) or np.abs(arr(tr.close) - cap[s]).max() < 1e-5 * max(1, scale),
                         "candles of %s close at %s, levels are %s" % (what, arr(tr.close), cap[s]))
            self.shown(fig, "candles of %s" % what)
            ctx.ev("candles_read", H)
        for kw, v in ((dict(t=t), (fin - fout)[:, t]), (dict(scn=s), (fin - fout)[s])):
            fig = sel().monotone(**kw)
            want = np.sort(v)[::-1]
            self.say(close(fig.data[0].y, want, np.abs(fin).max() + np.abs(fout).max()), "monotone of %s %s shows %s instead of %s" % (what, kw, arr(fig.data[0].y), want))
            self.shown(fig, "monotone of %s" % what)
            ctx.ev("values_read", want.size)
        self.not_both({"monotone of " + what: sel().monotone}, t, s)
        ctx.seen("storage", H > 1, N > 1, bool(fin.any()), bool(fout.any()))

    def stack(self, net, node, el):
        ctx, N, H, d = self.ctx, self.N, self.H, self.d
        s = int(ctx.rng.integers(N))
        pk, ck = ["used", "avail"][ctx.rng.integers(2)], ["asked", "given"][ctx.rng.integers(2)]
        for pk, ck, s in ((pk, ck, s), ("used", "given", s), ("used", "asked", 0)):
            sel = self.plot.network(net).node(node)
            fig = sel.stack() if (pk, ck, s) == ("used", "asked", 0) else sel.stack(scn=s, prod_kind=pk, cons_kind=ck)
            bal = self.balance(net, node)[s]
            areas = [(p["name"], d.s["prod", net, node, p["name"]][s] if pk == "used" else p["quantity"].full[s]) for p in el["prod"]]
            areas += [(x["name"], d.s["fout", net, node, x["name"]][s]) for x in el["stor"]]
            areas += [(n, d.s["dest", n][s]) for n, c in self.spec["convs"].items() if tuple(c["dest"]) == (net, node)]
            lines = [(c["name"], d.s["cons", net, node, c["name"]][s] if ck == "given" else c["quantity"].full[s]) for c in el["cons"]]
            lines += [(x["name"], d.s["fin", net, node, x["name"]][s]) for x in el["stor"]]
            lines += [(n, d.s["src", n, (net, node)][s]) for n, c in self.spec["convs"].items() if (net, node) in c["srcs"]]
            what = "stack of node %r of %r scn=%d %s/%s" % (node, net, s, pk, ck)
            drawn_areas = [tr for tr in fig.data if tr.fill is not None]
            drawn_lines = [tr for tr in fig.data if tr.fill is None]
            for tr in fig.data:
                self.say(self.same_times(tr.x), "%s has time axis %s" % (what, axis(tr.x)))
            for kind, got, want, side in (("areas", drawn_areas, areas, np.maximum(-bal, 0)), ("lines", drawn_lines[::-1], lines, np.maximum(bal, 0))):
                if side.any() or len(got) > len(want):
                    want = want + [("import" if kind == "areas" else "export", side)]
                tops = [arr(tr.y) for tr in got]
                self.say(len(tops) == len(want), "%s has %d %s instead of %d" % (what, len(tops), kind, len(want)), got=[tr.name for tr in got], want=[n for n, _ in want])
                scale = sum(np.abs(v).max() for _, v in want) if want else 1
                steps = [(tr.name, top - (tops[i - 1] if i else 0)) for i, (tr, top) in enumerate(zip(got, tops))]
                left = list(want)
                for name, v in steps:
                    hit = [i for i, (n, w) in enumerate(left) if n == name and close(v, w, scale * 10)]
                    self.say(bool(hit), "%s: layer %r of %s is %s" % (what, name, kind, v), expected=[(n, w.tolist()) for n, w in left if n == name])
                    left.pop(hit[0])
                    ctx.ev("layers_read")
                if tops:
                    total = sum(v for _, v in want)
                    self.say(close(tops[-1], total, scale * 10), "%s: %s sum to %s instead of %s" % (what, kind, tops[-1], total))
            if self.real and pk == "used" and ck == "given":
                top = arr(drawn_areas[-1].y) if drawn_areas else np.zeros(H)
                low = arr(drawn_lines[0].y) if drawn_lines else np.zeros(H)
                self.say(np.abs(top - low).max() <= 1e-5 * max(1.0, np.abs(top).max()), "%s: supply %s and demand %s differ" % (what, top, low))
                ctx.ev("stacks_balanced")
            self.shown(fig, what)
            ctx.seen("stack", len(areas), len(lines), bool(bal.any()), pk, ck)

    def balance(self, net, node):
        bal = np.zeros((self.N, self.H))
        for src, el in self.spec["nets"][net].items():
            for l in el["link"]:
                if src == node:
                    bal += self.d.s["link", net, src, l["dest"]]
                if l["dest"] == node:
                    bal -= self.d.s["link", net, src, l["dest"]]
        return bal

    def network(self, net, coord):
        ctx, N, H, d = self.ctx, self.N, self.H, self.d
        nodes = self.spec["nets"][net]
        rac = np.zeros((N, H))
        size = max([1.0] + [float(np.abs(e["quantity"].full).sum()) for el in nodes.values() for k in ("prod", "cons") for e in el[k]])
        for node, el in nodes.items():
            for p in el["prod"]:
                rac += p["quantity"].full - d.s["prod", net, node, p["name"]]
            for c in el["cons"]:
                rac -= c["quantity"].full - d.s["cons", net, node, c["name"]]
        fig = self.plot.network(net).rac_matrix()
        tr = fig.data[0]
        z = np.array(tr.z, dtype=float)
        text = np.array(tr.text, dtype=float)
        self.say(close(text, rac, 1e-3 * size), "remaining capacity matrix of %r shows %s instead of %s" % (net, text, rac))
        self.say(z.shape == rac.shape, "remaining capacity matrix of %r has shape %s" % (net, z.shape))
        sure = np.abs(rac) > 1e-9 * size + 1e-6 * max(1.0, np.abs(rac).max())
        self.say(bool((np.sign(z)[sure] == np.sign(rac)[sure]).all()), "remaining capacity matrix of %r: sign of colours %s for %s" % (net, z, rac))
        follow = z[sure][np.argsort(rac[sure])]
        self.say(bool((np.diff(follow) >= -1e-6).all()), "remaining capacity matrix of %r: colours %s don't follow values %s" % (net, z, rac))
        self.say(self.same_times(tr.x), "remaining capacity matrix of %r has time axis %s" % (net, axis(tr.x)))
        self.say(arr(tr.y).tolist() == list(range(N)), "remaining capacity matrix of %r has scenario axis %s" % (net, tr.y))
        self.shown(fig, "matrix of %r" % net)
        ctx.ev("cells_read", rac.size)
        ctx.seen("matrix", bool((rac > 0).any()), bool((rac < 0).any()), H > 1, N > 1)
        # map
        for _ in range(2):
            s, t = int(ctx.rng.integers(N)), int(ctx.rng.integers(H))
            kw = dict(t=t, zoom=1.5)
            if s or ctx.rng.random() < 0.5:
                kw["scn"] = s
            if ctx.rng.random() < 0.4:
                kw["limit"] = int(ctx.rng.integers(1, 1000))
            fig = self.plot.network(net).map(**kw)
            what = "map of %r %s" % (net, kw)
            marks = [tr for tr in fig.data if tr.mode == "markers"]
            self.say(len(marks) == 1, "%s has %d sets of nodes" % (what, len(marks)))
            place = [(float(a), float(b)) for a, b in zip(marks[0].lon, marks[0].lat)]
            self.say(sorted(place) == sorted(tuple(coord[n]) for n in nodes), "%s places nodes at %s" % (what, place))
            where = dict(zip(place, arr(marks[0].text)))
            color = dict(zip(place, arr(marks[0].marker.color)))
            scale = 1.0
            for node in nodes:
                b = self.balance(net, node)[s, t]
                scale = max(scale, abs(b))
            for node in nodes:
                b, at = self.balance(net, node)[s, t], tuple(coord[node])
                self.say(close([where[at], color[at]], [b, b], scale * 10), "%s: balance of %r is %s/%s instead of %s" % (what, node, where[at], color[at], b))
                ctx.ev("balances_read")
            # net exchange of each pair of nodes, in its direction
            net_flow = {}
            for src, el in nodes.items():
                for l in el["link"]:
                    q = d.s["link", net, src, l["dest"]][s, t]
                    if src != l["dest"]:
                        net_flow[src, l["dest"]] = net_flow.get((src, l["dest"]), 0) + q
                        net_flow[l["dest"], src] = net_flow.get((l["dest"], src), 0) - q
            back = {tuple(coord[n]): n for n in nodes}
            segs = [tr for tr in fig.data if tr.mode == "lines" and tr.fill != "toself"]
            heads = [tr for tr in fig.data if tr.mode == "lines" and tr.fill == "toself"]
            self.say(len(segs) == len(heads), "%s has %d lines and %d arrows" % (what, len(segs), len(heads)))
            shown = {}
            for a, h in zip(segs, heads):
                src, dest = (back.get((float(a.lon[i]), float(a.lat[i]))) for i in (0, 1))
                self.say(src is not None and dest is not None, "%s: line between unknown places" % what)
                qt = float(h.text[0] if isinstance(h.text, (tuple, list, np.ndarray)) else h.text)
                self.say((src, dest) not in shown, "%s: exchange %r to %r twice" % (what, src, dest))
                shown[src, dest] = qt
                if src != dest:
                    # the head of the arrow is on the side of the destination
                    pt = np.array([np.mean([x for x in h.lon[:3]]), np.mean([x for x in h.lat[:3]])], dtype=float)
                    S, E = np.array(coord[src]), np.array(coord[dest])
                    self.say(np.linalg.norm(pt - E) < np.linalg.norm(pt - S), "%s: arrow %r to %r in the wrong direction" % (what, src, dest))
            big = max([1.0] + [abs(q) for q in net_flow.values()])
            for (src, dest), q in net_flow.items():
                if q > 1e-6 * big:
                    self.say((src, dest) in shown and close([shown[src, dest]], [q], big * 10), "%s: exchange %r to %r is %s instead of %s" % (what, src, dest, shown.get((src, dest)), q))
                    ctx.ev("exchanges_read")
            for (src, dest), q in shown.items():
                self.say(src == dest or abs(q) <= 1e-6 * big or net_flow.get((src, dest), 0) > 0, "%s shows %s from %r to %r which don't exchange" % (what, q, src, dest))
            self.shown(fig, what)
            ctx.seen("map", len(nodes), len(shown), len(net_flow))
        return rac


def case(ctx):
    rng = ctx.rng
    real = ctx.index % 3 != 1
    big = ctx.index % 11 == 0
    H, N = (int(rng.integers(1, 7)), int(rng.integers(1, 5))) if not big else (int(rng.integers(20, 40)), int(rng.integers(1, 12)))
    if ctx.index % 37 == 3:  # many scenarios, or many time steps
        H, N = (int(rng.integers(1, 3)), int(rng.integers(55, 140))) if ctx.index % 2 else (int(rng.integers(180, 380)), 1)
    spec = gen.spec(rng, H=H, N=N, max_nodes=4, min_conv=int(rng.integers(0, 2)), max_nets=2, drained=0 if ctx.index % 7 == 1 else 0.2)
    if ctx.index % 7 == 1:
        drop = ["cons", "prod", "stor", "link", "conv"][rng.integers(5)]
        if drop == "conv":
            spec["convs"] = {}
        for nodes in spec["nets"].values():
            for el in nodes.values():
                if drop in el:
                    el[drop] = []
    ctx.note = gen.describe(spec)
    study, result, d, agg = tables.analysed(ctx, spec, real)
    coord, kw, times = {}, {}, [float(t) for t in range(H)]
    spots = rng.permutation(400)
    for nodes in spec["nets"].values():
        for node in nodes:
            if node not in coord:
                k = int(spots[len(coord)])
                coord[node] = [float(k % 20) + 0.25, float(k // 20) - 7.5]
    if rng.random() < 0.5:
        kw = dict(time_start="2020-02-01", time_end="2020-02-03 11:00")
        start, end = (pd.Timestamp(kw[k]).timestamp() for k in ("time_start", "time_end"))
        times = [start + (end - start) * i / max(1, H - 1) for i in range(H)]
        ctx.ev("date_axis")
    plot = hd.HTMLPlotting(agg=agg, unit_symbol=["MW", "", "%"][rng.integers(3)], node_coord=coord, **kw)
    b = Bench(ctx, spec, d, agg, plot, times)
    refused = [("one bound of time", lambda: hd.HTMLPlotting(agg=agg, node_coord=coord, **{["time_start", "time_end"][ctx.index % 2]: "2020-02-01"})),
               ("map without coordinates", lambda: hd.HTMLPlotting(agg=agg).network(list(spec["nets"])[0]).map(t=0, zoom=1))]
    for what, f in refused:
        try:
            f()
        except ValueError:
            ctx.ev("incomplete_demands_refused")
        else:
            ctx.fail("%s is accepted" % what)
    b.real = real
    before = answers(agg, spec)
    todo = []
    for net, nodes in spec["nets"].items():
        rac = b.network(net, coord)
        for node, el in nodes.items():
            at = lambda net=net, node=node: plot.network(net).node(node)
            todo.append(lambda net=net, node=node, el=el: b.stack(net, node, el))
            for c in el["cons"]:
                for kind, full in (("given", d.s["cons", net, node, c["name"]]), ("asked", c["quantity"].full)):
                    todo.append(lambda at=at, n=c["name"], kind=kind, full=full, rac=rac, w=(net, node): b.series(lambda: at().consumption(n, kind), full, rac, "consumption %s of %s %s" % (n, w, kind)))
            for c in el["prod"]:
                for kind, full in (("used", d.s["prod", net, node, c["name"]]), ("avail", c["quantity"].full)):
                    todo.append(lambda at=at, n=c["name"], kind=kind, full=full, rac=rac, w=(net, node): b.series(lambda: at().production(n, kind), full, rac, "production %s of %s %s" % (n, w, kind)))
            for c in el["link"]:
                for kind, full in (("used", d.s["link", net, node, c["dest"]]), ("avail", c["quantity"].full)):
                    todo.append(lambda at=at, n=c["dest"], kind=kind, full=full, rac=rac, w=(net, node): b.series(lambda: at().link(n, kind), full, rac, "link %s to %s %s" % (w, n, kind)))
            for c in el["stor"]:
                todo.append(lambda at=at, c=c, key=(net, node, c["name"]): b.storage(lambda: at().storage(c["name"]), c, key, "storage %s" % (key,)))
            for n, c in spec["convs"].items():
                if (net, node) in c["srcs"]:
                    todo.append(lambda at=at, n=n, full=d.s["src", n, (net, node)], rac=rac, w=(net, node): b.series(lambda: at().to_converter(n), full, rac, "converter %s from %s" % (n, w)))
                if tuple(c["dest"]) == (net, node):
                    todo.append(lambda at=at, n=n, full=d.s["dest", n], rac=rac, w=(net, node): b.series(lambda: at().from_converter(n), full, rac, "converter %s to %s" % (n, w)))
    # any order, a part of them in large studies
    for i in rng.permutation(len(todo))[:8]:
        todo[i]()
    after = answers(agg, spec)
    for k, v in before.items():
        ctx.check(v.shape == after[k].shape and bool((v == after[k]).all()), "after plots the analyzer answers %s differently" % (k,), spec=lambda: gen.dump(spec))
        ctx.ev("answers_compared")
