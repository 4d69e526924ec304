"""
C08 building: random histories of valid and invalid additions against a reference machine. Each addition is
accepted or refused as the machine says; a refused one raises ValueError and changes nothing.
"""
import numpy as np
import pandas as pd

import content
import gen


def bad_shape(rng, H, N, lo, hi):
    """A value of a shape which is not accepted."""
    ok = {(H,), (N, 1), (N, H)}
    shapes = [s for s in [(H + 1,), (H - 1,), (N, H + 1), (N + 1, H), (H, N), (1, H), (H, 1), (N + 1, 1), (N, 1, H), (N, H, 1), (1,), (N,), (),
                          (0,), (1, 1), (N - 1, H), (2 * N, 1), (N, 2)] if s not in ok and min(s + (0,)) >= 0]
    s = shapes[rng.integers(len(shapes))]
    x = rng.uniform(lo, hi, size=s)
    x = np.asarray(x)
    how = rng.integers(3)
    if how == 1 and x.ndim in (1, 2):
        return x.tolist(), "list%s" % (s,)
    if how == 2 and x.ndim in (1, 2):
        return (pd.Series(x) if x.ndim == 1 else pd.DataFrame(x)), "pandas%s" % (s,)
    return x, "array%s" % (s,)


def out_of(rng, H, N, lo, hi, upper=None):
    """A value with at least one offending number: negative, or over upper."""
    form = gen.FORMS[rng.integers(4)]
    shape = {"scalar": (), "row": (H,), "col": (N, 1), "mat": (N, H)}[form]
    x = np.round(rng.uniform(lo, hi, size=shape), 2)
    bad = -float(rng.choice([1, 5, 0.5, 1e-3, 1e6]))
    if upper is not None and rng.random() < 0.5:
        bad = upper + float(rng.choice([1e-3, 0.5, 10]))
    if form == "scalar":
        return bad, "scalar %r" % bad
    x = np.asarray(x)
    k = 1 if rng.random() < 0.7 else x.size
    for i in rng.choice(x.size, size=k, replace=False):
        x.flat[i] = bad
    kind, raw = gen.container(rng, x, False)
    return raw, "%s/%s with %r" % (form, kind, bad)


def garbage(rng):
    return [None, "12", "abc", {}, object(), [[1.0, 2.0], [3.0]], ["a", "b"], [[], []]][rng.integers(8)]


def case(ctx):
    import hadar as hd

    rng = ctx.rng
    H, N = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    study = hd.Study(horizon=H, nb_scn=N)
    m = dict(H=H, N=N, nets={}, convs={})
    nets, nodes, names, convs = gen.pick(rng, gen.NETS, 2), gen.pick(rng, gen.NODES, 4), gen.pick(rng, gen.NAMES, 4), gen.pick(rng, gen.CONVS, 3)
    log = []
    pre = content.snapshot(study)

    def good(lo=0.0, hi=50.0):
        return gen.value(rng, H, N, lo, hi, ["int", "dec", "real"][rng.integers(3)])

    def corrupt(fields, args, lo=0.0, signed=()):
        """Make one of the values invalid. signed: fields where any sign is fine (only shape can be wrong)."""
        f = fields[rng.integers(len(fields))]
        how = rng.random()
        hi = 1.0 if f == "eff" else 50.0
        if f not in signed and how < 0.6:
            args[f], why = out_of(rng, H, N, 0.0, hi, upper=1.0 if f == "eff" else None)
        elif how < 0.9:
            args[f], why = bad_shape(rng, H, N, 0.0, hi)
        else:
            args[f] = garbage(rng)
            why = "garbage %s" % type(args[f]).__name__
        return "%s %s" % (f, why)

    def omit(v, args, **defaults):
        """Leave out options, which then have their documented default."""
        for f, d in defaults.items():
            if rng.random() < 0.15:
                v[f] = d if f == "init_capacity" else gen.V(d, np.full((N, H), float(d)), "scalar")
                del args[f]
                ctx.ev("options_left_out")

    def attempt(call, valid, what, update):
        nonlocal pre
        log.append(("ok " if valid else "bad ") + what)
        ctx.note = dict(H=H, N=N, history=log[-6:])
        try:
            call()
        except ValueError as e:
            ctx.ev("additions_refused")
            ctx.check(not valid, "valid addition refused: %s (%s)" % (what, e), history=log)
            now = content.snapshot(study)
            ctx.check(now == pre, "refused addition changed the study: %s" % what, before=pre, after=now, history=log)
            content.compare(ctx, study, m, "after refusal of %s" % what, values=False)
            ctx.seen("refused", what.split(":")[0], what.split(":")[1][:40] if ":" in what else "")
            return
        except Exception as e:
            ctx.fail("%s addition raises %s instead of %s: %s (%s)" % ("valid" if valid else "invalid", type(e).__name__,
                     "being accepted" if valid else "ValueError", what, str(e)[:200]), history=log)
        ctx.ev("additions_accepted")
        ctx.check(valid, "invalid addition accepted: %s" % what, history=log)
        update()
        content.compare(ctx, study, m, "after %s" % what, values=False)
        pre = content.snapshot(study)
        ctx.seen("accepted", what.split(":")[0])

    for step in range(int(rng.integers(15, 35))):
        flat = [(n, d) for n in m["nets"] for d in m["nets"][n]]
        k = rng.random()
        if not flat or k < 0.15:
            net, node = nets[rng.integers(2)], nodes[rng.integers(4)]

            def upd():
                m["nets"].setdefault(net, {}).setdefault(node, dict(cons=[], prod=[], stor=[], link=[]))

            attempt(lambda: study.network(net).node(node), True, "node", upd)
            continue
        net, node = flat[rng.integers(len(flat))]
        el = m["nets"][net][node]
        h = study.network(net).node(node)
        invalid = rng.random() < 0.5
        if k < 0.65:
            kind = ["cons", "prod", "stor"][rng.integers(3)]
            used = [e["name"] for e in el[kind]]
            free = [x for x in names if x not in used]
            if not free:
                invalid = True
            v = dict(name=free[0] if free else used[0])
            if kind == "stor":
                v.update(capacity=good(), flow_in=good(), flow_out=good(), cost=good(-5, 5), eff=good(0.0, 1.0),
                         init_capacity=[0, 3, 2.5, 0.0][rng.integers(4)])
                if rng.random() < 0.2:
                    v["eff"] = gen.V(*[(1, np.ones((N, H)), "scalar"), (0, np.zeros((N, H)), "scalar"), (1.0, np.ones((N, H)), "scalar")][rng.integers(3)])
            else:
                v.update(quantity=good(), cost=good(-5, 5))
            args = {a: (b.raw if isinstance(b, gen.V) else b) for a, b in v.items()}
            what = kind
            if kind == "stor" and not invalid:
                omit(v, args, cost=0, init_capacity=0, eff=0.99)
            if invalid:
                if used and (not free or rng.random() < 0.25):
                    args["name"] = used[rng.integers(len(used))]
                    what = kind + ":name already used"
                elif kind == "stor":
                    if rng.random() < 0.15:
                        args["init_capacity"] = -float(rng.choice([1, 0.5, 1e-3]))
                        what = "stor:negative initial level"
                    else:
                        what = "stor:" + corrupt(["capacity", "flow_in", "flow_out", "eff", "eff", "cost"], args, signed=("cost",))
                else:
                    what = kind + ":" + corrupt(["quantity", "quantity", "cost"], args, signed=("cost",))
            call = {"cons": h.consumption, "prod": h.production, "stor": h.storage}[kind]
            attempt(lambda: call(**args), not invalid, what, lambda: el[kind].append(v))
        elif k < 0.8:
            used = [l["dest"] for l in el["link"]]
            free = [d for d in m["nets"][net] if d not in used]
            invalid = invalid or not free
            v = dict(dest=free[rng.integers(len(free))] if free else used[0], quantity=good(), cost=good(-5, 5))
            args = dict(src=node, dest=v["dest"], quantity=v["quantity"].raw, cost=v["cost"].raw)
            what = "link"
            if invalid:
                u = rng.random()
                foreign = [d for d in nodes + ["nowhere"] if d not in m["nets"][net]]
                if u < 0.2 or not free:
                    args["dest"] = used[0] if used else foreign[0]
                    what = "link:destination used or unknown"
                elif u < 0.35:
                    args["dest"] = foreign[rng.integers(len(foreign))]
                    what = "link:unknown destination"
                elif u < 0.5:
                    args["src"] = foreign[rng.integers(len(foreign))]
                    what = "link:unknown source"
                else:
                    what = "link:" + corrupt(["quantity", "quantity", "cost"], args, signed=("cost",))
            who = h if rng.random() < 0.5 else study.network(net)
            attempt(lambda: who.link(**args), not invalid, what, lambda: el["link"].append(v))
        elif k < 0.9:
            name = convs[rng.integers(3)]
            c = m["convs"].get(name)
            r = good(0.1, 3.0)
            args = dict(name=name, ratio=r.raw)
            what = "source"
            if c and (net, node) in c["srcs"]:
                invalid, what = True, "source:already set"
            elif invalid:
                what = "source:" + corrupt(["ratio"], args, signed=("ratio",))
            else:
                box = dict(ratio=r)
                omit(box, args, ratio=1)
                r = box["ratio"]

            def upd():
                m["convs"].setdefault(name, dict(srcs={}))["srcs"][(net, node)] = r

            attempt(lambda: h.to_converter(**args), not invalid, what, upd)
        else:
            name = convs[rng.integers(3)]
            c = m["convs"].get(name)
            v = dict(cost=good(-5, 5), max=good())
            args = dict(name=name, to_network=net, to_node=node, cost=v["cost"].raw, max=v["max"].raw)
            what = "destination"
            if c and "dest" in c:
                invalid, what = True, "destination:already set"
            elif invalid:
                u = rng.random()
                if u < 0.3:
                    args["to_node"] = ([d for d in nodes if d not in m["nets"][net]] + ["nowhere"])[0]
                    what = "destination:unknown node"
                elif u < 0.5:
                    args["to_network"] = "no such network"
                    what = "destination:unknown network"
                else:
                    what = "destination:" + corrupt(["cost", "max"], args, signed=("cost", "max"))
            else:
                omit(v, args, cost=0)

            def upd():
                m["convs"].setdefault(name, dict(srcs={})).update(dest=(net, node), **v)

            who = h if rng.random() < 0.5 else study.network(net)
            attempt(lambda: who.converter(**args), not invalid, what, upd)
    content.compare(ctx, study, m, "at the end")
    ctx.note = dict(H=H, N=N, history=log[-6:])
