"""
Oracles over solved studies: series of a result by name, residuals of the documented equations, cost of a
dispatch, and an independent reference optimum (own model, whose optimum is certified by an own dual bound).
"""
import numpy as np

from core import HarnessError


class Dispatch:
    """Series of a result, found by names: self.s[(kind, ...)] = array (N, H)."""

    def __init__(self, spec, result):
        self.spec = spec
        s = {}
        for net, nodes in spec["nets"].items():
            for node, el in nodes.items():
                out = result.networks[net].nodes[node]
                for c in el["cons"]:
                    s["cons", net, node, c["name"]] = one(out.consumptions, c["name"]).quantity
                for p in el["prod"]:
                    s["prod", net, node, p["name"]] = one(out.productions, p["name"]).quantity
                for t in el["stor"]:
                    o = one(out.storages, t["name"])
                    s["cap", net, node, t["name"]] = o.capacity
                    s["fin", net, node, t["name"]] = o.flow_in
                    s["fout", net, node, t["name"]] = o.flow_out
                for l in el["link"]:
                    s["link", net, node, l["dest"]] = one(out.links, l["dest"], "dest").quantity
        for name, c in spec["convs"].items():
            o = result.converters[name]
            s["dest", name] = o.flow_dest
            for src in c["srcs"]:
                s["src", name, src] = o.flow_src[src]
        self.s = {k: np.array(v, dtype=float) for k, v in s.items()}
        for k, v in self.s.items():
            if v.shape != (spec["N"], spec["H"]):
                raise ValueError("series %s has shape %s instead of %s" % (k, v.shape, (spec["N"], spec["H"])))
            if not np.isfinite(v).all():
                raise ValueError("series %s is not finite" % (k,))

    def scale(self):
        """magnitude of what is dealt with, for relative tolerances"""
        return max([1.0] + [float(np.abs(v).max()) for v in self.s.values() if v.size])

    # -- balance --------------------------------------------------------------------------------
    def balance(self, net, node):
        """(supply, demand) of a node, arrays (N, H)"""
        spec = self.spec
        supply = np.zeros((spec["N"], spec["H"]))
        demand = np.zeros((spec["N"], spec["H"]))
        el = spec["nets"][net][node]
        for p in el["prod"]:
            supply += self.s["prod", net, node, p["name"]]
        for c in el["cons"]:
            demand += self.s["cons", net, node, c["name"]]
        for t in el["stor"]:
            supply += self.s["fout", net, node, t["name"]]
            demand += self.s["fin", net, node, t["name"]]
        for l in el["link"]:
            demand += self.s["link", net, node, l["dest"]]
        for other, oel in spec["nets"][net].items():
            for l in oel["link"]:
                if l["dest"] == node:
                    supply += self.s["link", net, other, node]
        for name, c in spec["convs"].items():
            if c["dest"] == (net, node):
                supply += self.s["dest", name]
            if (net, node) in c["srcs"]:
                demand += self.s["src", name, (net, node)]
        return supply, demand

    # -- bounds ---------------------------------------------------------------------------------
    def bounds(self):
        """(key, series, upper bound)"""
        for net, nodes in self.spec["nets"].items():
            for node, el in nodes.items():
                for c in el["cons"]:
                    k = ("cons", net, node, c["name"])
                    yield k, self.s[k], c["quantity"].full
                for p in el["prod"]:
                    k = ("prod", net, node, p["name"])
                    yield k, self.s[k], p["quantity"].full
                for t in el["stor"]:
                    yield ("cap", net, node, t["name"]), self.s["cap", net, node, t["name"]], t["capacity"].full
                    yield ("fin", net, node, t["name"]), self.s["fin", net, node, t["name"]], t["flow_in"].full
                    yield ("fout", net, node, t["name"]), self.s["fout", net, node, t["name"]], t["flow_out"].full
                for l in el["link"]:
                    k = ("link", net, node, l["dest"])
                    yield k, self.s[k], l["quantity"].full
        for name, c in self.spec["convs"].items():
            yield ("dest", name), self.s["dest", name], c["max"].full

    # -- cost -----------------------------------------------------------------------------------
    def cost_terms(self):
        """(key, array (N, H)) of each cost term"""
        for net, nodes in self.spec["nets"].items():
            for node, el in nodes.items():
                for c in el["cons"]:
                    k = ("cons", net, node, c["name"])
                    yield k, (c["quantity"].full - self.s[k]) * c["cost"].full
                for p in el["prod"]:
                    k = ("prod", net, node, p["name"])
                    yield k, self.s[k] * p["cost"].full
                for t in el["stor"]:
                    k = ("cap", net, node, t["name"])
                    yield k, self.s[k] * t["cost"].full
                for l in el["link"]:
                    k = ("link", net, node, l["dest"])
                    yield k, self.s[k] * l["cost"].full
        for name, c in self.spec["convs"].items():
            k = ("dest", name)
            yield k, self.s[k] * c["cost"].full

    def node_cost(self, net, node):
        """(N, H) cost of a node: its elements, its outgoing links and its incoming converters"""
        out = np.zeros((self.spec["N"], self.spec["H"]))
        for k, v in self.cost_terms():
            if k[0] == "dest":
                if self.spec["convs"][k[1]]["dest"] == (net, node):
                    out += v
            elif k[1:3] == (net, node):
                out += v
        return out

    def cost(self):
        """cost of each scenario, and the sum of absolute terms (for tolerance)"""
        total = np.zeros(self.spec["N"])
        mag = np.zeros(self.spec["N"])
        for _, v in self.cost_terms():
            total += v.sum(axis=1)
            mag += np.abs(v).sum(axis=1)
        return total, mag


def one(elements, name, attr="name"):
    found = [e for e in elements if getattr(e, attr) == name]
    if len(found) != 1:
        raise KeyError("%d elements named %r in result" % (len(found), name))
    return found[0]


def violations(d, tol=1e-6):
    """All residuals of the equations of the model for a dispatch, as (what, key, ratio to tolerance)."""
    out = []
    for net, nodes in d.spec["nets"].items():
        for node in nodes:
            supply, demand = d.balance(net, node)
            out.append(("balance", (net, node), np.abs(supply - demand) / (tol * np.maximum(1, np.maximum(np.abs(supply), np.abs(demand))))))
    return out


# ---------------------------------------------------------------------------------------------------
class Lp:
    """min c.x, A x = b, 0 <= x <= u, written from docs/source/mathematics/linear-model.rst."""

    def __init__(self, spec, scn):
        self.u, self.c, self.cols = [], [], []
        self.b = []
        self.const = self.size = 0.0  # size: where rounding of sums comes from
        H = spec["H"]
        rows = {}
        for net, nodes in spec["nets"].items():
            for node in nodes:
                for t in range(H):
                    rows[net, node, t] = self.row(0.0)
        for net, nodes in spec["nets"].items():
            for node, el in nodes.items():
                at = [rows[net, node, t] for t in range(H)]
                for c in el["cons"]:  # x = what is served
                    q, k = c["quantity"].full[scn], c["cost"].full[scn]
                    for t in range(H):
                        self.const += q[t] * k[t]
                        self.size += abs(q[t] * k[t])
                        self.var(q[t], -k[t], (at[t], -1.0))
                for p in el["prod"]:
                    q, k = p["quantity"].full[scn], p["cost"].full[scn]
                    for t in range(H):
                        self.var(q[t], k[t], (at[t], 1.0))
                for l in el["link"]:
                    q, k = l["quantity"].full[scn], l["cost"].full[scn]
                    for t in range(H):
                        self.var(q[t], k[t], (at[t], -1.0), (rows[net, l["dest"], t], 1.0))
                for s in el["stor"]:
                    prev = None
                    for t in range(H):
                        eq = self.row(float(s["init_capacity"]) if t == 0 else 0.0)
                        level = self.var(s["capacity"].full[scn, t], s["cost"].full[scn, t], (eq, 1.0))
                        self.var(s["flow_in"].full[scn, t], 0.0, (at[t], -1.0), (eq, -s["eff"].full[scn, t]))
                        self.var(s["flow_out"].full[scn, t], 0.0, (at[t], 1.0), (eq, 1.0))
                        if prev is not None:
                            self.cols[prev].append((eq, -1.0))
                        prev = level
        for name, c in spec["convs"].items():
            for t in range(H):
                # source flow = output / ratio, so no variable is needed for it
                self.var(c["max"].full[scn, t], c["cost"].full[scn, t], (rows[c["dest"][0], c["dest"][1], t], 1.0),
                         *[(rows[net, node, t], -1.0 / r.full[scn, t]) for (net, node), r in c["srcs"].items()])

    def row(self, b):
        self.b.append(b)
        return len(self.b) - 1

    def var(self, u, c, *terms):
        if not u >= 0:
            raise HarnessError("negative bound")
        merged = {}
        for i, a in terms:
            merged[i] = merged.get(i, 0.0) + a
        self.u.append(float(u))
        self.c.append(float(c))
        self.cols.append(list(merged.items()))
        return len(self.u) - 1

    def solve(self, phase1=False):
        """
        (lower bound on the optimum, objective found). The lower bound is the Lagrangian bound of the duals the
        solver gives: it is valid whatever these duals are, so nothing rests on the solver being right.
        phase1: minimise the violation of the equations instead of the cost.
        """
        from ortools.linear_solver import pywraplp

        u, c, cols = list(self.u), list(self.c), [list(x) for x in self.cols]
        if phase1:
            c = [0.0] * len(c)
            big = 10 * (1 + max([abs(x) for x in self.b] + [0.0]) + sum(self.u))
            for i in range(len(self.b)):
                for sign in (1.0, -1.0):
                    u.append(big)
                    c.append(1.0)
                    cols.append([(i, sign)])
        s = pywraplp.Solver.CreateSolver("GLOP")
        rows = [s.Constraint(float(b), float(b)) for b in self.b]
        obj = s.Objective()
        obj.SetMinimization()
        for ub, k, col in zip(u, c, cols):
            v = s.NumVar(0.0, ub, "")
            if k:
                obj.SetCoefficient(v, k)
            for i, a in col:
                rows[i].SetCoefficient(v, a)
        status = s.Solve()
        if status == pywraplp.Solver.INFEASIBLE:
            return None
        if status != pywraplp.Solver.OPTIMAL:
            raise HarnessError("reference solver status %d" % status)
        y = [r.dual_value() for r in rows]
        bound = sum(yi * bi for yi, bi in zip(y, self.b))
        for ub, k, col in zip(u, c, cols):
            reduced = k - sum(a * y[i] for i, a in col)
            if reduced < 0:
                bound += reduced * ub
        const = 0.0 if phase1 else self.const
        return bound + const, obj.Value() + const


def reference(spec, scn):
    """(certified lower bound, value, scale of rounding errors) of the optimum of a scenario. The spec must be feasible."""
    lp = Lp(spec, scn)
    out = lp.solve()
    if out is None:
        raise HarnessError("reference finds the study infeasible")
    return out + (1e-6 * lp.size,)


def feasibility(spec, scn):
    """(certified lower bound, value) of the least violation of the equations needed in a scenario."""
    return Lp(spec, scn).solve(phase1=True)
