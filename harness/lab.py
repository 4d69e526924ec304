"""Shared bits of the workloads: solving under a chosen configuration, with scheduling perturbation."""
import contextlib
import os
import time

import numpy as np

import gen
import model


KEPT = {}  # an optimizer solves many studies


@contextlib.contextmanager
def cpus(n):
    """hadar sizes its process pools on the number of cpu: that is the configuration we vary."""
    old = os.cpu_count
    os.cpu_count = lambda: n
    try:
        yield
    finally:
        os.cpu_count = old


@contextlib.contextmanager
def jitter(seed, scale):
    """
    Delay each native solver call, in the (forked) worker process where it happens, by an amount which
    depends on process and call: scenarios finish in shuffled orders.
    """
    from ortools.linear_solver import pywraplp

    real = pywraplp.Solver.Solve
    count = [0]

    def slow(self, *args, **kwargs):
        count[0] += 1
        h = (os.getpid() * 2654435761 + count[0] * 40503 + seed * 97) % 1000
        time.sleep(scale * h / 1000.0)
        return real(self, *args, **kwargs)

    pywraplp.Solver.Solve = slow
    try:
        yield
    finally:
        pywraplp.Solver.Solve = real


def solve(ctx, study, n_cpu=None):
    import hadar as hd

    n = n_cpu or int(ctx.rng.choice([1, 2, 2, 3, 4]))
    if "optimizer" not in KEPT or ctx.rng.random() < 0.3:
        KEPT["optimizer"] = hd.LPOptimizer()
    with cpus(n):
        result = KEPT["optimizer"].solve(study)
    ctx.ev("studies_solved")
    return result


def solved(ctx, spec, n_cpu=None):
    """Build and solve a spec: (study, result, dispatch)"""
    study = gen.build(spec)
    result = solve(ctx, study, n_cpu)
    d = model.Dispatch(spec, result)
    ctx.ev("values_observed", sum(v.size for v in d.s.values()))
    return study, result, d


def ratio(diff, scale, tol):
    """greatest |diff| relative to the tolerance"""
    r = np.abs(diff) / (tol * np.maximum(1.0, scale))
    return float(r.max()) if np.size(r) else 0.0


def where(diff):
    """(scenario, time) of the worst difference"""
    return [int(i) for i in np.unravel_index(int(np.argmax(np.abs(diff))), np.shape(diff))]
