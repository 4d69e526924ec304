"""C22 no leak of processes, threads or descriptors over histories of succeeding and failing calls; no hang."""
import contextlib
import gc
import os
import signal
import sys
import threading
import time

import numpy as np
import pandas as pd

import hadar as hd

import gen
import lab

CASE_TIMEOUT = 240
GRACE = 20.0


def children():
    out = []
    me = os.getpid()
    for tid in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/children" % tid) as f:
                out += f.read().split()
        except OSError:
            pass
    return set(out)


def fds():
    return len(os.listdir("/proc/self/fd"))


def settle(test, collect=False):
    """Wait until test() holds, without help of the garbage collector unless asked: (held, waited)"""
    start = time.time()
    while True:
        if collect:
            gc.collect()
        if test():
            return True, time.time() - start
        if time.time() - start > GRACE:
            return False, GRACE
        time.sleep(0.01)


class Boom(Exception):
    pass


def bad_sampler(low, high, size):
    raise Boom("sampler")


class BadStage(hd.FocusStage):
    def __init__(self):
        hd.FocusStage.__init__(self, hd.RestrictedPlug(inputs=["quantity"], outputs=["quantity"]))

    def _process_scenarios(self, n_scn, scenario):
        raise Boom("stage")


class Odd(Exception):
    """An error which can be sent by a process but not received: it can't be made from its message"""

    def __init__(self, a, b):
        super().__init__("odd")
        self.a, self.b = a, b


class OddStage(BadStage):
    def _process_scenarios(self, n_scn, scenario):
        raise Odd(n_scn, 1)


class KilledStage(BadStage):
    """Its process is killed, as the system does when memory runs out"""

    def __init__(self):
        BadStage.__init__(self)
        self.main = os.getpid()

    def _process_scenarios(self, n_scn, scenario):
        if os.getpid() != self.main:
            os.kill(os.getpid(), signal.SIGKILL)
        raise Boom("stage")


class NestedStage(BadStage):
    """Its process shuffles too"""

    def _process_scenarios(self, n_scn, scenario):
        sh = hd.Shuffler()
        sh.add_data("d", np.arange(6.0).reshape(3, 2))
        sh.shuffle(2)
        return scenario


@contextlib.contextmanager
def killed_solver(nth):
    """The process of the nth solver call of a worker is killed there, unless it is the main process."""
    from ortools.linear_solver import pywraplp

    real, main, count = pywraplp.Solver.Solve, os.getpid(), [0]

    def solve(self, *args, **kwargs):
        count[0] += 1
        if os.getpid() != main and count[0] == nth:
            os.kill(os.getpid(), signal.SIGKILL)
        return real(self, *args, **kwargs)

    pywraplp.Solver.Solve = solve
    try:
        yield
    finally:
        pywraplp.Solver.Solve = real


def case(ctx):
    rng = ctx.rng
    kept = []  # what a program keeps: optimizers, studies, results, shufflers and their draws

    def ok_solve():
        spec = gen.spec(rng, H=int(rng.integers(1, 4)), N=int(rng.integers(1, 9)), max_nodes=2, size=0.1)
        with lab.jitter(int(rng.integers(1 << 20)), 0.01):
            study = gen.build(spec)
            with lab.cpus(int(rng.integers(1, 7))):
                optimizer = hd.LPOptimizer()
                kept.append((study, optimizer, optimizer.solve(study)))
        ctx.ev("studies_solved")

    def bad_solve():
        n = int(rng.integers(1, 8))
        cap = np.full((n, 2), 10.0)
        cap[rng.integers(n), rng.integers(2)] = 1.0
        study = hd.Study(horizon=2, nb_scn=n).network().node("a").storage("s", capacity=cap, flow_in=1, flow_out=1, init_capacity=9).build()
        optimizer = hd.LPOptimizer()
        kept.append((study, optimizer))
        try:
            with lab.jitter(int(rng.integers(1 << 20)), 0.02), lab.cpus(int(rng.integers(1, 7))):
                optimizer.solve(study)
        except Exception as e:
            ctx.ev("failed_calls")
            return
        ctx.fail("infeasible study solved")

    def killed_solve():
        spec = gen.spec(rng, H=int(rng.integers(1, 4)), N=int(rng.integers(1, 9)), max_nodes=2, size=0.1)
        study, optimizer = gen.build(spec), hd.LPOptimizer()
        kept.append((study, optimizer))
        try:
            with killed_solver(int(rng.integers(1, 3))), lab.cpus(int(rng.integers(1, 7))):
                kept.append(optimizer.solve(study))
        except Exception:
            ctx.ev("calls_failed_by_a_killed_process")
        ctx.ev("solves_with_a_killing_ended")

    def ok_shuffle():
        sh = hd.Shuffler()
        for i in range(int(rng.integers(1, 5))):
            sh.add_data("d%d" % i, np.arange(12.0).reshape(3, 4))
        df = pd.DataFrame({(0, "quantity"): np.arange(4.0), (1, "quantity"): np.arange(4.0)})
        nested = rng.random() < 0.25
        sh.add_pipeline("p", df, (NestedStage() if nested else hd.Clip(lower=0)) + hd.ToShuffler("quantity"))
        with lab.cpus(int(rng.integers(1, 7))):
            kept.append((sh, [sh.shuffle(int(rng.integers(1, 6))) for _ in range(int(rng.integers(1, 3)))]))
        ctx.ev("shuffles")
        ctx.ev("shuffles_in_a_shuffle", int(nested))

    def bad_shuffle():
        how = int(rng.integers(5))
        sh = hd.Shuffler(sampler=[bad_sampler, None, lambda low, high, size: np.zeros(size, dtype=int)][how]) if how in (0, 2) else hd.Shuffler()
        sh.add_data("d", np.arange(12.0).reshape(3, 4))
        if how in (1, 3, 4):
            df = pd.DataFrame({(0, "quantity"): np.arange(4.0)})
            sh.add_pipeline("p", df, {1: BadStage, 3: OddStage, 4: KilledStage}[how]() + hd.ToShuffler("quantity"))
        kept.append(sh)
        try:
            with lab.cpus(int(rng.integers(1, 7))):
                sh.shuffle(3)
        except Exception:
            ctx.ev("failed_calls")
            ctx.ev(["errors_of_a_sampler", "errors_of_a_stage", "samplers_not_sent", "errors_not_received", "killed_shuffles"][how])
            return
        if how != 2:  # a sampler which can't be sent to a process may be refused or not
            ctx.fail("a failing shuffle returned")

    def together():
        jobs = []

        def shuffles(n):
            for _ in range(n):
                sh = hd.Shuffler()
                sh.add_data("d", rng.random((3, 4)))
                jobs.append((True, lambda s=sh: s.shuffle(5)))
                ctx.ev("shuffles_at_the_same_time", int(n > 1))

        for _ in range(int(rng.integers(2, 5))):
            u = rng.random()
            if u < 0.6:
                spec = gen.spec(rng, H=int(rng.integers(1, 4)), N=int(rng.integers(1, 9)), max_nodes=2, size=0.1)
                jobs.append((True, lambda s=gen.build(spec): hd.LPOptimizer().solve(s)))
            elif u < 0.8:
                study = hd.Study(horizon=1, nb_scn=2).network().node("a").storage("s", capacity=1, flow_in=1, flow_out=1, init_capacity=9).build()
                jobs.append((False, lambda s=study: hd.LPOptimizer().solve(s)))
            else:
                shuffles(1)
        if rng.random() < 0.4:
            shuffles(int(rng.integers(2, 5)))
        out = [None] * len(jobs)

        def work(i):
            try:
                out[i] = jobs[i][1]()
            except Exception as e:
                out[i] = e

        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(float(rng.choice([interval, 1e-4, 1e-5])))
        with lab.cpus(int(rng.integers(1, 5))):
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        sys.setswitchinterval(interval)
        for (good, _), r in zip(jobs, out):
            if good and isinstance(r, Exception):
                raise r
            ctx.check(good or isinstance(r, Exception), "infeasible study solved")
        kept.append(out if rng.random() < 0.5 else None)
        ctx.ev("calls_at_the_same_time", len(jobs))

    gc.disable()  # ending a process is not the task of the garbage collector
    acts = [ok_solve, bad_solve, ok_shuffle, bad_shuffle, killed_solve, together]
    # imports and caches of a first use are not leaks
    ok_solve()
    ok_shuffle()
    kept.clear()
    settle(lambda: not children(), collect=True)
    base_children, base_threads = children(), threading.active_count()
    base_fd = fds()
    history = []
    for step in range(int(rng.integers(5, 10))):
        k = int(rng.choice(6, p=[0.25, 0.15, 0.15, 0.25, 0.1, 0.1]))
        acts[k]()
        history.append(acts[k].__name__)
        held, waited = settle(lambda: children() <= base_children and threading.active_count() <= base_threads)
        ctx.top("settle_seconds", waited)
        ctx.ev("process_tables_observed")
        ctx.check(held, "processes or threads remain after %s" % history, children=sorted(children() - base_children),
                  threads=[t.name for t in threading.enumerate()])
        held, _ = settle(lambda: fds() <= base_fd, collect=True)
        ctx.check(held, "open files grew from %d to %d after %s" % (base_fd, fds(), history))
    ctx.ev("objects_kept", len(kept))
    ctx.seen(tuple(history))
    ctx.note = dict(history=history)
