"""
Runner of the monitors.

A check is a module function ``case(ctx)``. One case = one workload, drawn from ``ctx.rng`` which is
seeded by (VERIF_SEED, property, case index) only, so every case can be replayed alone. Cases are dealt
to worker processes; each worker imports hadar from /repo's working tree. What the monitors observed
(events, comparisons, distinct states) is counted through ``ctx`` and ends up in the evidence file.
"""
import hashlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
CASE_TIMEOUT = 150  # seconds, an ordinary case takes well below 5 s


SLEEP_CAP = [None]
SLEEPS = []


class Violation(Exception):
    def __init__(self, message, detail=None):
        super().__init__(message)
        self.message = message
        self.detail = {k: v() if callable(v) else v for k, v in (detail or {}).items()}


class Hang(Exception):
    pass


class HarnessError(Exception):
    """The harness itself can't decide. Never a verdict about hadar."""


class Ctx:
    """What a case gets: randomness and where to report what is observed."""

    def __init__(self, prop, seed, index, tier):
        import numpy as np

        self.prop = prop
        self.index = index
        self.tier = tier
        digest = hashlib.sha256(("%d/%s/%d" % (seed, prop, index)).encode()).digest()
        words = [int.from_bytes(digest[i : i + 4], "little") for i in range(0, 16, 4)]
        self.rng = np.random.Generator(np.random.PCG64(words))
        self.counters = {}
        self.maxima = {}
        self.states = set()
        self.evals = 0
        self.nontrivial = set()
        self.known = []
        self.note = {}

    # -- observation ---------------------------------------------------------------------------
    def ev(self, name, n=1):
        """Count observed events."""
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def top(self, name, value):
        """Record the greatest value seen."""
        value = float(value)
        if value > self.maxima.get(name, float("-inf")):
            self.maxima[name] = value

    def seen(self, *key):
        """Record a non trivial state/shape the monitor judged."""
        self.nontrivial.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def check(self, ok, message, **detail):
        """One evaluation of the oracle."""
        self.evals += 1
        if not ok:
            raise Violation(message, detail)

    def fail(self, message, **detail):
        raise Violation(message, detail)


def jsonable(x, depth=0):
    import numpy as np

    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.size <= 400 else "array%s" % (x.shape,)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


def run_case(module, prop, seed, index, tier):
    """Run one case, turn anything unexpected into a violation."""
    ctx = Ctx(prop, seed, index, tier)

    def on_alarm(signum, frame):
        raise Hang()

    out = dict(index=index)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT))
    start = time.time()
    try:
        module.case(ctx)
    except Violation as e:
        out["violation"] = dict(message=e.message, detail=jsonable(e.detail))
    except Hang:
        out["violation"] = dict(
            message="no answer within %d s" % getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT),
            detail=dict(note=jsonable(ctx.note)),
        )
    except HarnessError as e:
        out["harness_error"] = "%s\n%s" % (e, traceback.format_exc()[-3000:])
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        in_hadar = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO)) for f in frames)
        remote = "RemoteTraceback" in traceback.format_exc()
        text = traceback.format_exc()[-3500:]
        # A valid use of the library must not raise. Errors born in the harness itself, away from the
        # library, while it looks at what the library returned (missing key, wrong type or shape) mean
        # that what it returned has not the documented structure.
        out["violation"] = dict(
            message="unexpected %s: %s" % (type(e).__name__, str(e)[:300]),
            detail=dict(traceback=text, raised_in_library=bool(in_hadar or remote), note=jsonable(ctx.note)),
        )
    finally:
        signal.alarm(0)
    out.update(
        evals=ctx.evals,
        counters=ctx.counters,
        maxima=ctx.maxima,
        nontrivial=sorted(ctx.nontrivial),
        known=ctx.known,
        note=jsonable(ctx.note),
        wall=time.time() - start,
    )
    return out


def load(prop):
    import importlib

    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    return importlib.import_module("checks.%s" % prop.lower())


def prepare_process():
    """Import hadar from the working tree, silence native solver log on fd 1."""
    import warnings

    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)
    # delays asked by the library itself are recorded, and shortened when a workload asks for it
    real_sleep = time.sleep

    def sleep(seconds):
        SLEEPS.append(seconds)
        real_sleep(min(seconds, SLEEP_CAP[0]) if SLEEP_CAP[0] is not None else seconds)

    time.sleep = sleep
    sys.path.insert(0, REPO)
    import hadar

    if not os.path.realpath(hadar.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("hadar imported from %s" % hadar.__file__)
    return keep
