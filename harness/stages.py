"""
Tables, stages and their independent meaning.

A table is read as {(scenario, column): vector} plus its time index; the expected effect of each stage is
written on that form, without pandas and without hadar.
"""
import copy

import numpy as np
import pandas as pd

import hadar as hd

COLUMNS = ["quantity", "a", "b", "c", "A", "x y", "é", "to_shuffler2", "0", "None", "name", "loss", "t", "scn", "q" * 40, "q" * 41, " a", "1.0", "Quantity"]
RUNS = []  # names of the harness stages which ran, in order


def index(rng, h):
    k = rng.integers(5)
    if k == 0:
        return pd.RangeIndex(h)
    if k == 1:
        return pd.date_range("2020-01-01", periods=h, freq="H")
    if k == 2:
        return pd.Index(rng.permutation(h) * 3 + 2)
    if k == 3:
        return pd.Index(["t%d" % i for i in rng.permutation(h)])
    return pd.Index(np.arange(h) * 0.5 - 1)


def numbers(rng, h, nan=False):
    k = rng.integers(3)
    if k == 0:
        return rng.integers(-50, 200, size=h)
    x = np.round(rng.uniform(-50, 200, size=h) * 8) / 8
    if nan and rng.random() < 0.3:
        x[rng.random(h) < 0.2] = np.nan
    return x


def table(rng, names, h=None, scenarios=None, nan=False, flat=None):
    """(DataFrame, {(scn, name): vector}); scenarios None: drawn, may be without scenario level"""
    h = h or int(rng.integers(1, 12) if rng.random() < 0.93 else rng.integers(12, 400))
    flat = rng.random() < 0.3 if flat is None else flat
    if flat:
        df = pd.DataFrame({n: numbers(rng, h, nan) for n in [names[i] for i in rng.permutation(len(names))]})
        df.index = index(rng, h)
        return df
    if scenarios is None:
        n = int(rng.integers(1, 6) if rng.random() < 0.93 else rng.integers(6, 40))
        scenarios = [list(range(n)), [int(x) for x in rng.permutation(n)], [int(x) for x in rng.choice(500 if rng.random() < 0.2 else 50, size=n, replace=False)]][rng.integers(3)]
    keys = [(s, n) for s in scenarios for n in names]
    if rng.random() < 0.4:
        keys = [keys[i] for i in rng.permutation(len(keys))]
    data = [numbers(rng, h, nan) for _ in keys]
    df = pd.DataFrame(dict(enumerate(data)))
    df.columns = pd.MultiIndex.from_tuples(keys)
    df.index = index(rng, h)
    return df


def read(df):
    """{(scenario, column): vector}; a column twice or without scenario level is reported by None"""
    if not isinstance(df, pd.DataFrame) or df.columns.nlevels != 2:
        return None
    keys = [(k[0] if isinstance(k[0], str) else int(k[0]), k[1]) for k in df.columns]
    if len(set(keys)) != len(keys):
        return None
    arr = [np.asarray(df.iloc[:, i].values, dtype=float) for i in range(len(keys))]
    return dict(zip(keys, arr))


def meaning(df):
    """Content of user's data: data without scenario level is scenario 0."""
    if df.columns.nlevels == 2:
        return read(df)
    return {(0, n): np.asarray(df[n].values, dtype=float) for n in df.columns}


def same_vec(a, b):
    return a.shape == b.shape and bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())


def difference(got, want, tol=0.0):
    """None or a text"""
    if got is None:
        return "not a table with distinct (scenario, column)"
    if set(got) != set(want):
        return "columns missing %s, unexpected %s" % (sorted(map(str, set(want) - set(got)))[:6], sorted(map(str, set(got) - set(want)))[:6])
    for k in want:
        a, b = got[k], want[k]
        if a.shape != b.shape or not (same_vec(a, b) if tol == 0 else np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)):
            return "values of %r are %s instead of %s" % (k, a.tolist()[:12], b.tolist()[:12])
    return None


def image(df):
    """Everything about a DataFrame, comparable"""
    return (type(df.columns).__name__, [repr(c) for c in df.columns], df.columns.names, [repr(i) for i in df.index], df.index.name,
            [str(d) for d in df.dtypes], [df.iloc[:, i].values.copy() for i in range(df.shape[1])])


def same_image(a, b):
    return a[:6] == b[:6] and len(a[6]) == len(b[6]) and all(same_vec(np.asarray(x, dtype=float), np.asarray(y, dtype=float)) for x, y in zip(a[6], b[6]))


# -- user's stages --------------------------------------------------------------------------------
class Mix(hd.FocusStage):
    """Consumes inputs, produces outputs: k-th output = sum of inputs * (k + 2) + scenario label + row number"""

    def __init__(self, inputs, outputs, inplace=True, label=""):
        hd.FocusStage.__init__(self, hd.RestrictedPlug(inputs=list(inputs), outputs=list(outputs)))
        self.ins, self.outs, self.inplace, self.label = list(inputs), list(outputs), inplace, label

    def _process_scenarios(self, n_scn, scenario):
        RUNS.append(self.label)
        total = np.zeros(scenario.shape[0])
        for i in self.ins:
            total = total + scenario[i].values
        df = scenario if self.inplace else scenario.copy()
        for i in self.ins:
            if i not in self.outs:
                del df[i]
        for k, o in enumerate(self.outs):
            df[o] = total * (k + 2) + float(n_scn) + np.arange(df.shape[0])
        if self.inplace:
            for c in list(df.columns):  # hostile: touch what was given in place
                if c not in self.outs:
                    df[c] += 0
        return df

    def expect(self, m):
        out = {}
        scn = []
        for s, _ in m:
            if s not in scn:
                scn.append(s)
        for s in scn:  # scenarios keep their order
            mine = {n: v for (a, n), v in m.items() if a == s}
            h = next(iter(mine.values())).size
            total = np.zeros(h)
            for i in self.ins:
                total = total + mine[i]
            for n, v in mine.items():
                if n not in self.ins and n not in self.outs:
                    out[s, n] = v
            for k, o in enumerate(self.outs):
                out[s, o] = total * (k + 2) + float(s) + np.arange(h)
        return out


class Shift(hd.Stage):
    """Whole timeline stage accepting anything: adds a constant everywhere, in place"""

    def __init__(self, by, label=""):
        hd.Stage.__init__(self, hd.FreePlug())
        self.by, self.label = by, label

    def _process_timeline(self, timeline):
        RUNS.append(self.label)
        for c in list(timeline.columns):
            timeline[c] = timeline[c] + self.by
        return timeline

    def expect(self, m):
        return {k: v + self.by for k, v in m.items()}


# -- built in stages ------------------------------------------------------------------------------
class Known:
    """A stage with its expected effect, its needs and its promises (None: accepts and forwards anything)"""

    def __init__(self, stage, expect, ins=None, outs=None, text=""):
        self.stage, self.expect, self.ins, self.outs, self.text = stage, expect, ins, outs, text


def clip(lower, upper):
    def expect(m):
        out = {}
        for k, v in m.items():
            v = v.copy()
            if lower is not None:
                v[v < lower] = lower
            if upper is not None:
                v[v > upper] = upper
            out[k] = v
        return out

    kw = {}
    if lower is not None:
        kw["lower"] = lower
    if upper is not None:
        kw["upper"] = upper
    return Known(hd.Clip(**kw), expect, text="Clip(%s)" % kw)


def rename(**names):
    return Known(hd.Rename(**names), lambda m: {(s, names.get(n, n)): v for (s, n), v in m.items()},
                 list(names), list(names.values()), "Rename(%s)" % names)


def to_shuffler(name):
    return Known(hd.ToShuffler(name), lambda m: {(s, "to_shuffler" if n == name else n): v for (s, n), v in m.items()},
                 [name], ["to_shuffler"], "ToShuffler(%r)" % name)


def drop(names):
    gone = [names] if isinstance(names, str) else list(names)
    return Known(hd.Drop(names), lambda m: {(s, n): v for (s, n), v in m.items() if n not in gone}, gone, [], "Drop(%r)" % (names,))


def repeat(n):
    def expect(m):
        scn = []
        for s, _ in m:
            if s not in scn:
                scn.append(s)
        return {(i * len(scn) + j, name): v for i in range(n) for j, s in enumerate(scn) for (a, name), v in m.items() if a == s}

    return Known(hd.RepeatScenario(n), expect, text="RepeatScenario(%d)" % n)


def mix(inputs, outputs, inplace=True, label=""):
    st = Mix(inputs, outputs, inplace, label)
    return Known(st, st.expect, list(inputs), list(outputs), "Mix(%s, %s)" % (inputs, outputs))


def shift(by, label=""):
    st = Shift(by, label)
    return Known(st, st.expect, text="Shift(%s)" % by)


def names_of(m):
    return sorted({n for _, n in m}, key=str)


def draw(rng, cols, label="", free_only=False):
    """A stage working on a table with columns cols"""
    cols = list(cols)
    k = rng.integers(7)
    new = [c for c in COLUMNS if c not in cols]
    if k == 0:
        lo, hi = sorted(float(x) for x in rng.integers(-60, 200, size=2))
        lower, upper = [None, lo, 0][rng.integers(3)], [None, hi, max(hi, 0)][rng.integers(3)]
        if lower is not None and upper is not None and lower > upper:  # crossed bounds have no meaning
            lower, upper = upper, lower
        return clip(lower, upper)
    if k == 1 and cols:
        old = [cols[i] for i in rng.choice(len(cols), size=int(rng.integers(1, min(3, len(cols)) + 1)), replace=False)]
        if len(old) > 1 and rng.random() < 0.5:
            return rename(**dict(zip(old, old[1:] + old[:1])))
        return rename(**dict(zip(old, [new[i] for i in rng.choice(len(new), size=len(old), replace=False)])))
    if k == 2 and len(cols) > 1:
        some = [cols[i] for i in rng.choice(len(cols), size=int(rng.integers(1, len(cols))), replace=False)]
        return drop(some[0] if len(some) == 1 and rng.random() < 0.5 else some)
    if k == 3:
        return repeat(int(rng.integers(1, 4)))
    if k == 4:
        return shift(float(rng.integers(-5, 6)), label)
    ins = [cols[i] for i in rng.choice(len(cols), size=int(rng.integers(0, min(3, len(cols)) + 1)), replace=False)] if cols else []
    pool = ins + new
    outs = [pool[i] for i in rng.choice(len(pool), size=int(rng.integers(1, 4)), replace=False)]
    return mix(ins, outs, rng.random() < 0.6, label)


def state(stage):
    """Visible state of a stage"""
    d = {k: copy.deepcopy(v) for k, v in vars(stage).items() if k != "plug"}
    return repr(sorted(d.items(), key=lambda kv: kv[0])), plug(stage)


def plug(x):
    return (type(x.plug).__name__, list(x.plug.inputs), list(x.plug.outputs))
