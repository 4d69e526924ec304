"""Writes MANIFEST.json (run by hand when checks change)."""
import json
import sys

sys.path.insert(0, "harness")  # run from /verif
from plan import PLAN

props = [json.loads(l) for l in open("properties.jsonl")]
TECH = {
    "C01": "runtime monitor: energy conservation recomputed on every node of every solved study",
    "C02": "runtime monitor: bounds of every series of every solved study",
    "C03": "runtime monitor: storage level recurrence replayed on every solved study",
    "C04": "runtime monitor: flow/ratio equation of every converter source",
    "C05": "runtime monitor: cost compared to an independent optimum with certified dual bound",
    "C06": "differential runtime monitor over scenario subsets, orders, worker counts and injected delays",
    "C07": "runtime monitor: structure, isolation and history images around solves",
    "C08": "online monitor: reference model of the study replayed over histories of additions",
    "C09": "differential runtime monitor over equivalent forms of values",
    "C10": "round trip and equality monitors over studies and results",
    "C11": "offline trace checker over recorded client/server histories with injected faults",
    "C12": "runtime monitor: analyzer tables against rows recomputed from study and result",
    "C13": "online monitor: query answers against a plain filter, over interleaved histories",
    "C14": "runtime monitor: aggregates recomputed from study and result",
    "C15": "online monitor: composition model and before/after images over link/run histories",
    "C16": "online monitor: executable plug model over random chains of stages",
    "C17": "runtime monitor: cell by cell reference model of the built-in stages",
    "C18": "runtime monitor: exact outage decomposition of observed losses, and statistical monitors",
    "C19": "runtime monitor: row identification with unique values, statistical independence monitors under worker counts and delays",
    "C20": "runtime monitor: numbers read back from figures against the result",
    "C21": "runtime monitor: verdict of the solver against certified (in)feasibility",
    "C22": "resource monitor of processes, threads and descriptors over histories with failures",
    "C23": "differential runtime monitor over interleavings of building calls on kept handles",
}
NOTE = {
    "C05": "Held on the sampled studies only. The optimum is computed by an independent model solved with GLOP and accepted only with a dual bound recomputed in numpy; the tolerance is 1e-6 relative.",
    "C11": "Every fault kind is injected at sampled request positions; time is virtual (recorded sleeps).",
    "C18": "Held on the sampled runs; statistical oracles fail by chance with probability below 1e-12 each.",
    "C19": "Held on the sampled runs; statistical oracles fail by chance with probability below 1e-12 each.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(
        property=i,
        quick_cmd="/opt/venv/bin/python harness/run.py %s quick" % i,
        thorough_cmd="/opt/venv/bin/python harness/run.py %s thorough" % i,
        technique=TECH[i],
        level=PLAN[i].get("level", "exploration"),
        level_note=NOTE.get(i, "Held on the executions sampled from the seed (counts and distinct situations in the evidence file); nothing is claimed on inputs not generated. Trusts the oracle in harness/checks/%s.py and numpy." % i.lower()),
    ))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, pandas, ortools, plotly, requests'", checks=checks, not_applicable=[],
               notes="No hook is needed in /repo: all monitors observe the public interface (and, for delays, wrap library calls from the harness)."),
          open("MANIFEST.json", "w"), indent=1)
