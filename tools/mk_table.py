"""Writes the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json and tools/first_missed.txt)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "\n## Planted bugs\n"
TEXT = """
Each is in `seeded/<id>/` with its demonstration; all pass the repository's stable tests and are caught by the quick check of
the property given (seed 1). Those marked * were first missed, and the check was strengthened:
storages starting above a later capacity (`gen.drain`, in C02, C03, C05), results of former solves compared whole, benchmark
included, after later solves (C07), optimizers, studies, results and shufflers kept alive while processes and files are counted (C22),
wider ranges of costs and quantities (C05 and all solving checks).

| planted bug | caught by | needs |
|---|---|---|
"""


def main():
    missed = set(open(os.path.join(ROOT, "tools", "first_missed.txt")).read().split())
    rows = ""
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        with open(os.path.join(ROOT, "seeded", d, "meta.json")) as f:
            m = json.load(f)
        rows += "| %s%s | %s | %s |\n" % (d, "*" if d in missed else "", m["property"], m["needs"].replace("|", "/").replace("\n", " "))
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path) as f:
        text = f.read().split(MARK)[0]
    with open(path, "w") as f:
        f.write(text + MARK + TEXT + rows)


main()
