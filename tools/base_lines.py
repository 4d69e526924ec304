"""Lists planted bugs which only change lines that our own commits added in the repository (they would not count)."""
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, BASE = "/repo", "09280f7"
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    base, added, ours = None, 0, []
    for line in open(os.path.join(ROOT, "seeded", d, "patch.diff")):
        line = line.rstrip("\n")
        if line.startswith("--- a/"):
            base = set(subprocess.run(["git", "-C", REPO, "show", BASE + ":" + line[6:]], capture_output=True, text=True).stdout.split("\n"))
        elif line.startswith("-") and not line.startswith("---"):
            ours.append(line[1:] not in base)
        elif line.startswith("+") and not line.startswith("+++"):
            added += 1
    if ours and all(ours):
        print(d, "changes only our lines")
    elif not ours:
        print(d, "only adds lines")
