"""One worker: runs its share of the cases, one JSON line per started and per ended case."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    prop, tier, seed, first, step, total, deadline, path = sys.argv[1:9]
    seed, first, step, total, deadline = int(seed), int(first), int(step), int(total), float(deadline)
    with open(path, "w", buffering=1) as out:
        try:
            core.prepare_process()
            module = core.load(prop)
        except Exception as e:
            import traceback

            out.write(json.dumps(dict(fatal="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])) + "\n")
            return 3
        for i in range(first, total, step):
            if time.time() > deadline:
                out.write(json.dumps(dict(stopped=i)) + "\n")
                break
            out.write(json.dumps(dict(start=i)) + "\n")
            res = core.run_case(module, prop, seed, i, tier)
            out.write(json.dumps(res) + "\n")
            if "violation" in res or "harness_error" in res:
                break
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
