"""Worker process: reads unit numbers, writes one JSON line per unit."""
import importlib
import json
import os
import resource
import sys
import traceback


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    check = load(sys.argv[1])
    seed, tier = int(sys.argv[2]), sys.argv[3]
    from . import engine
    for line in sys.stdin:
        unit = int(line)
        try:
            r = engine.run_unit(check, seed, unit, tier)
        except BaseException:
            r = {"unit": unit, "error": traceback.format_exc()[-3000:]}
        out.write(json.dumps(r) + "\n")


def load(name):
    return importlib.import_module("checks." + name.lower()).CHECK


if __name__ == "__main__":
    main()
