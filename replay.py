"""python replay.py <file>: execute the recorded plan; exit 1 and print the violation if it shows again, exit 0 if not."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    path = os.path.abspath(sys.argv[1])
    with open(path) as f:
        body = json.load(f)
    want = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "TQDM_DISABLE": "1", "PYTHONHASHSEED": "0"}
    if any(os.environ.get(k) is None for k in want):
        for k, v in want.items():
            os.environ.setdefault(k, v)
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), path])
    if body.get("force_mode"):
        os.environ["VERIF_FORCE_MODE"] = body["force_mode"]
    sys.path.insert(0, HERE)
    from sim import engine
    from sim.worker import load
    check = load(body["property"])
    if body.get("whole_unit"):
        r = engine.run_unit(check, body["seed"], body["unit"], body["tier"])
        v = r["violation"]
        if v and v["class"] == body["class"]:
            print("violated [%s]: %s" % (v["class"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (body["property"], path))
            return 1
        print("not violated")
        return 0
    W = engine.execute(engine.with_modes(body["plan"]))
    bad = engine.verdict(check, W)
    for r in W.hist:
        print("phase %d thread %d process %s: %s -> %s %s" % (r.phase, r.thread, r.proc, json.dumps(r.op), r.status, (r.exc or "") + " " + (r.msg or "")))
    for pid, kind, when in W.k.fired:
        print("fault in process %d at %.6f s: %s" % (pid, when, kind))
    print("execution hash", W.hash())
    for cls, msg in bad:
        print("violated [%s]: %s" % (cls, msg))
    hit = [b for b in bad if b[0] == body["class"]]
    if hit:
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    print("not violated")
    return 0


if __name__ == "__main__":
    sys.exit(main())
