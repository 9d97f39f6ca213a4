"""python check.py <property> [--tier quick|thorough] [--units N] [--workers N]   -- run from /verif"""
import argparse
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
ENV = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "TQDM_DISABLE": "1", "PYTHONDONTWRITEBYTECODE": "1",
       "MPLBACKEND": "Agg", "PYTHONPATH": HERE}


def environment(scratch):
    e = dict(os.environ)
    e.update(ENV)
    e.setdefault("PYTHONHASHSEED", "0")
    e["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    return e


class Pool:
    def __init__(self, args, scratch):
        self.args, self.scratch = args, scratch
        self.todo = queue.Queue()
        self.done = queue.Queue()
        self.stop = False
        self.procs = []

    def start(self, n, units):
        for u in units:
            self.todo.put(u)
        self.threads = [threading.Thread(target=self.serve, daemon=True) for _ in range(n)]
        for t in self.threads:
            t.start()

    def spawn(self, force=None):
        env = environment(self.scratch)
        if force:
            env["VERIF_FORCE_MODE"] = force
        p = subprocess.Popen([PY, "-m", "sim.worker", self.args.property, str(self.args.seed), self.args.tier], cwd=self.scratch,
                             env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
        p.err = []
        threading.Thread(target=lambda: p.err.extend(p.stderr), daemon=True).start()
        self.procs.append(p)
        return p

    def ask(self, p, unit, limit):
        """One unit; None if the worker hung or died."""
        box = []

        def read():
            box.append(p.stdout.readline())
        try:
            p.stdin.write("%d\n" % unit)
            p.stdin.flush()
        except OSError:
            return None
        t = threading.Thread(target=read, daemon=True)
        t.start()
        t.join(limit)
        if t.is_alive():
            return None
        return json.loads(box[0]) if box and box[0] else None

    def serve(self):
        p = None
        while not self.stop:
            try:
                unit = self.todo.get_nowait()
            except queue.Empty:
                break
            if p is None:
                p = self.spawn()
            r = self.ask(p, unit, self.args.unit_limit)
            if r is None:
                hung = p.poll() is None
                p.kill()
                why = "".join(p.err)[-1500:]
                # once more, with every loop iteration of the code counted, so that a hang shows as lack of progress
                p = self.spawn("call")
                r = self.ask(p, unit, self.args.unit_limit * 1.5)
                p.kill()
                p = None
                if r is None:
                    r = {"unit": unit, "error": "worker %s twice on unit %d %s" % ("hung" if hung else "died", unit, why)}
                else:
                    r["forced"] = True
            self.done.put(r)
        if p is not None:
            p.stdin.close()
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                p.kill()

    def kill(self):
        self.stop = True
        for p in self.procs:
            if p.poll() is None:
                p.kill()


def merge(acc, st):
    for k in ("runs", "sim", "steps", "fsops", "switches", "nontrivial"):
        acc[k] = acc.get(k, 0) + st[k]
    for k in ("faults", "ops", "modes", "probes"):
        d = acc.setdefault(k, {})
        for a, b in st[k].items():
            d[a] = d.get(a, 0) + b
    for k in ("hashes", "states"):
        acc.setdefault(k, set()).update(st[k])


def replay(path, scratch, force=False):
    env = environment(scratch)
    if force:
        env["VERIF_FORCE_MODE"] = "call"
    try:
        r = subprocess.run([PY, os.path.join(HERE, "replay.py"), path], cwd=scratch, env=env, capture_output=True, text=True, timeout=280)
    except subprocess.TimeoutExpired:
        return 3, "replay timed out"
    return r.returncode, r.stdout + r.stderr


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true", help="check that the interpreter and the simulator load")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--units", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--unit-limit", type=float, default=150)
    ap.add_argument("--wall", type=float, default=None)
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    if args.self_test:
        with tempfile.TemporaryDirectory(prefix="vsim-") as scratch:
            sys.exit(subprocess.run([PY, "-c", "from sim import kernel; kernel.install(); print('simulator ready:', len(kernel._codes), 'code objects')"],
                                    cwd=scratch, env=environment(scratch)).returncode)
    args.tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    args.seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    wall = args.wall or (420 if args.tier == "quick" else 4 * 3600)
    sys.path.insert(0, HERE)
    info = json.loads(subprocess.run([PY, "-c", "import json,sys; sys.path.insert(0, %r); from sim.worker import load; c = load(%r); "
                                      "print(json.dumps({'units': c.units, 'text': c.text, 'measure': c.measure}))" % (HERE, args.property)],
                                     capture_output=True, text=True, check=True).stdout)
    n_units = args.units or info["units"][args.tier]
    workers = args.workers or max(1, min(8, os.cpu_count() or 1))
    with tempfile.TemporaryDirectory(prefix="vsim-") as scratch:
        code = drive(args, info, n_units, workers, scratch, wall, t0)
    sys.stdout.flush()
    os._exit(code)


def drive(args, info, n_units, workers, scratch, wall, t0):
    print("property %s tier %s seed %d units %d workers %d" % (args.property, args.tier, args.seed, n_units, workers))
    pool = Pool(args, scratch)
    pool.start(workers, range(args.first, args.first + n_units))
    acc, samples, soft, errors, reported, unproved, ran, slow, enough = {}, [], [], [], [], [], 0, [], 0
    while ran + len(errors) < n_units:
        left = wall - (time.time() - t0)
        if left <= 0:
            break
        try:
            r = pool.done.get(timeout=min(left, 2.0))
        except queue.Empty:
            if not any(t.is_alive() for t in pool.threads) and pool.done.empty():
                break
            continue
        if "error" in r:
            errors.append(r["error"])
            if not args.keep_going:
                break
            continue
        ran += 1
        merge(acc, r["stats"])
        slow.append((round(r["t"], 1), r["unit"]))
        if r.get("sample") and len(samples) < 400:
            samples.append((r["unit"], r["sample"]))
        soft += [dict(s, unit=r["unit"]) for s in r["soft"]]
        if r["soft"] and len(soft) > 30 and any(sum(s["class"] == c for s in soft) > 20 + 3 * allowance(args, c, acc) for c in {s["class"] for s in soft}):
            enough = ran
            break
        if r["violation"]:
            v = dict(r["violation"], unit=r["unit"], forced=bool(r.get("forced")))
            path = report(args, v, scratch)
            if path is not None:
                reported.append((path, v))
            else:
                unproved.append("violation found but not reproduced from its replay file: %s %s" % (v["class"], v["message"]))
            if (path is not None or len(unproved) >= 4) and not args.keep_going:
                break
    pool.kill()
    # rare solver misses: only more of them than the solver's known rate allows is a violation (DESIGN.md, C06)
    for cls in sorted({s["class"] for s in soft}):
        mine = [s for s in soft if s["class"] == cls]
        n = len({json.dumps(s["plan"]["cfgs"], sort_keys=True) for s in mine})
        if n > allowance(args, cls, acc) and not reported:
            s = mine[0]
            v = {"class": s["class"], "message": s["message"] + " (and %d more runs of this kind)" % (len(mine) - 1), "plan": s["plan"],
                 "original": s["plan"], "tries": 0, "unit": s["unit"], "forced": False, "soft": True}
            path = report(args, v, scratch)
            if path is not None:
                reported.append((path, v))
            else:
                unproved.append("violation found but not reproduced from its replay file: %s %s" % (v["class"], v["message"]))
    if not reported:
        errors += unproved
    known = known_findings(args, scratch, errors)
    wall_s = time.time() - t0
    write_evidence(args, info, acc, samples, soft, ran, n_units, wall_s, len(reported), workers, known)
    print("slowest units", sorted(slow)[-5:], "mean %.2f s" % (sum(s[0] for s in slow) / max(1, len(slow))))
    for e in errors:
        print("HARNESS ERROR:", e)
    print("units %d/%d runs %d steps %d faults %s wall %.1fs" % (ran, n_units, acc.get("runs", 0), acc.get("steps", 0), acc.get("faults"), wall_s))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (args.property, k))
    if reported:
        for path, v in reported:
            print("class=%s: %s" % (v["class"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (args.property, path))
        return 1
    if errors or ran < max(1, n_units // 4) and not enough:
        print("NO ANSWER")
        return 2
    print("OK property=%s" % args.property)
    return 0


def allowance(args, cls, acc):
    body = json.dumps([cls, {"ops": acc.get("ops", {}), "probes": acc.get("probes", {})}])
    r = subprocess.run([PY, "-c", "import json,sys; sys.path.insert(0, %r); from sim.worker import load; a = json.loads(sys.stdin.read()); "
                        "print(load(%r).allowance(*a))" % (HERE, args.property)], input=body, capture_output=True, text=True, check=True)
    return float(r.stdout)


def report(args, v, scratch):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    # the minimised plan; the plan as found; last, everything its unit executed before it in the same interpreter
    for which in ("plan", "original") + (() if v.get("soft") else ("unit",)):
        body = {"property": args.property, "class": v["class"], "message": v["message"], "seed": args.seed, "unit": v["unit"], "tier": args.tier,
                "minimised": which == "plan", "minimiser_runs": v["tries"], "whole_unit": which == "unit",
                "plan": v["plan" if which == "plan" else "original"], "force_mode": "call" if v.get("forced") else None}
        path = os.path.join(d, "%s-s%d-u%d.json" % (args.property, args.seed, v["unit"]))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        code, text = replay(path, scratch)
        if code == 1:
            return path
    print(text[-2000:])
    os.remove(path)
    return None


def known_findings(args, scratch, errors):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return out
    for f in json.load(open(p))["findings"]:
        if f["property"] != args.property:
            continue
        path = os.path.join(HERE, f["replay"])
        code, text = replay(path, scratch)
        if code == 1:
            out.append(f["what"])
        elif code != 0:
            errors.append("known finding %s: %s" % (f["replay"], text[-500:]))
    return out


def write_evidence(args, info, acc, samples, soft, ran, n_units, wall_s, nviol, workers, known):
    samples.sort(key=lambda s: (not s[1]["faults"], s[0]))
    hours = max(wall_s, 1e-9) / 3600
    cov = {
        "evaluations": acc.get("runs", 0),
        "distinct_nontrivial": acc.get("nontrivial", 0),
        "rule": info["text"] + " Each evaluation is one simulated execution of a plan. Non-trivial and distinct: its hash over system calls, faults, "
                "thread switches, operation outcomes and stored bytes had not occurred before in its unit, and a fault fired, threads were switched, or several operations succeeded.",
        "samples": [s for _, s in samples[:3]],
        "units_run": ran, "units_planned": n_units, "seeds": ran, "workers": workers,
        "runs_per_hour": round(acc.get("runs", 0) / hours), "seeds_per_hour": round(ran / hours),
        "simulated_seconds": round(acc.get("sim", 0.0), 3), "steps": acc.get("steps", 0), "file_system_operations": acc.get("fsops", 0),
        "thread_switches": acc.get("switches", 0), "faults_injected": acc.get("faults", {}), "operations": acc.get("ops", {}),
        "distinct_executions": len(acc.get("hashes", ())), "distinct_execution_measure": info["measure"], "distinct_final_disks": len(acc.get("states", ())),
        "instrumentation_modes_of_phases": acc.get("modes", {}), "rare_situations_reached": acc.get("probes", {}),
        "solver_misses_not_persistent": len(soft), "known_findings_shown": len(known),
        "real_components": ["all modules of /repo except main.py, compiled from the current working tree", "numpy", "scipy", "json", "matplotlib artists", "tqdm"],
        "stub_components": ["file system (in-memory, journal of unsynced data)", "clocks", "os.urandom, uuid, tempfile names, numpy default_rng entropy",
                            "thread scheduler", "rendering of figures to bytes"],
    }
    body = {"property": args.property, "tier": args.tier, "seed": args.seed, "level": "exploration", "coverage": cov, "wall_s": round(wall_s, 2),
            "violations": nviol,
            "assumptions": ["CPython 3.12, numpy and scipy as installed compute correctly and are deterministic for equal inputs",
                            "preemption between lines of the code under test (not inside C calls)",
                            "a rename is atomic on disk; data not forced to disk may be lost at power loss, in any subset"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", args.property + ".json"), "w") as f:
        json.dump(body, f, indent=1)


if __name__ == "__main__":
    main()
