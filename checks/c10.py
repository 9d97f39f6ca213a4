"""C10: recorded computation times are elapsed times under any clock behaviour."""
from . import general as N
from .common import *

TOL = 5.0
PHASES = ("basis", "hamiltonian", "eigenstates")
OF = (("construct_basis", 0), ("build_hamiltonian", 1), ("modified_davidson_algorithm", 2), ("compute_spin_number", 2))
FUNCS = ["construct_basis", "build_hamiltonian", "modified_davidson_algorithm", "compute_spin_number", "perform_initial_computations",
         "compute_S2_exp_val", "perform_modified_gram_schmidt", "get_lowests_eig", "get_meaningful_corrections"]


def spent(W, r, nth=None):
    """Stalls during an operation: seconds within each phase, and seconds that may be part of any phase."""
    sure, maybe = [0.0, 0.0, 0.0], 0.0
    for ph, t, secs, at in W.k.stalls:
        if ph != r.phase or r.thread not in at or not (r.t0 <= t and (r.t1 is None or t <= r.t1)):
            continue
        names, n = at[r.thread]
        if "perform_initial_computations" not in names or (nth is not None and n - r.extra != nth):
            continue
        which = [q for f, q in OF if f in names]
        if which:
            sure[which[0]] += secs
        else:
            maybe += secs
    return sure, maybe


def judge_times(times, sure, maybe, what):
    if times is None or len(times) != 3:
        return [("times", "%s has no computation times" % what)]
    bad = []
    for p, x, s in zip(PHASES, times, sure):
        if not isinstance(x, (int, float)) or x != x:
            bad.append(("times", "%s: the time of the %s is %r" % (what, p, x)))
        elif x < 0:
            bad.append(("negative", "%s: the time of the %s is negative (%g s)" % (what, p, x)))
        elif x < s - TOL:
            bad.append(("short", "%s: the time of the %s is %.3f s although its computation stood still for %.0f s" % (what, p, x, s)))
        elif x > s + maybe + TOL:
            bad.append(("long", "%s: the time of the %s is %.3f s although it took at most %.0f s" % (what, p, x, s + maybe)))
    return bad


class C10(Check):
    id = "C10"
    units = {"quick": 400, "thorough": 6000}
    text = ("Seeded programs compute, save and load several configurations and sweeps, repeatedly and in up to two threads, under a simulated clock; the program "
            "stands still for 50 s to a day at chosen functions, loop iterations and system calls, the wall clock is set forward or back in the middle, and computations are "
            "interrupted and repeated; every recorded time is compared with the simulated time that passed inside its phase.")

    def gen(self, rng, unit, tier):
        sweep = rng.random() < 0.25
        cfgs = [G.cfg(rng, maxdim=rng.choice([12, 24, 40]) if not sweep else 20, nsites=(2, 4) if sweep else None, tol=1e-7) for _ in range(rng.choice([1, 2, 3]))]
        for c in cfgs:
            c["spins"] = rng.random() < 0.8
        nt = 1 if sweep else rng.choice([1, 1, 1, 2])
        threads = []
        for t in range(nt):
            ops = []
            for j in range(1 if sweep else rng.choice([1, 2, 3])):
                i = rng.randrange(len(cfgs))
                nm = "r%d%d" % (t, j)
                ops.append({"op": "compute", "cfg": i, "as": nm} if rng.random() < 0.6 else {"op": "compute", "data": "d%d" % i, "as": nm})
                ops.append({"op": "save", "of": nm})
                if rng.random() < 0.4:
                    ops.append({"op": "load", "rel": O.iso_rel(cfgs[i]), "as": "l" + nm})
                    if rng.random() < 0.6:
                        ops += [{"op": "compute", "data": "l" + nm, "as": "c" + nm}, {"op": "save", "of": "c" + nm}]
            if sweep:
                ops.append({"op": "sweep", "cfg": rng.randrange(len(cfgs))})
            if rng.random() < 0.35:
                # results are kept and saved after the later computations
                ops.sort(key=lambda o: o["op"] != "compute" or o.get("data", "").startswith("l"))
            threads.append({"proc": 0, "ops": ops})
        datas = [{"op": "data", "cfg": i, "as": "d%d" % i} for i in range(len(cfgs))]
        mode = "call"
        phases = [phase([proc(rng, "a")], [{"proc": 0, "ops": datas}]), phase([proc(rng, "a")], threads, mode=mode, late=True),
                  phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": [{"op": "load", "rel": O.iso_rel(c)} for c in cfgs]}])]
        plan = {"cfgs": cfgs, "phases": phases, "record": True}
        dry = yield plan
        calls = calls_of(dry, 1)
        funcs = [f for f in FUNCS if f in calls]
        for i in range(3 if tier == "quick" else 10):
            f = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                w = rng.random()
                if w < 0.45:
                    fn = rng.choice(funcs) if rng.random() < 0.7 else rng.choice(sorted(calls))
                    at = {"func": fn, "n": rng.randint(1, len(calls[fn]))}
                elif w < 0.85:
                    at = step_position(rng, dry, 1, 0, calls)
                else:
                    at = fs_position(rng, dry, 1)
                if rng.random() < 0.7 or not ("func" in at or "step" in at):
                    f.append({"fault": "stall", "proc": 0, "at": at, "secs": rng.choice([50, 50, 400, 3600, 86400])})
                else:
                    f.append({"fault": "wall_jump", "proc": 0, "at": at, "secs": rng.choice([-1e6, -86400, -3600, 3600, 1e6])})
            if rng.random() < 0.2:
                f.append({"fault": "interrupt", "proc": 0, "at": step_position(rng, dry, 1, 0, calls), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
            seen, fs = set(), []
            for x in f:
                k = str(x["at"])
                if k not in seen:
                    seen.add(k)
                    fs.append(x)
            s = schedule(rng, dry.phase_steps[1], rng.choice([2, 5, 12])) if nt > 1 else []
            p = variant(plan, 1, fs, s, dry)
            p.pop("record", None)
            if any(x["fault"] == "interrupt" for x in fs):
                ops = p["phases"][1]["threads"][0]["ops"]
                ops += retry_ops(ops)
            if rng.random() < 0.2:
                p["phases"][1]["before"] = [{"do": "wall", "secs": rng.choice([-1e7, 1e7])}]
            yield p

    def judge(self, W):
        bad = []
        saved = {}
        for r in W.hist:
            what = "%s#%d.%d.%d" % (r.op["op"], r.phase, r.thread, r.i)
            if r.op["op"] == "compute" and r.status == "ok":
                bad += judge_times(r.val["times"], *spent(W, r), what)
            elif r.op["op"] == "save" and r.saving is not None:
                saved.setdefault(O.iso_rel(cfg_of_saving(r.saving)), []).append(r.saving["times"])
            elif r.op["op"] == "sweep":
                lim = r.s1 if r.s1 is not None else r.send if r.send is not None else 10 ** 12
                files = [(rel, d) for q, rel, d, who in W.file_log if r.s0 < q <= lim and who == r.kpid and d is not None]
                for k, (rel, v) in enumerate(zip([x[0] for x in files], W.decode(files))):
                    if isinstance(v, dict):
                        bad += judge_times(v["times"], *spent(W, r, k + 1), "%s: %s" % (what, rel))
                        saved.setdefault(rel, []).append(v["times"])
            elif r.op["op"] == "load" and r.status == "ok":
                if r.val["times"] not in saved.get(r.op["rel"], []):
                    bad.append(("loaded", "%s: the loaded times %s are none of the saved ones %s" % (what, r.val["times"], saved.get(r.op["rel"], [])[-3:])))
            if r.status == "exc" and not [f for f in r.fired if f not in ("stall", "clock_jump")]:
                if r.op["op"] == "load" and r.exc == "FileNotFoundError":
                    continue
                bad.append(("raised", "%s raised %s: %s (%s) although nothing failed" % (what, r.exc, r.msg, " < ".join(reversed(r.where or [])))))
        return REG.dedup(bad + N.judge_late(W))

    def probes(self, W):
        out = set()
        for ph, t, secs, at in W.k.stalls:
            for names, n in at.values():
                if "perform_initial_computations" not in names:
                    out.add("stall outside any computation")
                else:
                    w = [PHASES[q] for f, q in OF if f in names]
                    out.add("stall during %s" % (w[0] if w else "no phase"))
        if W.k.wall_off:
            out.add("wall clock set")
        return out


def cfg_of_saving(v):
    cf = v["config"]
    return {"geo": [cf["nbh"], cf["nbv"], cf["nblocs_side"]], "nholes": cf["nholes"], "nbeta": cf["nbeta"], "pars": v["pars"], "sel": v["bools"]}


CHECK = C10()
