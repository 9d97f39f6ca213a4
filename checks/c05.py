"""C05: every computed or stored Hamiltonian is the extended t-J Hamiltonian."""
from .common import *
from . import stages as S


class C05(Check):
    id = "C05"
    units = {"quick": 400, "thorough": 6000}
    text = ("Seeded histories in one program: Hamiltonians of configurations that resemble each other (same number of sites on another lattice, same "
            "counts, other couplings or selections) are built, computed, embedded, saved and loaded one after the other or in up to three threads interleaved "
            "at arbitrary lines, interrupted or hit by faults and repeated; every Hamiltonian returned, loaded or stored is compared element by element "
            "with an independent model working from site coordinates.")

    def gen(self, rng, unit, tier):
        big = rng.random() < 0.12
        start = G.big(rng, maxdim=rng.choice([40, 120, 240]), tol=1e-8, nb_val=rng.choice([1, 2, 3])) if rng.random() < 0.2 else None
        cfgs = similar_cfgs(rng, rng.choice([2, 3, 4, 5]), maxdim=220 if big else rng.choice([16, 36, 36, 90]), start=start, tol=1e-8, nb_val=rng.choice([1, 2, 3]))
        if rng.random() < 0.15:        # couplings of very different size
            for c in cfgs:
                c["pars"] = {k: v * 10.0 ** -rng.choice([0, rng.uniform(2, 9)]) for k, v in c["pars"].items()}
        big = big or max(O.dim_of(c) for c in cfgs) > 100 or start is not None and rng.random() < 0.7
        small = all(O.dim_of(c) <= 40 for c in cfgs)
        nt = rng.choice([1, 1, 2, 3])
        saved = []
        names = [O.iso_rel(c) for c in cfgs]
        single = [i for i in range(len(cfgs)) if names.count(names[i]) == 1]

        def ops_of(t):
            ops = []
            for j in range(rng.choice([2, 3, 4])):
                i = rng.randrange(len(cfgs))
                c = cfgs[i]
                w = rng.random()
                if w < 0.5:
                    ops.append({"op": "ham", "cfg": i} if rng.random() < 0.6 else {"op": "ham", "data": "d%d" % i})
                elif w < 0.85:
                    nm = "r%d%d" % (t, j)
                    ops.append({"op": "compute", "cfg": i, "as": nm} if rng.random() < 0.6 else {"op": "compute", "data": "d%d" % i, "as": nm})
                    if rng.random() < 0.7:
                        ops.append({"op": "save", "of": nm})
                        saved.append(i)
                        if rng.random() < 0.4:
                            ops.append({"op": "load", "rel": O.iso_rel(c), "as": "l" + nm})
                            if rng.random() < 0.5:
                                ops.append({"op": "save", "of": "l" + nm, "kind": "neel"})
                            if rng.random() < 0.5:
                                ops.append({"op": rng.choice(["ham", "compute"]), "data": "l" + nm})
                elif any(i in single for i in saved):
                    i = rng.choice([i for i in saved if i in single])
                    c = cfgs[i]
                    if sum(O.wh(c)) > 7:
                        continue
                    if rng.random() < 0.5 or O.wh(c)[0] < 2:
                        ops.append({"op": "neel", "cfg": i, "sc_tol": 1e-3, "max_iter": 1, "nb_val": 1})
                    else:
                        ops.append({"op": "blocks", "cfg": i, "sc_tol": 10.0, "max_iter": 1, "neigh": True, "rev": rng.random() < 0.5})
            return ops
        datas = [{"op": "data", "cfg": i, "as": "d%d" % i} for i in range(len(cfgs))]
        threads = [{"proc": 0, "ops": ops_of(t)} for t in range(nt)]
        mode = "none" if big else (rng.choice(["line", "call"]) if nt > 1 or rng.random() < 0.4 else "none")
        if mode == "line" and not small:
            mode = "call"
        final = [{"op": "load", "rel": O.iso_rel(cfgs[i])} for i in sorted(set(saved))]
        phases = [phase([proc(rng, "a")], [{"proc": 0, "ops": datas}]),
                  phase([proc(rng, "a")], threads, mode=mode),
                  phase([proc(rng, "a"), proc(rng, "z", fresh=True)], [{"proc": 0, "ops": retry_ops(threads[0]["ops"])}, {"proc": 1, "ops": final}])]
        plan = {"cfgs": cfgs, "phases": phases, "record": mode != "none"}
        dry = yield plan
        calls = calls_of(dry, 1) if mode != "none" else None
        for i in range((1 if big else 3) if tier == "quick" else 10):
            w = rng.random()
            f = []
            if w < 0.4:
                f = [{"fault": "interrupt", "proc": 0, "at": step_position(rng, dry, 1, 0, calls) if mode != "none" else fs_position(rng, dry, 1),
                      "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])} for _ in range(rng.choice([1, 1, 2]))]
            elif w < 0.5:
                f = [io_fault(rng, dry, 1)]
            elif w < 0.6:
                f = [{"fault": "fail", "proc": 0, "at": {"eigh": rng.randint(1, max(1, nfs(dry, 1)[3]))}}]
            elif w < 0.65:
                f = [kill_fault(rng, dry, 1)]
            s = schedule(rng, dry.phase_steps[1], rng.choice([2, 5, 12])) if nt > 1 else []
            p = variant(plan, 1, f, s, dry)
            p.pop("record", None)
            yield p

    def judge(self, W):
        bad = []
        shared = {}
        for r in W.hist:
            c = S.cfg_of(W, r)
            if r.op["op"] == "load" and r.status == "ok" and r.op.get("as"):
                shared[(r.proc, r.op["as"])] = cfg_of_snap(r.val)
            if c is None and r.op.get("data") is not None:
                c = shared.get((r.proc, r.op["data"]))
            if r.status == "ok" and r.op["op"] in ("ham", "compute") and c is not None:
                bad += O.check_ham(r.val, c, None, "%s#%d.%d.%d: " % (r.op["op"], r.phase, r.thread, r.i))
                bad += symmetric(r.val["ham"])
            if r.status == "exc" and not r.fired:
                if r.op["op"] == "load" and r.exc == "FileNotFoundError":
                    continue
                if r.op["op"] in ("neel", "blocks") and r.exc == "FileNotFoundError":
                    continue
                if "embedding" in " ".join(r.where or []) and r.op["op"] in ("neel", "blocks"):
                    continue        # judged by C08 and C09
                bad.append(("raised", "%s raised %s: %s (%s) although no fault occurred" % (r.op["op"], r.exc, r.msg, " < ".join(reversed(r.where or [])))))
        # files: a stored Hamiltonian is that of its own stored configuration, couplings and selection
        seen = set()
        for q, rel, d, who in W.file_log:
            if d is None or (rel, d) in seen or not rel.endswith(".json"):
                continue
            seen.add((rel, d))
            v = W.decode([(rel, d)])[0]
            if isinstance(v, dict):
                bad += stored_ham(v, rel)
        return REG.dedup(bad)

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.status == "exc" and r.op["op"] in ("ham", "compute"):
                out.add("%s interrupted" % r.op["op"])
        if W.k.nswitch:
            out.add("threads interleaved")
        return out


def symmetric(H):
    return [] if np.array_equal(H, H.T) or np.abs(H - H.T).max() <= 1e-12 * (1 + np.abs(H).max()) else [("symmetric", "the Hamiltonian is not symmetric")]


def cfg_of_snap(v):
    cf = v["config"]
    return {"geo": [cf["nbh"], cf["nbv"], cf["nblocs_side"]], "nholes": cf["nholes"], "nbeta": cf["nbeta"], "pars": v["pars"], "sel": v["bools"]}


def stored_ham(v, rel):
    n = v["config"]["nsites"]
    c = cfg_of_snap(v)
    if not all(isinstance(x, int) and x > 0 for x in c["geo"]) or O.wh(c)[0] * O.wh(c)[1] != n:
        return [("stored", "%s: the stored geometry %s does not have %s sites" % (rel, c["geo"], n))]
    if "Embedding_blocks" in rel:
        perm, why = O.basis_perm(v["dets"], n, c["nholes"], c["nbeta"])
        if perm is None:
            return [("basis", rel + ": " + why)]
        H = v["ham"]
        D = H - O.ref_ham(c, perm) if H.shape == (len(perm),) * 2 else None
        if D is None or np.abs(D - np.diag(np.diag(D))).max(initial=0.0) > 1e-9 * (1 + np.abs(H).max()):
            return [("stored", "%s: the embedded Hamiltonian is not a diagonal dressing of the extended t-J Hamiltonian" % rel)]
        return symmetric(H)
    return O.check_ham(v, c, None, rel + ": ") + symmetric(v["ham"])


import numpy as np  # noqa: E402

CHECK = C05()
