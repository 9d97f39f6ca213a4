"""C06: the eigensolver returns true lowest eigenpairs from any random start."""
from .common import *
from . import stages as S


def solve(rng, c, name, cols):
    """One direct diagonalisation of the Hamiltonian of an earlier result."""
    dim = O.dim_of(c)
    k = rng.choice([1, 1, 2, 3, 4, 6, 10, max(1, dim), dim + 3])
    if dim > 40:
        k = min(k, 10)
    tol = rng.choice([1e-6, 1e-7, 1e-8, 1e-9, 1e-9, 1e-3, 1e-2])
    op = {"op": "diag", "of": name, "nb_val": k, "tol": tol, "dim_max": 0, "stp": 5000}
    w = rng.random()
    kk = min(k, dim)
    if w < 0.45 and 4 * kk + 4 < dim <= 126:
        op["dim_max"] = rng.randint(4 * kk + 4, min(dim - 1, 8 * kk + 12))
    elif w < 0.55:
        op["dim_max"] = dim + rng.choice([0, 1, 50])
    elif w < 0.6 and dim > 1:
        # fewer states than asked for fit into the search space
        op["dim_max"] = rng.randint(max(1, dim // 2), dim)
        op["nb_val"] = op["dim_max"] + rng.randint(1, 4)
        if op["dim_max"] < dim:
            op["dim_max"] = 0
    elif w < 0.72 and dim > 2:
        # a search space of hardly more, or even fewer, dimensions than states: may well use up its steps
        op["dim_max"] = rng.randint(1, min(dim - 1, 4 * kk + 3))
        op["stp"] = rng.choice([1, 2, 5, 20, 60])
    elif w < 0.8:
        op["stp"] = rng.choice([1, 2, 3, 6, 12])
    kk = min(op["nb_val"], op["dim_max"] or dim, dim)
    w = rng.random()
    if w < 0.25:
        op["guess"] = {"kind": "random", "seed": seed(rng), "cols": min(dim, kk + rng.choice([0, 0, 1, 2])), "scale": rng.choice([1.0, 1e-3, 1e3, 7.0]),
                       "positive": rng.random() < 0.5}
        if op["dim_max"] and op["guess"]["cols"] > op["dim_max"] // 3:
            op["guess"]["cols"] = min(op["nb_val"], dim) if op["stp"] > 1000 else kk
    elif w < 0.4 and cols >= 1:
        op["nb_val"] = rng.randint(1, cols)
        op["guess"] = {"kind": rng.choice(["own", "near"]), "cols": rng.randint(op["nb_val"], cols), "seed": seed(rng), "eps": rng.choice([1e-9, 1e-4, 1e-1])}
        if op["dim_max"] and op["dim_max"] < 4 * cols + 4 and op["stp"] > 1000:
            op["dim_max"] = 0
    return op


class C06(Check):
    id = "C06"
    units = {"quick": 520, "thorough": 6000}
    text = ("Seeded diagonalisations of Hamiltonians built by the package, from seeded random starts (the generator of the simulated process) and supplied guesses, "
            "with and without limits of the search space that force restarts, loose and tight tolerances, more states than exist; failures of eigh and qr at the n-th call, "
            "interruptions at any line, and retries in the same program. Every result is compared with the dense spectrum.")

    def gen(self, rng, unit, tier):
        style = rng.choice([None, None, None, "zeros"])
        cfgs = [G.cfg(rng, maxdim=rng.choice([12, 36, 72, 72, 126]), tol=rng.choice([1e-7, 1e-9]), nb_val=rng.choice([1, 2, 3, 4]), style=style)
                for _ in range(rng.choice([1, 2]))]
        if unit % 16 == 0:
            cfgs[0] = G.cfg(rng, maxdim=280, mindim=127, tol=1e-7, nb_val=rng.choice([1, 2, 3]))
        elif unit % 8 == 1:
            cfgs[0] = G.big(rng, maxdim=rng.choice([60, 120, 240]), tol=1e-7, nb_val=rng.choice([1, 2, 3]))
        ops = []
        for i, c in enumerate(cfgs):
            c["spins"] = False
            if rng.random() < 0.25:
                # degenerate spectra
                for q in ("hSDpar", "hSDper", "VNN", "VNNNper", "tnNNN", "tNNN"):
                    c["pars"][q] = 0.0
            ops.append({"op": "compute", "cfg": i, "as": "r%d" % i})
        for _ in range(rng.choice([4, 6, 8]) if unit % 16 else 3):
            i = rng.randrange(len(cfgs))
            ops.append(solve(rng, cfgs[i], "r%d" % i, min(cfgs[i]["diag"]["nb_val"], O.dim_of(cfgs[i]))))
        mode = "none" if max(O.dim_of(c) for c in cfgs) > 40 else rng.choice(["none", "call", "line"])
        plan = {"cfgs": cfgs, "phases": [phase([proc(rng, "a")], [{"proc": 0, "ops": ops}], mode=mode),
                                         phase([proc(rng, "a")], [{"proc": 0, "ops": retry_ops([o for o in ops if o["op"] == "diag"][:4])}])]}
        plan["phases"][0]["record"] = True
        plan["record"] = mode != "none"
        dry = yield plan
        calls = calls_of(dry, 0) if mode != "none" else None
        for i in range((3 if unit % 16 else 1) if tier == "quick" else 10):
            w = rng.random()
            if w < 0.45:
                f = [{"fault": "fail", "proc": 0, "at": {rng.choice(["eigh", "eigh", "qr"]): rng.randint(1, max(1, nfs(dry, 0)[3]))}}
                     for _ in range(rng.choice([1, 1, 2]))]
            elif w < 0.8 and mode != "none":
                f = [{"fault": "interrupt", "proc": 0, "at": step_position(rng, dry, 0, 0, calls), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]
            else:
                f = []
            p = variant(plan, 0, f, None, dry)
            if not f or rng.random() < 0.3:
                for ph in p["phases"]:
                    for q in ph["procs"]:
                        q["seed"] = seed(rng)
            # the same solve again right after it
            for ph in p["phases"][:1]:
                o2 = []
                for o in ph["threads"][0]["ops"]:
                    o2.append(o)
                    if rng.random() < 0.3:
                        o2.append(dict(o))
                ph["threads"][0]["ops"] = o2
            p.pop("record", None)
            yield p

    def judge(self, W):
        bad = []
        for r in W.hist:
            me = "%s#%d.%d: " % (r.op["op"], r.phase, r.i)
            if r.op["op"] == "compute":
                c = S.cfg_of(W, r)
                if r.status == "ok":
                    bad += [b for b in O.check_isolated(r.val, c, None, me, spins=False) if b[0] in ("count", "finite", "order", "orth", "energy", "residual", "lowest")]
            if r.op["op"] == "diag":
                bad += judge_diag(r, me)
                if r.status == "exc" and r.fired and not {f.split(":")[0] for f in r.fired} & {"lapack_failure", "interrupt"}:
                    bad.append(("raised", me + "raised %s after %s" % (r.exc, r.fired)))
            if r.status == "exc" and not r.fired:
                bad.append(("raised", me + "raised %s: %s (%s) although nothing failed" % (r.exc, r.msg, " < ".join(reversed(r.where or [])))))
        return REG.dedup(bad)

    def allowance(self, cls, acc):
        if cls == "stall":
            return 3 + 0.03 * acc.get("probes", {}).get("search space limited", 0)
        return super().allowance(cls, acc)

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.op["op"] == "diag" and r.status == "ok":
                if restarts(r):
                    out.add("search space limited")
                    if (r.eigh or 0) * min(r.op["nb_val"], r.op["dim_max"]) > r.op["dim_max"]:
                        out.add("restarted")
                if (r.eigh or 0) >= r.op.get("stp", 1000):
                    out.add("step limit used up")
                if 0 < r.op["dim_max"] < min(r.op["nb_val"], len(r.val["ham"])):
                    out.add("limit below the number of states")
                if r.op.get("guess"):
                    out.add("guess %s" % r.op["guess"]["kind"])
                if r.op["nb_val"] >= len(r.val["ham"]):
                    out.add("all states requested")
                if len(r.val["ham"]) > 1:
                    e = np.linalg.eigvalsh(r.val["ham"])[:r.op["nb_val"] + 1]
                    if len(e) > 1 and np.diff(e).min() < 1e-9:
                        out.add("degenerate levels")
            if r.status == "exc" and r.op["op"] == "diag":
                out.add("diagonalisation failed")
        return out


def restarts(r):
    return bool(r.op["dim_max"]) and r.op["dim_max"] < len(r.val["ham"])


def judge_diag(r, me):
    if r.status != "ok":
        return []
    v, op = r.val, r.op
    H = v["ham"]
    dim = len(H)
    k = min(op["nb_val"], op["dim_max"] or dim, dim)
    bad = []
    if v["ham_changed"]:
        bad.append(("input", me + "the diagonalised Hamiltonian was modified"))
    if v["guess_changed"]:
        bad.append(("input", me + "the supplied starting guess was modified"))
    if v["spins"]:
        bad.append(("count", me + "spin numbers %r in the result of a diagonalisation" % v["spins"]))
    b = O.check_pairs(H, v["eigvals"], v["eigvects"], k, op["tol"], me)
    few = op.get("stp", 1000) <= 60
    if few and (not r.eigh or r.eigh >= op.get("stp", 1000)):
        return bad + [x for x in b if x[0] != "residual"]
    if restarts(r) and (r.eigh or 0) >= op.get("stp", 1000) and {x[0] for x in b} == {"residual"}:
        # the step limit was used up
        return bad + [("stall", b[0][1] + " after %d steps in a search space of at most %d of %d dimensions" % (op.get("stp", 1000), op["dim_max"], dim))]
    bad += b
    g = op.get("guess")
    if not bad and op["tol"] <= 1e-6 and not (few and restarts(r)) and O.connected(H) and (g is None or g["kind"] == "random"):
        m = O.misses(H, v["eigvals"], op["tol"])
        if m:
            bad.append(("lowest", me + m))
    return bad


import numpy as np  # noqa: E402
from sim import gen as G  # noqa: E402,F811

CHECK = C06()
