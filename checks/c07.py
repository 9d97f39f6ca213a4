"""C07: spin numbers and site probabilities describe the stored states."""
import numpy as np

from .common import *
from . import stages as S


def vecs(rng, k):
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.25:
            out.append({"kind": "mix", "seed": seed(rng), "part": rng.choice([rng.random(), 0.25 + rng.uniform(-0.1, 0.1), 0.75 + rng.uniform(-0.1, 0.1)]), "scale": rng.choice([1.0, 1.0, -2.0, 1e-3])})
        elif rng.random() < 0.6:
            out.append({"kind": "eig", "col": rng.randrange(k), "scale": rng.choice([1.0, 1.0, -1.0, 3.0, 1e-4, 1e4])})
        else:
            out.append({"kind": "random", "seed": seed(rng), "scale": rng.choice([1.0, 1e-3, 50.0])})
    return out


class C07(Check):
    id = "C07"
    units = {"quick": 280, "thorough": 6000}
    text = ("Seeded histories of computations, sweeps, saves, restarts and loads of configurations that resemble each other, in up to three threads interleaved at "
            "arbitrary lines, killed, interrupted or hit by faults; spin numbers and site probabilities of the computed and loaded states, of rescaled "
            "states and of random vectors are compared with an independent total-spin operator and occupation counts.")

    def gen(self, rng, unit, tier):
        big = rng.random() < 0.1
        start = G.big(rng, maxdim=rng.choice([40, 80]), shapes=[g for g in G.BIG if g[0] * g[1] * g[2] ** 2 <= 12], tol=1e-8, nb_val=rng.choice([1, 2, 3])) if rng.random() < 0.15 else None
        cfgs = similar_cfgs(rng, rng.choice([2, 3, 4]), maxdim=150 if big else rng.choice([16, 36, 60]), start=start, tol=1e-8, nb_val=rng.choice([1, 2, 3, 5]))
        big = big or max(O.dim_of(c) for c in cfgs) > 100 or start is not None and rng.random() < 0.7
        for c in cfgs:
            c["spins"] = rng.random() < 0.85
        nt = rng.choice([1, 1, 2, 3])
        dmax = max(O.dim_of(c) for c in cfgs)
        names = [O.iso_rel(c) for c in cfgs]
        saved = set()

        def ops_of(t):
            ops = []
            for j in range(rng.choice([2, 3])):
                i = rng.randrange(len(cfgs))
                c, nm = cfgs[i], "r%d%d" % (t, j)
                k = O.want_states(c)
                if rng.random() < 0.75 or not ops:
                    ops.append({"op": "compute", "cfg": i, "as": nm})
                else:
                    ops.append({"op": "fake", "cfg": i, "seed": seed(rng), "as": nm})
                    k = max(1, min(O.dim_of(c), c["diag"]["nb_val"]))
                if rng.random() < 0.8:
                    ops.append({"op": "probe", "of": nm, "vecs": vecs(rng, k)})
                if ops[-1]["op"] != "fake" and not any(o["op"] == "fake" and o.get("as") == nm for o in ops) and rng.random() < 0.6:
                    ops.append({"op": "save", "of": nm})
                    saved.add(i)
                    if rng.random() < 0.5:
                        ops.append({"op": "load", "rel": names[i], "as": "l" + nm})
                        ops.append({"op": "probe", "of": "l" + nm, "vecs": vecs(rng, k)})
            return ops
        threads = [{"proc": 0, "ops": ops_of(t)} for t in range(nt)]
        mode = "none" if big or dmax > 40 and nt == 1 else rng.choice(["line", "call"]) if nt > 1 or rng.random() < 0.4 else "none"
        if mode == "line" and dmax > 16:
            mode = "call"
        first = []
        if rng.random() < 0.15 and O.counts(cfgs[0])[0] <= 4:
            first = [{"op": "sweep", "cfg": 0}]
            saved.add(0)
        final = []
        for i in sorted(saved):
            final += [{"op": "load", "rel": names[i], "as": "f%d" % i}, {"op": "probe", "of": "f%d" % i, "vecs": vecs(rng, 1)}]
        again = [dict(o) for o in threads[0]["ops"]]
        phases = [phase([proc(rng, "a")], [{"proc": 0, "ops": first}]), phase([proc(rng, "a")], threads, mode=mode),
                  phase([proc(rng, "a"), proc(rng, "z", fresh=True)], [{"proc": 0, "ops": again}, {"proc": 1, "ops": final}])]
        plan = {"cfgs": cfgs, "phases": phases, "record": mode != "none"}
        dry = yield plan
        calls = calls_of(dry, 1) if mode != "none" else None
        for i in range((1 if big else 3) if tier == "quick" else 10):
            w = rng.random()
            f = []
            if w < 0.4:
                f = [{"fault": "interrupt", "proc": 0, "at": step_position(rng, dry, 1, 0, calls) if mode != "none" else fs_position(rng, dry, 1),
                      "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]
            elif w < 0.55:
                f = [io_fault(rng, dry, 1)]
            elif w < 0.65:
                f = [kill_fault(rng, dry, 1)]
            elif w < 0.7:
                f = [{"fault": "fail", "proc": 0, "at": {"eigh": rng.randint(1, max(1, nfs(dry, 1)[3]))}}]
            s = schedule(rng, dry.phase_steps[1], rng.choice([2, 5, 12, 25])) if nt > 1 else []
            p = variant(plan, 1, f, s, dry)
            p.pop("record", None)
            yield p

    def judge(self, W):
        bad = []
        made = {}
        for r in W.hist:
            me = "%s#%d.%d.%d: " % (r.op["op"], r.phase, r.thread, r.i)
            if r.status == "ok" and r.op["op"] == "compute":
                c = S.cfg_of(W, r)
                bad += O.check_spins(r.val, c, None, me)
            if r.status == "ok" and r.op["op"] == "load":
                bad += stored_spins(r.val, me)
            if r.status == "ok" and r.op["op"] == "probe":
                bad += judge_probe(r.val, me)
            if r.op["op"] == "probe" and r.status in ("ok", "exc") and r.before is not None:
                for k in r.before:
                    d = S.same(r.before[k], r.after[k])
                    if d:
                        bad.append(("input", me + "%s of the probed result was modified" % d))
        seen = set()
        for q, rel, d, who in W.file_log:
            if d is None or (rel, d) in seen or not rel.endswith(".json"):
                continue
            seen.add((rel, d))
            v = W.decode([(rel, d)])[0]
            if isinstance(v, dict):
                bad += stored_spins(v, rel + ": ")
        bad += [b for b in unexpected_errors(W) if "FileNotFoundError" not in b[1]]
        return REG.dedup(bad)

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.status == "ok" and r.op["op"] == "probe":
                out.add("states probed")
                for it in r.val["items"]:
                    if abs(np.linalg.norm(it["vec"]) - 1) > 1e-6:
                        out.add("unnormalised vector probed")
            if r.status == "ok" and r.op["op"] in ("compute", "load") and r.val["spins"]:
                out.add("highest spin %s" % max(r.val["spins"]))
            if r.status == "exc" and r.op["op"] == "compute":
                out.add("computation failed")
        if W.k.nswitch:
            out.add("threads interleaved")
        return out


def stored_spins(v, me):
    cf = v["config"]
    c = {"geo": [cf["nbh"], cf["nbv"], cf["nblocs_side"]], "nholes": cf["nholes"], "nbeta": cf["nbeta"]}
    if not all(isinstance(x, int) and x > 0 for x in c["geo"]) or O.wh(c)[0] * O.wh(c)[1] != cf["nsites"]:
        return []
    return O.check_spins(v, c, None, me, spins=v["bools"]["b_spin_multipicities"])


def judge_probe(v, me):
    cf = v["config"]
    n, nh, nb = cf["nsites"], cf["nholes"], cf["nbeta"]
    na = n - nh - nb
    perm, why = O.basis_perm(v["dets"], n, nh, nb)
    if perm is None:
        return [("basis", me + why)]
    w, h = cf["nbh"] * cf["nblocs_side"], cf["nbv"] * cf["nblocs_side"]
    bad = []
    for j, it in enumerate(v["items"]):
        x = it["vec"]
        if it["changed"]:
            bad.append(("input", me + "vector %d was modified" % j))
        if "spin" in it:
            m = O.spin_problem(it["spin"], x, perm, n, nh, nb)
            if m:
                bad.append(("spin", me + "vector %d of norm %.3g: %s" % (j, np.linalg.norm(x), m)))
        P = O.probs_ref(x, perm, n, nh, nb)
        for what, got, ref in (("lat", it["lat"], P), ("lat_rev", it["lat_rev"], {0: P[0], 1: P[-1], -1: P[1]})):
            tot = {0: nh, 1: na, -1: nb} if what == "lat" else {0: nh, 1: nb, -1: na}
            s = sum(got[q] for q in (0, 1, -1)) if all(got[q].shape == (n,) for q in got) else None
            if s is None or np.abs(s - 1).max() > 1e-8:
                bad.append(("sum", me + "vector %d: the probabilities on each site sum to %s" % (j, None if s is None else s.tolist())))
                continue
            for q in (0, 1, -1):
                if abs(got[q].sum() - tot[q]) > 1e-7:
                    bad.append(("total", me + "vector %d: the probabilities of %s sum to %r instead of %d" % (j, NAME[q], got[q].sum(), tot[q])))
                elif np.abs(got[q] - ref[q]).max() > 1e-8:
                    bad.append(("prob", me + "vector %d: probabilities of %s%s are %s instead of %s" %
                                (j, NAME[q], " (reversed)" if what == "lat_rev" else "", got[q].tolist(), np.asarray(ref[q]).tolist())))
        for q in (0, 1, -1):
            ref = np.array(P[q]).reshape(h, w)[::-1]
            g = it["rect"][q]
            if g.shape != ref.shape or np.abs(g - ref).max() > 1e-8:
                bad.append(("rect", me + "vector %d: the rectangular layout of %s is %s instead of %s" % (j, NAME[q], g.tolist(), ref.tolist())))
    return bad


NAME = {0: "holes", 1: "spins up", -1: "spins down"}
CHECK = C07()
