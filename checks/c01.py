"""C01: acknowledged results survive restarts and load back exactly."""
from .common import *


def storing(rng, names):
    return [n for n in names]


class C01(Check):
    id = "C01"
    units = {"quick": 400, "thorough": 5000}
    text = ("Seeded histories of several programs that compute results of different lattices, counts, couplings and selections (or assemble results with "
            "arbitrary contents), save them as isolated, Néel-embedded or block-embedded results under equal, similar and different names, overwrite and "
            "reload them, and are killed at arbitrary system calls or steps, or interrupted; every file ever written is decoded with the program's own "
            "loader and compared bit by bit with the saved result, and a new program finally loads every result.")

    def gen(self, rng, unit, tier):
        ncfg = rng.choice([1, 2, 3, 4])
        cfgs = []
        for i in range(ncfg):
            if cfgs and rng.random() < 0.6:
                # a neighbour of an earlier configuration: same sites, other counts or selection
                c = dict(rng.choice(cfgs))
                w = rng.random()
                if w < 0.4:
                    c = G.cfg(rng, maxdim=60, geometry=c["geo"])
                elif w < 0.8:
                    c["sel"] = G.sel(rng)
                    c["pars"] = G.pars(rng)
                else:
                    c["pars"] = G.pars(rng, "random")
            else:
                c = G.cfg(rng, maxdim=rng.choice([10, 40, 90])) if rng.random() < 0.8 else G.big(rng, maxdim=60, mindim=4)
            c = dict(c)
            n = c["geo"][0] * c["geo"][1] * c["geo"][2] ** 2
            if rng.random() < 0.25:
                sites = sorted(rng.sample(range(n), rng.randint(1, n)))
                c["restrict"] = rng.choice([sites, [sites, sorted(rng.sample(range(n), rng.randint(1, n)))]])
            if rng.random() < 0.15:
                c["type"] = rng.choice(["peripheral", "clusters"])
            if rng.random() < 0.3:
                c["guess"] = {"seed": seed(rng), "more": rng.choice([0, 0, 2])}
            cfgs.append(c)
        saved = []

        def block(t):
            i = rng.randrange(ncfg)
            c = cfgs[i]
            name = "r%d" % len(saved)
            kind = rng.choice(["iso", "iso", "neel", "blocks"])
            flags = rng.choice(FLAGS)
            odd = c.get("restrict") is not None or c.get("type")
            if rng.random() < 0.5 and not odd:
                ops = [{"op": "compute", "cfg": i, "as": name}]
            else:
                ops = [{"op": "fake", "cfg": i, "seed": seed(rng), "as": name}]
            sv = {"op": "save", "of": name, "kind": kind, "flags": flags}
            ops.append(sv)
            rel = rel_for(c, kind, flags)
            saved.append(rel)
            if rng.random() < 0.3:
                kind2, flags2 = rng.choice(["iso", "neel", "blocks"]), rng.choice(FLAGS)
                ops.append({"op": "save", "of": name, "kind": kind2, "flags": flags2})
                saved.append(rel_for(c, kind2, flags2))
            if rng.random() < 0.6:
                ops.append({"op": "load", "rel": rng.choice(saved), "as": "l%d" % len(saved)})
                if rng.random() < 0.4:
                    # save again what was loaded: nothing may get lost on the way
                    k3 = kind if rng.random() < 0.6 and ops[-1]["rel"] == rel else "neel"
                    ops.append({"op": "save", "of": "l%d" % len(saved), "kind": k3, "flags": flags})
            return ops
        phases = []
        for p in range(rng.choice([1, 2, 3])):
            np_ = rng.choice([1, 1, 1, 2])
            procs = [proc(rng, "ab"[i], fresh=rng.random() < 0.5) for i in range(np_)]
            threads = [{"proc": i, "ops": sum([block(i) for _ in range(rng.choice([1, 2, 2, 3]))], [])} for i in range(np_)]
            phases.append(phase(procs, threads))
        names = sorted(set(saved))
        phases.append(phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": [{"op": "load", "rel": r} for r in names]}]))
        plan = {"cfgs": cfgs, "phases": phases}
        dry = yield plan
        for i in range(7 if tier == "quick" else 20):
            p = plan
            for ph in range(len(phases) - 1):
                if rng.random() < 0.7:
                    tgt = rng.randrange(len(phases[ph]["procs"]))
                    w = rng.random()
                    if w < 0.6:
                        f = [kill_fault(rng, dry, ph, tgt)]
                    elif w < 0.75:
                        f = [io_fault(rng, dry, ph, tgt)]
                    elif w < 0.85:
                        f = [short_fault(rng, dry, ph, tgt)]
                    elif w < 0.95:
                        f = [interrupt_fault(rng, dry, ph, tgt)]
                    else:
                        f = []
                    s = schedule(rng, dry.phase_steps[ph], rng.choice([1, 3])) if len(phases[ph]["threads"]) > 1 else []
                    p = variant(p, ph, f, s, dry)
            yield p

    def judge(self, W):
        bad, tl = REG.judge(W, REG.explicit_writers(W))
        bad += REG.failed_saves(W) + unexpected_errors(W, ("fake", "compute", "data"))
        # only results that were saved have files
        known = {w.rel for w in REG.explicit_writers(W)}
        for t in W.trees:
            for rel in t:
                if rel.startswith("initialComputations/") and rel.rsplit("/", 1)[-1].startswith("tJHam") and rel.endswith(".json") and rel not in known:
                    bad.append(("name", "%s holds a result although none with that name was saved" % rel))
        return REG.dedup(bad)

    def probes(self, W):
        out = set()
        ws = REG.explicit_writers(W)
        by = {}
        for w in ws:
            by.setdefault(w.rel, []).append(w)
        if any(len(v) > 1 for v in by.values()):
            out.add("overwritten")
        if any(r.op["op"] == "save" and r.status == "crash" for r in W.hist):
            out.add("killed inside a save")
        if any(r.op["op"] == "save" and r.op["of"].startswith("l") and r.status == "ok" for r in W.hist):
            out.add("loaded result saved again")
        if len(by) > 1:
            out.add("several names")
        return out


CHECK = C01()
