"""C03: an interrupted sweep can be rerun and ends complete and correct."""
from .common import *


def sectors(c):
    n = c["geo"][0] * c["geo"][1] * c["geo"][2] ** 2
    return list(range(n - c["nholes"] + 1))


def max_dim(c):
    n = c["geo"][0] * c["geo"][1] * c["geo"][2] ** 2
    return max(G.dims(n, c["nholes"], b) for b in sectors(c))


def sweep_writers(W):
    """One writer per sector and sweep; what it stores is judged against the reference model."""
    out = []
    memo = {}
    made = {}
    for r in W.hist:
        if r.op["op"] == "data":
            made[(r.proc, r.op["as"])] = r.op["cfg"]
        if r.op["op"] != "sweep" or r.status == "skip":
            continue
        ci = r.op["cfg"] if "cfg" in r.op else made.get((r.proc, r.op["data"]))
        if ci is None:
            continue
        c = W.plan["cfgs"][ci]
        for nb in sectors(c):
            w = REG.Writer()
            w.rel = O.iso_rel(c, nb)
            w.s0, w.s1 = r.s0, r.s1 if r.s1 is not None else r.send if r.send is not None else REG.INF
            w.acked = r.status == "ok"
            w.what = "sweep#%d.%d.%d sector nbeta=%d" % (r.phase, r.thread, r.i, nb)
            w.val, w.skip = None, ()

            def match(got, ci=ci, c=c, nb=nb):
                k = (ci, nb, id(got))
                if k not in memo:
                    memo[k] = (O.check_isolated(got, c, nb), got)
                bad = [b for b in memo[k][0] if b[0] != "lowest"]
                return None if not bad else "%s: %s" % bad[0]
            w.match = match
            out.append(w)
    return out, memo


class C03(Check):
    id = "C03"
    units = {"quick": 260, "thorough": 4000}
    text = ("Seeded sweeps over all spin sectors of a lattice, on top of results of earlier sweeps with other couplings or none, killed, interrupted or hit by "
            "I/O errors and eigensolver failures at system calls, function calls and loop iterations, once or several times, rerun in a new or the same program; every "
            "content of every sector's file is judged against the reference model of that sector.")

    def gen(self, rng, unit, tier):
        while True:
            c = G.cfg(rng, maxdim=130, nb_val=rng.choice([1, 2, 3, 5]))
            if max_dim(c) <= (70 if rng.random() < 0.8 else 140):
                break
        if unit % 12 == 7:
            # a large lattice with few electrons
            while True:
                c = G.big(rng, maxdim=80, mindim=10, nb_val=rng.choice([1, 2, 3]))
                if len(sectors(c)) <= 4 and max_dim(c) <= 80:
                    break
        w = rng.random()
        n = c["geo"][0] * c["geo"][1] * c["geo"][2] ** 2
        if w < 0.12:
            sites = sorted(rng.sample(range(n), rng.randint(1, n)))
            c["restrict"] = sites
        elif w < 0.24:
            c["type"] = "peripheral" if c["geo"][2] != 1 and max(c["geo"][:2]) > 1 else rng.choice(["peripheral", "clusters"])
        c2 = dict(c, pars=G.pars(rng, "random"), spins=not c["spins"])
        other = G.cfg(rng, maxdim=30)
        cfgs = [c, c2, other]
        mode = rng.choice(["none", "none", "call", "call", "line"]) if max_dim(c) <= 40 else rng.choice(["none", "none", "call"])
        phases = []
        prior = rng.random()
        if prior < 0.35:
            phases.append(phase([proc(rng, "p")], [{"proc": 0, "ops": [{"op": "sweep", "cfg": 1}]}]))
        elif prior < 0.5:
            phases.append(phase([proc(rng, "p")], [{"proc": 0, "ops": [{"op": "fake", "cfg": 2, "seed": seed(rng), "as": "o"}, {"op": "save", "of": "o"}]}]))
        main = len(phases)
        start = rng.choice([None, None, 0])

        def sweep_ops():
            if start is None:
                return [{"op": "sweep", "cfg": 0}]
            return [{"op": "data", "cfg": 0, "as": "d"}, {"op": "sweep", "data": "d"}]
        phases.append(phase([proc(rng, "a")], [{"proc": 0, "ops": sweep_ops()}], mode=mode))
        loads = [{"op": "load", "rel": O.iso_rel(c, nb)} for nb in sectors(c)]
        final = phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": sweep_ops() + loads}])
        dry = yield {"cfgs": cfgs, "phases": phases + [final], "record": True}
        calls = calls_of(dry, main) if mode != "none" else None
        budget = [30 * x + 3_000_000 for x in dry.phase_steps]
        for i in range(3 if tier == "quick" else 10):
            ps = copy.deepcopy(phases)
            again = rng.choice([1, 1, 1, 2, 3])
            tail = []
            for k in range(again):
                ph = copy.deepcopy(phases[main])
                ph["budget"] = budget[main]
                ph["procs"] = [proc(rng, "a", fresh=rng.random() < 0.7 or k == 0)]
                if k and rng.random() < 0.3:
                    ph["threads"][0]["ops"] = [{"op": "sweep", "cfg": 1}] + ph["threads"][0]["ops"]
                w = rng.random()
                if w < 0.45:
                    f = kill_fault(rng, dry, main)
                    if mode != "none" and rng.random() < 0.4:
                        f["at"] = step_position(rng, dry, main, 0, calls)
                elif w < 0.6:
                    f = io_fault(rng, dry, main)
                elif w < 0.7:
                    f = short_fault(rng, dry, main)
                elif w < 0.78:
                    f = {"fault": "fail", "proc": 0, "at": {"eigh": rng.randint(1, max(1, nfs(dry, main)[3]))}}
                else:
                    f = interrupt_fault(rng, dry, main)
                    if mode != "none" and "step" in f["at"]:
                        f["at"] = step_position(rng, dry, main, 0, calls)
                ph["faults"] = [f]
                if rng.random() < 0.1:
                    ph["room"] = rng.randint(0, 40000)
                if rng.random() < 0.35 and f["fault"] != "kill":
                    # the same program simply tries again
                    ph["threads"][0]["ops"] = ph["threads"][0]["ops"] + [ph["threads"][0]["ops"][-1]]
                tail.append(ph)
            fin = copy.deepcopy(final)
            fin["budget"] = budget[-1]
            yield {"cfgs": cfgs, "phases": ps[:main] + tail + [fin]}

    def judge(self, W):
        ws, memo = sweep_writers(W)
        bad, tl = REG.judge(W, ws + REG.explicit_writers(W))
        for r in W.hist:
            if r.op["op"] == "sweep" and r.status == "exc" and not r.fired and W.plan["phases"][r.phase].get("room") is None:
                bad.append(("sweep_failed", "sweep raised %s: %s (%s) although no fault occurred" % (r.exc, r.msg, " < ".join(reversed(r.where or [])))))
        known = {w.rel for w in ws} | {w.rel for w in REG.explicit_writers(W)}
        for t in W.trees:
            for rel in t:
                if rel.startswith("initialComputations/") and rel.rsplit("/", 1)[-1].startswith("tJHam") and rel.endswith(".json") and rel not in known:
                    bad.append(("name", "%s holds a result although no such sector was computed" % rel))
        if not bad:
            for k, (v, got) in memo.items():
                c = W.plan["cfgs"][k[0]]
                if len(v) == 1 and v[0][0] == "lowest":
                    bad.append(v[0])
        return REG.dedup(bad)

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.op["op"] == "sweep" and r.status == "crash":
                out.add("sweep killed")
            if r.op["op"] == "sweep" and r.status == "exc":
                out.add("sweep raised")
        return out


CHECK = C03()
