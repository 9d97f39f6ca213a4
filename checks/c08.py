"""C08: Néel embedding follows the self-consistent mean field and terminates."""
from .common import *
from . import stages as S

SHAPES = [(2, 1, 1), (1, 2, 1), (3, 1, 1), (1, 3, 1), (2, 2, 1), (2, 2, 1), (1, 1, 2), (4, 1, 1), (3, 2, 1), (3, 2, 1), (2, 3, 1), (2, 3, 1), (1, 4, 1),
          (5, 1, 1), (1, 5, 1), (2, 1, 2), (1, 2, 2), (4, 2, 1), (3, 3, 1), (1, 1, 3)]


class C08(Check):
    id = "C08"
    units = {"quick": 260, "thorough": 6000}
    text = ("Seeded programs compute and store an isolated result and embed it in the Néel mean field, with seeded random starts of the diagonaliser, several "
            "tolerances, iteration limits and numbers of states, killed, interrupted or hit by faults at system calls and at lines of the embedding, and rerun in the "
            "same or a new program; every result returned or stored is compared with an independent iteration of the mean field.")
    op = "neel"

    def one(self, rng, c, i):
        return {"op": "neel", "cfg": i, "sc_tol": rng.choice([1e-2, 1e-3, 1e-3, 1e-4, 1e-5, 0.3, 10.0]), "max_iter": rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) if rng.random() < 0.97 else 30,
                "nb_val": rng.choice([None, None, 1, 2, 4])}

    def configuration(self, rng, unit):
        big = unit % 20 == 0
        if unit % 20 == 10:
            return G.big(rng, maxdim=rng.choice([20, 50]), mindim=2, shapes=G.RING, tol=1e-9, nb_val=rng.choice([1, 2]), style=rng.choice(["phys", "scaled", "random"]))
        return G.cfg(rng, maxdim=200 if big else rng.choice([12, 12, 24, 36, 60]), mindim=100 if big else 2, shapes=SHAPES, tol=rng.choice([1e-9, 1e-9, 1e-7]),
                     nb_val=rng.choice([1, 2, 3]), style=rng.choice(["phys", "phys", "scaled", "random"]), holes=rng.choice([None, None, [0, 1, 2]]))

    def prepare(self, rng, c, fake, ops):
        """Operations storing the results the embeddings start from."""
        return [{"op": "fake", "cfg": 0, "seed": seed(rng), "as": "s"} if fake else {"op": "compute", "cfg": 0, "as": "s"}, {"op": "save", "of": "s"}]

    def loads(self, c, ops):
        return [{"op": "load", "rel": rel} for rel in sorted({S.product_rel(c, o) for o in ops})]

    def gen(self, rng, unit, tier):
        c = self.configuration(rng, unit)
        c["spins"] = rng.random() < 0.3
        if rng.random() < 0.3:
            c["sel"]["bV"] = c["sel"]["bz"] = True
        big = O.dim_of(c) > 80
        ops = [self.one(rng, c, 0) for _ in range(1 if big else rng.choice([1, 1, 2]))]
        if big:
            for o in ops:
                o["max_iter"] = min(o["max_iter"], 3)
        fake = rng.random() < 0.15
        prep = self.prepare(rng, c, fake, ops)
        mode = "none" if O.dim_of(c) > 40 else rng.choice(["none", "call", "line"])
        pa = "p" if rng.random() < 0.5 else "a"
        threads = [{"proc": 0, "ops": ops}]
        procs = [proc(rng, "a")]
        if rng.random() < 0.2 and not big:
            # a second program embeds the same result meanwhile
            procs.append(proc(rng, "b"))
            threads.append({"proc": 1, "ops": [self.one(rng, c, 0) for _ in ops]})
        phases = [phase([proc(rng, pa)], [{"proc": 0, "ops": prep}]), phase(procs, threads, mode=mode),
                  phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": self.loads(c, ops) + ops[:1] + self.loads(c, ops[:1])}])]
        cfgs = [c]
        if not fake and rng.random() < 0.2:
            # the request has other couplings than the stored result
            cfgs.append(copy.deepcopy(c))
            f = G.cfg(rng, maxdim=12, style=rng.choice(["phys", "scaled", "random"]))["pars"]
            for q in rng.sample(sorted(f), rng.choice([1, 3, len(f)])):
                cfgs[1]["pars"][q] = f[q]
            for t in threads:
                for o in t["ops"]:
                    o["cfg"] = 1
        plan = {"cfgs": cfgs, "phases": phases, "record": mode != "none"}
        dry = yield plan
        calls = calls_of(dry, 1) if mode != "none" else None
        for i in range((1 if big else 3) if tier == "quick" else 10):
            w = rng.random()
            at = step_position(rng, dry, 1, 0, calls) if mode != "none" and rng.random() < 0.6 else fs_position(rng, dry, 1)
            f = []
            if w < 0.25:
                f = [kill_fault(rng, dry, 1)]
                if rng.random() < 0.5:
                    f[0]["at"] = at
            elif w < 0.4:
                f = [io_fault(rng, dry, 1)]
            elif w < 0.48:
                f = [short_fault(rng, dry, 1)]
            elif w < 0.7:
                f = [{"fault": "interrupt", "proc": 0, "at": at, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]
            elif w < 0.82:
                f = [{"fault": "fail", "proc": 0, "at": {"eigh": rng.randint(1, max(1, nfs(dry, 1)[3]))}}]
            s = schedule(rng, dry.phase_steps[1], rng.choice([2, 5, 10])) if len(threads) > 1 else []
            p = variant(plan, 1, f, s, dry)
            p.pop("record", None)
            if rng.random() < 0.4 and f:
                t = p["phases"][1]["threads"][0]["ops"]
                p["phases"][1]["threads"][0]["ops"] = [x for o in t for x in (o, dict(o))]
            if rng.random() < 0.3:
                p["phases"][1]["procs"][0]["seed"] = seed(rng)
            if rng.random() < 0.15:
                p["phases"][1]["power_loss"] = [round(rng.random(), 3) for _ in range(12)]
            yield p

    def judge(self, W):
        st = S.Stored(W)
        bad = []
        alone = all(len(ph["threads"]) == 1 for ph in W.plan["phases"])
        for r in W.hist:
            if r.op["op"] in S.STAGES:
                bad += S.judge_stage(W, st, r, lowest=True)
            elif r.op["op"] == "load" and r.status == "ok":
                if not any(S.is_value(v) and S.same(r.val, v) is None for v in st.window(r.op["rel"], r.s0, r.s1)):
                    bad.append(("load", "loading %s gave a result that was not stored there" % r.op["rel"]))
        bad += REG.failed_saves(W) + unexpected_errors(W, ("fake", "compute"))
        if alone:
            bad += untouched(W)
        return REG.dedup(bad)

    def probes(self, W):
        out = set()
        st = None
        for r in W.hist:
            if r.op["op"] == self.op:
                out.add("embedding %s" % {"ok": "completed", "exc": "raised", "crash": "killed"}.get(r.status, r.status))
                if r.status == "ok" and r.val is None:
                    out.add("embedding did not converge")
                if r.status == "ok" and r.val is not None:
                    st = st or S.Stored(W)
                    c = W.plan["cfgs"][r.op["cfg"]]
                    src = [v for v in st.window(S.source_rel(c, r.op), r.s0, r.s1) if S.is_value(v)]
                    if src:
                        t, why, rel = S.trajectory(r.op["op"], c, r.op, src[-1], 8 if r.op["op"] == "neel" else 12, c["diag"]["tol"])
                        out.add("%s after %s iterations%s" % (why, len(t) if len(t) < 4 else "4 or more", "" if rel is not None else " (not decidable)"))
        return out


def untouched(W):
    """A file changes only in the operation that produces it, and not any more once that operation has failed."""
    bad = []
    for q, rel, d, who in W.file_log:
        if who in ("power", "harness"):
            continue
        own = [r for r in W.hist if r.s0 < q <= S.end_of(r) and r.kpid == who]
        if own and own[0].op["op"] in ("load", "data", "compute", "fake"):
            bad.append(("changed", "%s changed %s" % (own[0].op["op"], rel)))
    return bad


CHECK = C08()
