"""C12: concurrent or earlier calls in one process never change a result."""
from . import general as N
from .common import *
from . import stages as S

WEIGHTS = {"compute": 4, "ham": 3, "diag": 2, "probe": 2, "neel": 2, "blocks": 2, "sweep": 0.8, "save": 0.7, "load": 0.4}


class C12(Check):
    id = "C12"
    units = {"quick": 420, "thorough": 6000}
    text = ("Seeded programs of two to four threads (or of one long sequence of calls) computing, building Hamiltonians, diagonalising, evaluating spin numbers and site "
            "probabilities, embedding, sweeping, saving and loading on shared and distinct configurations, data and results, preempted at chosen calls, loop "
            "iterations and lines; every result is compared with the reference model of its own inputs, and inputs and earlier results are compared before and after.")

    def dynamic(self, rng, tier):
        """Dynamic block embeddings of one stored result in several threads, and once more one after the other."""
        while True:
            c = G.cfg(rng, maxdim=12, mindim=2, shapes=[(2, 1, 1), (3, 1, 1), (3, 1, 1), (2, 2, 1)], tol=1e-9, nb_val=1, style=rng.choice(["phys", "scaled", "random"]))
            c["sel"]["bt"] = True
            if N.dynamic(rng, c, 0.3):
                break
        n, na, nb = O.counts(c)

        def op():
            return {"op": "blocks", "cfg": 0, "sc_tol": 10.0, "max_iter": 1, "dyn": True, "neigh": c["geo"] != [2, 2, 1] or c["nholes"] in (1, 2) or rng.random() < 0.5,
                    "rev": na == nb and rng.random() < 0.7, "neel": False}
        ops = [op() for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < 0.6:
            ops = [dict(ops[0]) for _ in ops]
        phases = [phase([proc(rng, "p")], [{"proc": 0, "ops": [{"op": "compute", "cfg": 0, "as": "b"}, {"op": "save", "of": "b"}]}]),
                  phase([proc(rng, "a")], [{"proc": 0, "ops": [o]} for o in ops], mode=rng.choice(["line", "call"])),
                  phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": [dict(o) for o in ops]}])]
        plan = {"cfgs": [c], "phases": phases, "record": True}
        dry = yield plan
        for i in range(3 if tier == "quick" else 10):
            p = variant(plan, 1, [], interleaving(rng, dry.phase_steps[1], calls_of(dry, 1)), dry)
            p.pop("record", None)
            yield p

    def gen(self, rng, unit, tier):
        if unit % 20 == 13:
            yield from self.dynamic(rng, tier)
            return
        cfgs = N.configurations(rng, rng.choice([8, 12, 24]))
        nt = rng.choice([1, 2, 2, 3, 3, 4])
        datas = [{"op": "data", "cfg": i, "as": "d%d" % i} for i in (0, 1)] + [{"op": "compute", "data": "d%d" % i, "as": "q%d" % i} for i in (0, 1)]
        shared = [("q0", 0), ("q1", 1)]
        twin = rng.random() < 0.3
        threads, allops = [], []
        for t in range(nt):
            if twin and t:
                ops = fix_twin(threads[0]["ops"], t)
            else:
                made = list(shared)
                ops = []
                for j in range(rng.choice([1, 2, 3]) if nt > 1 else rng.choice([4, 6, 8])):
                    ops += N.one_op(rng, cfgs, "r%d%d" % (t, j), WEIGHTS, made, maxiter=2)
            threads.append({"proc": 0, "ops": ops})
            allops += ops
        before = N.stored_before(rng, cfgs, allops)
        mode = rng.choice(["line", "call", "call"])
        phases = [phase([proc(rng, "p")], [{"proc": 0, "ops": before}]), phase([proc(rng, "a")], [{"proc": 0, "ops": datas}]),
                  phase([proc(rng, "a")], threads, mode=mode, late=True),
                  phase([proc(rng, "a")], [{"proc": 0, "ops": datas[2:] + [dict(o) for o in threads[0]["ops"]]}], late=True)]
        plan = {"cfgs": cfgs, "phases": phases, "record": True}
        dry = yield plan
        if nt == 1:
            for i in range(2 if tier == "quick" else 8):
                p = variant(plan, 2, None, None, dry)
                p.pop("record", None)
                rng.shuffle(p["phases"][2]["threads"][0]["ops"])
                yield p
            return
        calls = calls_of(dry, 2)
        n = dry.phase_steps[2]
        for i in range(4 if tier == "quick" else 12):
            s = interleaving(rng, n, calls)
            f = []
            if rng.random() < 0.12:
                f = [{"fault": "interrupt", "proc": 0, "at": {"step": rng.randint(1, max(1, n))}, "exc": "MemoryError"}]
            p = variant(plan, 2, f, s, dry)
            p.pop("record", None)
            yield p

    def judge(self, W):
        return N.judge_all(W)

    def probes(self, W):
        out = set()
        if W.k.nswitch:
            out.add("threads interleaved")
        for ph in W.plan["phases"]:
            if len(ph["threads"]) > 1:
                out.add("%d threads" % len(ph["threads"]))
        live = [r for r in W.hist if r.phase == 2 and r.t1 is not None]
        for a in live:
            for b in live:
                if a.thread < b.thread and a.s0 < b.s1 and b.s0 < a.s1:
                    out.add("%s during %s" % tuple(sorted((a.op["op"], b.op["op"]))))
        return out


def interleaving(rng, n, calls):
    """Preemptions of a phase of n steps."""
    w = rng.random()
    if w < 0.5:
        return schedule(rng, n, rng.choice([2, 5, 12, 25]))
    if w < 0.8:
        # preemptions inside the same few functions
        fn = [rng.choice(sorted(calls)) for _ in range(2)]
        s = sorted({rng.choice(calls[f]) + rng.randint(0, 8): None for f in fn for _ in range(rng.choice([2, 4]))})
        return [[x, rng.randint(0, 7)] for x in s]
    # round robin with a fixed quantum
    q = max(5, n // rng.choice([10, 30, 100, 300]))
    return [[x, 0] for x in range(rng.randint(1, q), n, q)]


def fix_twin(ops, t):
    """The same operations with their own names for what they make."""
    made = {o["as"] for o in ops if "as" in o}
    ren = {m: m + "t%d" % t for m in made}
    return [{k: (ren.get(v, v) if k in ("as", "of", "data") else v) for k, v in o.items()} for o in ops]


CHECK = C12()
