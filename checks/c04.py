"""C04: later stages consume exactly the result stored for their configuration."""
from . import general as N
from .common import *
from . import stages as S

SHAPES = [(2, 1, 1), (1, 2, 1), (3, 1, 1), (1, 3, 1), (2, 2, 1), (2, 2, 1), (1, 1, 2), (4, 1, 1), (3, 2, 1), (2, 3, 1), (1, 4, 1), (5, 1, 1), (2, 1, 2)]


def is_square(c):
    w, h = O.wh(c)
    return w == h


def stage_op(rng, c, i, plots=True):
    w = rng.random()
    wd, ht = O.wh(c)
    if w < 0.4 or (wd < 2 and w < 0.6):
        return {"op": "neel", "cfg": i, "sc_tol": rng.choice([1e-3, 1e-5, 10.0]), "max_iter": rng.choice([1, 1, 2, 3]),
                "nb_val": rng.choice([None, 1, 2, 4])}
    if w < 0.75 or not plots or wd < 2 or ht < 2:
        return {"op": "blocks", "cfg": i, "sc_tol": rng.choice([10.0, 10.0, 1e-4]), "max_iter": rng.choice([1, 2, 12]), "neel": rng.random() < 0.5,
                "neigh": (rng.random() < 0.5) or not (wd == ht == 2), "rev": rng.random() < 0.5, **dyn_flags(rng, c)}
    fl = {"bool_spectrum": rng.random() < 0.8, "bool_holes": rng.random() < 0.4, "bool_electrons": rng.random() < 0.3,
          "bool_determinants": rng.random() < 0.4}
    if rng.random() < 0.6:
        fl["bool_static_embedding"] = rng.random() < 0.7
        fl["bool_dynamic_embedding"] = rng.random() < 0.25
        fl["bool_neel_embedding"] = rng.random() < 0.4
        fl["bool_neighbor_embedding"] = rng.random() < 0.4
    return {"op": "plots", "cfg": i, "nb_excited": rng.choice([1, 2]), "nb_plot": rng.choice([1, 4]), "flags": fl}


def dyn_flags(rng, c):
    if rng.random() < 0.7 or not N.dynamic(rng, c, 0.15):
        return {}
    n, na, nb = O.counts(c)
    return {"dyn": True, "sc_tol": 10.0, "neigh": O.wh(c) != (2, 2) or c["nholes"] in (1, 2) or rng.random() < 0.5, "rev": na == nb and rng.random() < 0.5}


def sources(c, op):
    """[(kind, flags)] an operation needs."""
    if op["op"] == "neel":
        return [("iso", None)]
    if op["op"] == "blocks":
        return [("neel", None)] if op["neel"] else [("iso", None)]
    out = [("iso", None)]
    if S.wants_emb(op["flags"]):
        f = op["flags"]
        out.append(("blocks", [bool(f.get("bool_dynamic_embedding")), bool(f.get("bool_neel_embedding")), bool(f.get("bool_neighbor_embedding"))]))
    return out


class C04(Check):
    id = "C04"
    units = {"quick": 480, "thorough": 6000}
    text = ("Seeded histories in which several programs store, overwrite and lose results of one configuration, of configurations with other counts or "
            "interaction selections and of the three kinds; then Néel embeddings, block embeddings and figure generations run in the same or other programs, "
            "alone or while another program overwrites their source, hit by kills, I/O errors and interrupts. Each stored result has its own random "
            "Hamiltonian and vectors, so what a stage read is recognised from what it returns, stores and draws.")

    def gen(self, rng, unit, tier):
        c0 = G.cfg(rng, maxdim=20 if rng.random() < 0.7 else 36, mindim=2, shapes=SHAPES, tol=1e-9, nb_val=rng.choice([1, 2, 3, 4]))
        cfgs = [c0]
        n = O.counts(c0)[0]
        for _ in range(rng.choice([1, 2, 3])):
            c = dict(c0)
            w = rng.random()
            if w < 0.5:
                c["sel"] = G.sel(rng, 0.6)
                if rng.random() < 0.4:
                    c["sel"] = dict(c0["sel"])
                    k = rng.choice(R.SEL)
                    c["sel"][k] = not c["sel"][k]
            elif w < 0.75:
                c["nbeta"] = n - c0["nholes"] - c0["nbeta"]
            else:
                c = G.cfg(rng, maxdim=30, geometry=c0["geo"], tol=1e-9, nb_val=2)
                c["sel"] = dict(c0["sel"])
            cfgs.append(c)

        def store(i, kind, flags, t):
            return [{"op": "fake", "cfg": i, "seed": seed(rng), "as": t}, {"op": "save", "of": t, "kind": kind, "flags": flags or [False] * 3}]
        stage = [stage_op(rng, c0, 0) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.4:
            for op in stage:
                op["keep"] = True
        first = []
        names = [0]

        def add(i, kind, flags):
            names[0] += 1
            first.append(store(i, kind, flags, "s%d" % names[0]))
        for op in stage:
            for kind, flags in sources(c0, op):
                if rng.random() < 0.85:
                    add(0, kind, flags)
                    if rng.random() < 0.3:
                        add(0, kind, flags)
        for _ in range(rng.choice([1, 2, 3, 4])):
            add(rng.randrange(len(cfgs)) if rng.random() < 0.4 else rng.randrange(1, len(cfgs)), rng.choice(["iso", "iso", "neel", "blocks"]), rng.choice(FLAGS))
        rng.shuffle(first)
        cut = rng.randint(0, len(first))
        phases = []
        if cut:
            phases.append(phase([proc(rng, "a")], [{"proc": 0, "ops": sum(first[:cut], [])}]))
        same_proc = rng.random() < 0.4
        main = len(phases)
        mode = rng.choice(["none", "none", "call"])
        again = []
        if len(stage) < 3 and rng.random() < 0.35:
            # the sources are replaced by this program or by another one, and the stages run again
            for op in stage:
                for kind, flags in sources(c0, op):
                    if rng.random() < 0.8:
                        names[0] += 1
                        again += store(0, kind, flags, "g%d" % names[0])
            again += [dict(op) for op in stage]
        threads = [{"proc": 0, "ops": sum(first[cut:], []) + stage + again}]
        procs = [proc(rng, "a" if same_proc else "b")]
        if rng.random() < 0.25:
            # another program overwrites the sources meanwhile
            procs.append(proc(rng, "w"))
            more = []
            for k, op in enumerate(stage):
                for kind, flags in sources(c0, op):
                    more += store(0, kind, flags, "w%d%s" % (k, kind))
            threads.append({"proc": 1, "ops": more})
        phases.append(phase(procs, threads, mode=mode))
        loads = [{"op": "load", "rel": S.product_rel(c0, op)} for op in stage if op["op"] != "plots"]
        phases.append(phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": stage + loads}]))
        plan = {"cfgs": cfgs, "phases": phases}
        dry = yield plan
        for i in range(4 if tier == "quick" else 12):
            w = rng.random()
            f = []
            if w < 0.3:
                f = [kill_fault(rng, dry, main)]
            elif w < 0.55:
                f = [io_fault(rng, dry, main)]
            elif w < 0.65:
                f = [short_fault(rng, dry, main)]
            elif w < 0.8:
                f = [interrupt_fault(rng, dry, main)]
            elif main and w < 0.9:
                yield variant(plan, 0, [kill_fault(rng, dry, 0)], None, dry)
                continue
            s = schedule(rng, dry.phase_steps[main], rng.choice([1, 3, 6])) if len(threads) > 1 else []
            yield variant(plan, main, f, s, dry)

    def judge(self, W):
        st = S.Stored(W)
        bad = []
        for r in W.hist:
            if r.op["op"] in S.STAGES:
                bad += S.judge_stage(W, st, r)
        bad += S.same_dynamic(W, st)
        bad += REG.failed_saves(W) + unexpected_errors(W, ("fake",))
        for r in W.hist:
            if r.op["op"] == "load" and r.status == "ok":
                if not any(S.is_value(v) and S.same(r.val, v) is None for v in st.window(r.op["rel"], r.s0, r.s1)):
                    bad.append(("load", "loading %s gave a result that was not stored there" % r.op["rel"]))
        return REG.dedup(bad)

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.op["op"] in S.STAGES:
                out.add("%s %s" % (r.op["op"], {"ok": "completed", "exc": "raised", "crash": "killed"}.get(r.status, r.status)))
                if r.status == "ok" and r.op["op"] == "blocks" and r.val is None:
                    out.add("blocks returned nothing")
        return out


CHECK = C04()
