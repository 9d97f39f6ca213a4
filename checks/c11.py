"""C11: interrupted computations leave inputs intact and can simply be retried."""
from . import general as N
from .common import *
from . import stages as S

WEIGHTS = {"compute": 4, "ham": 1.5, "diag": 2, "probe": 1, "sweep": 1.2, "neel": 2.5, "blocks": 2.5, "save": 0.8, "load": 0.5, "plots": 0.6}


class C11(Check):
    id = "C11"
    units = {"quick": 420, "thorough": 6000}
    text = ("Seeded programs of computations, Hamiltonian constructions, diagonalisations, sweeps, embeddings, figures, saves and loads in which every operation is "
            "called several times on the same objects and interrupted once or several times (keyboard interrupt, exhausted memory) at any line, call, loop "
            "iteration or system call; arguments, earlier results and stored results are compared before and after, and every call that completes, in the same "
            "process or in a new one, is judged like an undisturbed one.")

    def gen(self, rng, unit, tier):
        cfgs = N.configurations(rng, rng.choice([8, 12, 24]))
        made, ops = [], []
        for j in range(rng.choice([1, 2, 3])):
            ops += N.one_op(rng, cfgs, "r%d" % j, WEIGHTS, made)
        plots = any(o["op"] == "plots" for o in ops)
        datas = [{"op": "data", "cfg": i, "as": "d%d" % i} for i in (0, 1)]
        before = N.stored_before(rng, cfgs, ops)
        tries = [x for o in ops for x in [o] + [dict(o)] * (rng.choice([1, 1, 2]) if o["op"] != "data" else 0)]
        mode = rng.choice(["line", "line", "call"]) if not plots else rng.choice(["line", "call"])
        phases = [phase([proc(rng, "p")], [{"proc": 0, "ops": before}]), phase([proc(rng, "a")], [{"proc": 0, "ops": datas}]),
                  phase([proc(rng, "a")], [{"proc": 0, "ops": tries}], mode=mode, late=True),
                  phase([proc(rng, "a"), proc(rng, "z", fresh=True)], [{"proc": 0, "ops": [dict(o) for o in ops]},
                                                                      {"proc": 1, "ops": datas + [dict(o) for o in ops if o["op"] != "sweep" or "cfg" in o]}], late=True)]
        if plots:
            # figures are drawn one program after the other
            last = phases.pop()
            phases += [phase([last["procs"][k]], [dict(last["threads"][k], proc=0)], late=True) for k in (0, 1)]
        plan = {"cfgs": cfgs, "phases": phases, "record": True}
        dry = yield plan
        calls = calls_of(dry, 2)
        for i in range(4 if tier == "quick" else 12):
            f = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                at = fs_position(rng, dry, 2) if rng.random() < 0.15 else step_position(rng, dry, 2, 0, calls)
                f.append({"fault": "interrupt", "proc": 0, "at": at, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
            p = variant(plan, 2, f, None, dry)
            p.pop("record", None)
            yield p

    def judge(self, W):
        bad = []
        for r in W.hist:
            ints = [f.split(":")[1] for f in r.fired or () if f.startswith("interrupt:")]
            if not ints:
                continue
            me = "%s#%d.%d.%d: " % (r.op["op"], r.phase, r.thread, r.i)
            if r.status == "ok":
                bad.append(("swallowed", me + "completed although a %s was delivered to it" % ints[0]))
            elif r.status == "exc" and r.exc not in ints:
                bad.append(("converted", me + "raised %s: %s although a %s was delivered to it" % (r.exc, r.msg, ints[0])))
        return REG.dedup(bad + N.judge_all(W))

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.fired and r.status == "exc":
                out.add("%s interrupted" % r.op["op"])
        return out


CHECK = C11()
