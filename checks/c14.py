"""C14: failures are reported and never turn into wrong results."""
from . import general as N
from .common import *
from . import stages as S

WEIGHTS = {"compute": 2, "ham": 0.5, "diag": 1.5, "probe": 0.7, "sweep": 2, "neel": 3, "blocks": 3, "save": 3, "load": 2, "plots": 1.5}
TAILS = ["", "", "", "}", "]}", "{}", "null", "[]", "\x00\x00\x00", "0", "\"x\"", "{\"configuration\": {}}"]


class C14(Check):
    id = "C14"
    units = {"quick": 460, "thorough": 6000}
    text = ("Seeded programs of computations, saves, loads, sweeps, embeddings and figures during which one or two system calls, eigensolver calls or "
            "allocations fail, the disk fills up, writes are short, or the stored files they need are missing, truncated or not results; every operation must raise "
            "or be right and stored, without looping, and the same operations must succeed afterwards in the same program and in a new one.")

    def gen(self, rng, unit, tier):
        cfgs = N.configurations(rng, rng.choice([8, 12, 24]))
        made, ops = [], []
        for j in range(rng.choice([1, 2, 3])):
            ops += N.one_op(rng, cfgs, "r%d" % j, WEIGHTS, made)
        datas = [{"op": "data", "cfg": i, "as": "d%d" % i} for i in (0, 1)]
        before = N.stored_before(rng, cfgs, ops)
        plots = any(o["op"] == "plots" for o in ops)
        mode = rng.choice(["none", "none", "call", "line"])
        again = [dict(o) for o in ops]
        refill = [dict(o) for o in before]
        # the program has already done the same before
        warm = [dict(o) for o in ops] if rng.random() < 0.4 else []
        phases = [phase([proc(rng, "p")], [{"proc": 0, "ops": before}]), phase([proc(rng, "a")], [{"proc": 0, "ops": datas + warm}]),
                  phase([proc(rng, "a")], [{"proc": 0, "ops": ops}], mode=mode),
                  phase([proc(rng, "p2", fresh=True)], [{"proc": 0, "ops": refill}]),
                  phase([proc(rng, "a")], [{"proc": 0, "ops": again}]),
                  phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": datas + [dict(o) for o in ops]}])]
        plan = {"cfgs": cfgs, "phases": phases, "record": mode != "none"}
        dry = yield plan
        calls = calls_of(dry, 2) if mode != "none" else None
        n, kinds, steps, eighs = nfs(dry, 2)
        need = []
        if before:
            need.append(O.iso_rel(cfgs[0]))
            if any(o.get("kind") == "neel" for o in before):
                need.append(O.neel_rel(cfgs[0]))
        for i in range(6 if tier == "quick" else 16):
            f, acts, room = [], [], None
            for _ in range(rng.choice([1, 1, 2])):
                w = rng.random()
                if w < 0.4 and n:
                    f.append(io_fault(rng, dry, 2))
                elif w < 0.5 and kinds.get("write"):
                    f.append(short_fault(rng, dry, 2))
                elif w < 0.65 and eighs:
                    f.append({"fault": "fail", "proc": 0, "at": {rng.choice(["eigh", "eigh", "qr"]): rng.randint(1, eighs)}})
                elif w < 0.8 and mode != "none":
                    f.append({"fault": "interrupt", "proc": 0, "at": step_position(rng, dry, 2, 0, calls), "exc": "MemoryError"})
                elif w < 0.93 and need:
                    rel = rng.choice(need)
                    acts.append({"do": "truncate", "rel": rel, "frac": rng.choice([0.0, 0.0, round(rng.random(), 3), round(1 - rng.random() * 1e-3, 6), 0.5]), "tail": rng.choice(TAILS)}
                                if rng.random() < 0.8 else {"do": "remove", "rel": rel})
                elif kinds.get("write"):
                    room = rng.randint(0, rng.choice([500, 5000, 40000]))
                elif n:
                    f.append(io_fault(rng, dry, 2))
            p = variant(plan, 2, f, None, dry)
            p.pop("record", None)
            if acts:
                p["phases"][2]["before"] = acts
            if room is not None:
                p["phases"][2]["room"] = room
            if rng.random() < 0.3:
                # the program itself tries again at once
                p["phases"][2]["threads"][0]["ops"] = [x for o in ops for x in ((o, dict(o)) if o["op"] != "data" else (o,))]
            yield p

    def judge(self, W):
        return N.judge_all(W)

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.fired:
                out.add("%s %s after a fault" % (r.op["op"], {"ok": "completed", "exc": "raised"}.get(r.status, r.status)))
            elif r.status == "exc" and r.op["op"] in ("load", "neel", "blocks", "plots"):
                out.add("%s raised for lack of a stored result" % r.op["op"])
        return out


CHECK = C14()
