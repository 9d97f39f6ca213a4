"""C02: saves are all-or-nothing under kills, power loss and I/O errors; concurrent savers and loaders."""
from .common import *
from sim import register as REG


class C02(Check):
    id = "C02"
    units = {"quick": 480, "thorough": 6000}
    text = ("Seeded plans in which one to three simulated programs (one or two threads each) save and load results under the same name, on top of "
            "an earlier result or none; a fault-free execution is followed by variants with kills before, after and inside system calls, machine "
            "crashes with loss of unsynchronised data, I/O errors, short writes, full disks, interrupts, and random interleavings at system calls; "
            "afterwards a new program loads, saves and loads again.")

    def gen(self, rng, unit, tier):
        c = G.cfg(rng, maxdim=rng.choice([6, 20, 40, 90]), nb_val=rng.choice([1, 2, 4]))
        kind = rng.choice(["iso", "iso", "neel", "blocks"])
        flags = rng.choice(FLAGS)
        rel = rel_for(c, kind, flags)
        c2 = dict(c, pars=G.pars(rng, "random"), diag=dict(c["diag"], nb_val=rng.choice([1, 2, 3])), spins=rng.random() < 0.5)
        cfgs = [c, c2]
        real = rng.random() < 0.15

        def make(name):
            if real:
                return {"op": "compute", "cfg": rng.randrange(2), "as": name}
            return {"op": "fake", "cfg": rng.randrange(2), "seed": seed(rng), "as": name}

        def save(name):
            return {"op": "save", "of": name, "kind": kind, "flags": flags}
        load = {"op": "load", "rel": rel, "as": "l"}
        phases = []
        if rng.random() < 0.75:
            phases.append(phase([proc(rng, "a")], [{"proc": 0, "ops": [make("v0"), save("v0")]}]))
        np_ = rng.choice([1, 1, 2, 2, 3])
        procs = [proc(rng, "abc"[i]) for i in range(np_)]
        threads = []
        for i in range(np_):
            for _ in range(rng.choice([1, 1, 2])):
                n = "t%d" % len(threads)
                ops = [make(n), save(n)]
                role = rng.random()
                if np_ > 1 and role < 0.3:
                    ops = [load, load, load]
                elif role < 0.6:
                    ops += [load]
                elif role < 0.75:
                    ops += [make(n + "b"), save(n + "b"), load]
                elif role < 0.85:
                    ops += [save(n)]
                threads.append({"proc": i, "ops": ops})
        main = len(phases)
        phases.append(phase(procs, threads, before=[{"do": "sync"}] if rng.random() < 0.6 else []))
        # afterwards, in a new program, everything works
        phases.append(phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": [load, make("n"), save("n"), load]}]))
        plan = {"cfgs": cfgs, "phases": phases}
        dry = yield plan
        k = 14 if tier == "quick" else 40
        for i in range(k):
            w = rng.random()
            faults, kw = [], {}
            target = rng.randrange(np_)
            if w < 0.30:
                faults = [kill_fault(rng, dry, main, target, machine=False)]
            elif w < 0.45:
                faults = [kill_fault(rng, dry, main, target, machine=True)]
                kw["power_loss"] = [round(rng.random(), 3) for _ in range(12)]
                n = nfs(dry, main, target)[1].get("fsync", 0)
                if n and rng.random() < 0.35:
                    # the disk refuses to make the data durable, later the power goes
                    faults.insert(0, {"fault": "io", "proc": target, "at": {"fskind": "fsync", "n": rng.randint(1, n)}, "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT"])})
            elif w < 0.65:
                faults = [io_fault(rng, dry, main, target)]
                if rng.random() < 0.35:
                    faults.append(io_fault(rng, dry, main, target))
            elif w < 0.75:
                faults = [short_fault(rng, dry, main, target)]
                if rng.random() < 0.5:
                    faults.append(rng.choice([kill_fault, io_fault])(rng, dry, main, target))
            elif w < 0.85:
                sizes = [len(v) for v in dry.trees[main].values()] or [1000]
                kw["room"] = int(max(sizes) * rng.choice([0.0, 0.3, 0.8, 0.99, 1.2, 1.9]))
            elif w < 0.93:
                faults = [interrupt_fault(rng, dry, main, target)]
            sched = []
            if len(threads) > 1 and rng.random() < 0.85:
                sched = schedule(rng, dry.phase_steps[main], rng.choice([1, 2, 4, 8]))
            yield variant(plan, main, faults, sched, dry, **kw)

    def judge(self, W):
        bad, _ = REG.judge(W, REG.explicit_writers(W))
        return bad + REG.failed_saves(W) + unexpected_errors(W, ("fake", "compute"))

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.op["op"] == "save" and r.status == "crash":
                out.add("killed inside a save")
            if r.op["op"] == "save" and r.status == "exc":
                out.add("save failed")
            if r.op["op"] == "load" and r.status == "exc":
                out.add("load found nothing")
        for q, old, new in W.losses:
            out.add("power loss changed a result file" if any(old[k] != new.get(k) for k in old if k.endswith(".json")) else "power loss")
        return out


CHECK = C02()
