"""C13: figures show the stored results and never alter them."""
from .common import *
from . import stages as S

SHAPES = [(2, 2, 1), (2, 2, 1), (1, 1, 2), (3, 2, 1), (2, 3, 1), (4, 2, 1), (3, 3, 1), (1, 1, 3), (2, 1, 2), (1, 2, 2)]
DIRS = ["tJ-HamCsr", "tJ-HamCsr/tJ-H%d", "tJ-HamCsr/tJ-H%d/Spectrum", "tJ-HamCsr/tJ-H%d/HolePresenceProbability", "tJ-HamCsr/tJ-H%d/SpinDistribution",
        "tJ-HamCsr/tJ-H%d/SpinDistribution/GroundState", "tJ-HamCsr/tJ-H%d/DeterminantsAmplitude", "tJ-HamCsr/tJ-H%d/AmplitudesStaticEmbeddingNeel"]


def flags(rng, emb, light=False):
    fl = {"bool_spectrum": rng.random() < 0.8, "bool_holes": rng.random() < (0.3 if light else 0.6), "bool_electrons": rng.random() < (0.15 if light else 0.45),
          "bool_determinants": rng.random() < 0.5}
    if emb and rng.random() < 0.6:
        k = rng.random()
        if k < 0.6:
            fl["bool_static_embedding" if k < 0.45 else "bool_dynamic_embedding"] = True
        else:
            fl["bool_neel_embedding"] = True
        if rng.random() < 0.3:
            fl["bool_static_embedding"] = fl["bool_neel_embedding"] = True
        fl["bool_neighbor_embedding"] = rng.random() < 0.4
    return fl


class C13(Check):
    id = "C13"
    units = {"quick": 260, "thorough": 5000}
    text = ("Seeded histories store results of a configuration, of all sectors of its lattice and of other configurations, then one or two programs generate the "
            "figures of the configuration or of all sectors into missing or existing directories, concurrently, killed, interrupted, short of disk space or hit by I/O "
            "errors, and once more in the same and in a new program; what is handed to the renderer and the files left on disk are compared with the stored results.")

    def gen(self, rng, unit, tier):
        every = rng.random() < 0.25
        while True:
            c = G.cfg(rng, maxdim=30 if every else rng.choice([12, 30, 60, 90]), mindim=1, shapes=SHAPES, nb_val=rng.choice([1, 2, 3, 4, 6]), nsites=(4, 4) if every else None)
            n = O.counts(c)[0]
            if not every or n - c["nholes"] <= 4:
                break
        if not every and unit % 10 == 3:
            c = G.big(rng, maxdim=60, mindim=1, shapes=[g for g in G.BIG if min(g[0], g[1]) * g[2] > 1], nb_val=rng.choice([1, 2, 4]))
            n = O.counts(c)[0]
        other = dict(c, nbeta=rng.choice([b for b in range(n - c["nholes"] + 1) if O.dim_of(c, b) <= 90]), pars=G.pars(rng, "random"))
        cfgs = [c, other]
        emb = rng.random() < 0.6
        k = [0]

        def store(i, kind="iso", fl=None):
            k[0] += 1
            return [{"op": "fake", "cfg": i, "seed": seed(rng), "as": "s%d" % k[0], "levels": rng.choice([None, "equal", "close"])}, {"op": "save", "of": "s%d" % k[0], "kind": kind, "flags": fl or [False] * 3}]
        ops = []
        for _ in range(1 if every else rng.choice([1, 1, 2])):
            o = {"op": "plots", "cfg": 0, "nb_excited": rng.choice([0, 1, 2] if every else [0, 1, 2, 2, 3, 7]), "nb_plot": rng.choice([1, 1, 2, 4, 5]), "flags": flags(rng, emb, every)}
            if every:
                o["all"] = True
            ops.append(o)
        if rng.random() < 0.4:
            for o in ops:
                o["keep"] = True
        emb_flags = sorted({tuple([bool(o["flags"].get("bool_dynamic_embedding")), bool(o["flags"].get("bool_neel_embedding")), bool(o["flags"].get("bool_neighbor_embedding"))])
                            for o in ops if S.wants_emb(o["flags"])})
        before = []
        if every:
            secs = list(range(n - c["nholes"] + 1))
            if rng.random() < 0.15:
                secs.remove(rng.choice(secs))           # one sector is missing
            if rng.random() < 0.25:
                before.append([{"op": "sweep", "cfg": 0}])
                secs = [] if not emb_flags else secs
                for nb in secs:
                    cfgs.append(dict(c, nbeta=nb))
                    for f in emb_flags:
                        before.append(store(len(cfgs) - 1, "blocks", list(f)))
            else:
                for nb in secs:
                    cfgs.append(dict(c, nbeta=nb))
                    before.append(store(len(cfgs) - 1))
                    for f in emb_flags:
                        before.append(store(len(cfgs) - 1, "blocks", list(f)))
        else:
            if rng.random() < 0.92:
                before.append(store(0) if rng.random() < 0.75 else [{"op": "compute", "cfg": 0, "as": "r"}, {"op": "save", "of": "r"}])
            for f in emb_flags:
                if rng.random() < 0.92:
                    before.append(store(0, "blocks", list(f)))
            if rng.random() < 0.4 and O.iso_rel(other) != O.iso_rel(c):
                before.append(store(1))
                before.append(store(1, "blocks", rng.choice(FLAGS)))
        rng.shuffle(before)
        acts = [{"do": "mkdir", "rel": d % n if "%" in d else d} for d in DIRS if rng.random() < 0.3] if rng.random() < 0.5 else []
        procs = [proc(rng, "a")]
        threads = [{"proc": 0, "ops": ops}]
        if rng.random() < 0.35:
            procs.append(proc(rng, "b"))
            threads.append({"proc": 1, "ops": [dict(o) for o in ops]})
        # the stored result is replaced between two generations
        swap = sum([store(0)], []) if rng.random() < 0.3 and not every else []
        phases = [phase([proc(rng, rng.choice(["p", "a"]))], [{"proc": 0, "ops": sum(before, [])}]),
                  phase(procs, threads, mode=rng.choice(["none", "none", "call"]), before=acts),
                  phase([proc(rng, "w", fresh=True)], [{"proc": 0, "ops": swap}]),
                  phase([proc(rng, "a")], [{"proc": 0, "ops": [dict(o) for o in ops]}]),
                  phase([proc(rng, "z", fresh=True)], [{"proc": 0, "ops": [dict(o) for o in ops]}])]
        plan = {"cfgs": cfgs, "phases": phases}
        dry = yield plan
        for i in range((2 if every else 3) if tier == "quick" else 10):
            f, kw = [], {}
            w = rng.random()
            if w < 0.3:
                f = [kill_fault(rng, dry, 1)]
            elif w < 0.6:
                f = [io_fault(rng, dry, 1)]
                if rng.random() < 0.3:
                    f.append(io_fault(rng, dry, 1))
            elif w < 0.68:
                f = [short_fault(rng, dry, 1)]
            elif w < 0.83:
                f = [interrupt_fault(rng, dry, 1)]
            elif w < 0.9:
                kw["room"] = rng.randint(0, 300)
            s = schedule(rng, dry.phase_steps[1], rng.choice([2, 5, 12])) if len(threads) > 1 else []
            yield variant(plan, 1, f, s, dry, **kw)

    def judge(self, W):
        st = S.Stored(W)
        bad = []
        for r in W.hist:
            if r.op["op"] == "plots":
                bad += S.judge_stage(W, st, r)
                if r.status == "ok":
                    bad += on_disk(W, r)
        bad += REG.failed_saves(W) + unexpected_errors(W, ("fake", "sweep", "compute"))
        return REG.dedup(bad)

    def probes(self, W):
        out = set()
        for r in W.hist:
            if r.op["op"] == "plots":
                out.add("%s %s" % ("all sectors" if r.op.get("all") else "figures", {"ok": "drawn", "exc": "not drawn", "crash": "killed"}.get(r.status, r.status)))
                for d in r.drawn or ():
                    out.add("drew " + d["path"].rsplit("/", 2)[-2])
        if W.k.nswitch:
            out.add("programs interleaved")
        return out


def on_disk(W, r):
    """The figures an operation drew are in their files when it is over (unless drawn again since)."""
    bad = []
    cwd = W.k.fs.CWD + "/"
    last = {}
    for d in r.drawn or ():
        last[d["path"]] = d
    tree = W.trees[r.phase]
    for p, d in last.items():
        rel = p[len(cwd):]
        later = [q for q in W.hist if q is not r and q.phase == r.phase and q.op["op"] == "plots" and S.end_of(q) > r.s0]
        if any(q.status in ("crash", "exc") for q in later):
            continue
        ok = {d["body"]} | {x["body"] for q in later for x in q.drawn or () if x["path"] == p}
        if tree.get(rel) not in ok:
            bad.append(("figure_file", "plots#%d.%d.%d: %s is %s when the generation has returned" %
                        (r.phase, r.thread, r.i, rel, "missing" if rel not in tree else "incomplete")))
    return bad


CHECK = C13()
