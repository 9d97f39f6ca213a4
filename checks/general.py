"""Mixed programs and the judgement of every operation in them (C11, C12, C14)."""
import numpy as np

from .common import *
from . import stages as S
from .c03 import sweep_writers, max_dim
from .c06 import judge_diag
from .c07 import judge_probe, vecs

EMB_SHAPES = [(2, 1, 1), (1, 2, 1), (3, 1, 1), (2, 2, 1), (1, 1, 2), (4, 1, 1), (3, 2, 1), (2, 3, 1), (1, 3, 1), (5, 1, 1)]


def configurations(rng, maxdim, sweep=True):
    """[main (its results are stored), pure (never stored, may have a starting guess), swept or None]; no two share a file name."""
    while True:
        m = G.cfg(rng, maxdim=maxdim, mindim=2, shapes=EMB_SHAPES, tol=1e-9, nb_val=rng.choice([1, 2, 3, 3, 9]), style=rng.choice(["phys", "phys", "scaled", "random"]))
        p = G.cfg(rng, maxdim=maxdim, mindim=2, tol=rng.choice([1e-8, 1e-9]), nb_val=rng.choice([1, 2, 3, 3, 9]))
        out = [m, p]
        if sweep:
            s = G.cfg(rng, nsites=(2, 4), maxdim=20, tol=1e-8, nb_val=rng.choice([1, 2, 5]))
            if O.counts(s)[0] == O.counts(m)[0] or max_dim(s) > maxdim:
                continue
            out.append(s)
        break
    if rng.random() < 0.4:
        p["guess"] = {"seed": seed(rng), "more": rng.choice([0, 0, 1])}
    for c in out:
        c["spins"] = rng.random() < 0.6
        if rng.random() < 0.3:
            c["sel"] = {k: True for k in R.SEL}
    if rng.random() < 0.3:
        m["sel"]["bV"] = m["sel"]["bz"] = True
    return out


def can(c, what):
    w, h = O.wh(c)
    return {"blocks": w >= 2, "plots": w >= 2 and h >= 2}.get(what, True)


def dynamic(rng, c, slow=0.1):
    """May the block be embedded dynamically: small, and (no spin reversal for unequal numbers of spins) supported by the package."""
    w, h = O.wh(c)
    if (w, h) not in ((2, 1), (3, 1), (2, 2)) or not c["sel"]["bt"] or O.dim_of(c) < 2:
        return False
    return (w, h) != (2, 2) or c["nholes"] in (0, 3, 4) or rng.random() < slow


def block_flags(rng, c):
    w, h = O.wh(c)
    out = {"neigh": not (w == h == 2) or rng.random() < 0.4, "rev": rng.random() < 0.6, "neel": rng.random() < 0.25}
    if rng.random() < 0.4 and dynamic(rng, c):
        n, na, nb = O.counts(c)
        out["dyn"] = True
        out["rev"] = out["rev"] and na == nb
        if (w, h) == (2, 2) and c["nholes"] in (1, 2):
            out["neigh"] = True
    return out


def one_op(rng, cfgs, nm, weights, made, maxiter=3):
    """A few operations (lists) on the configurations; 'made' lists the results available in this process."""
    m, p = cfgs[0], cfgs[1]
    kinds = [k for k in weights if can(m, k) and not (k == "sweep" and len(cfgs) < 3) and not (k in ("diag", "probe") and not made)]
    kind = rng.choices(kinds, [weights[k] for k in kinds])[0]
    if kind == "compute":
        i = rng.choice([0, 1])
        op = {"op": "compute", "as": nm}
        op.update({"cfg": i} if rng.random() < 0.4 else {"data": "d%d" % i})
        made.append((nm, i))
        return [op]
    if kind == "ham":
        i = rng.choice([0, 1])
        return [{"op": "ham", "cfg": i} if rng.random() < 0.4 else {"op": "ham", "data": "d%d" % i}]
    if kind == "diag":
        r, i = rng.choice(made)
        op = {"op": "diag", "of": r, "nb_val": rng.choice([1, 2, 3]), "tol": 1e-8, "dim_max": 0}
        if rng.random() < 0.4:
            k = min(op["nb_val"], O.dim_of(cfgs[i]))
            op["guess"] = {"kind": "random", "seed": seed(rng), "cols": k, "scale": 1.0}
        return [op]
    if kind == "probe":
        r, i = rng.choice(made)
        return [{"op": "probe", "of": r, "vecs": vecs(rng, O.want_states(cfgs[i]))}]
    if kind == "sweep":
        return [{"op": "sweep", "cfg": 2}] if rng.random() < 0.5 else [{"op": "data", "cfg": 2, "as": "s" + nm}, {"op": "sweep", "data": "s" + nm}]
    if kind == "save":
        made.append((nm, 0))
        return [{"op": "compute", "cfg": 0, "as": nm}, {"op": "save", "of": nm}]
    if kind == "load":
        return [{"op": "load", "rel": O.iso_rel(m), "as": "l" + nm}]
    src = {"cfg": 0} if rng.random() < 0.6 else {"data": "d0"}
    if kind == "neel":
        return [dict({"op": "neel", "sc_tol": rng.choice([1e-2, 1e-3, 1e-5, 10.0]), "max_iter": rng.randint(1, maxiter), "nb_val": rng.choice([None, 1, 2])}, **src)]
    if kind == "blocks":
        op = dict({"op": "blocks", "sc_tol": rng.choice([10.0, 10.0, 1e-1, 1e-3]), "max_iter": rng.choice([1, 2, 6])}, **block_flags(rng, m), **src)
        if op.get("dyn"):
            op["sc_tol"], op["max_iter"] = (10.0, op["max_iter"]) if rng.random() < 0.8 else (1e-3, 2)
        return [op]
    if kind == "plots":
        fl = {"bool_spectrum": rng.random() < 0.8, "bool_holes": rng.random() < 0.4, "bool_electrons": rng.random() < 0.3, "bool_determinants": rng.random() < 0.4}
        return [dict({"op": "plots", "nb_excited": rng.choice([1, 2]), "nb_plot": rng.choice([1, 4]), "flags": fl}, **src)]
    raise ValueError(kind)


def stored_before(rng, cfgs, ops):
    """Operations that store what the given operations start from."""
    fake = rng.random() < 0.3
    out = []
    if any(o["op"] in ("neel", "blocks", "plots", "load") for o in ops):
        out += [{"op": "fake", "cfg": 0, "seed": seed(rng), "as": "b"} if fake else {"op": "compute", "cfg": 0, "as": "b"}, {"op": "save", "of": "b"}]
    if any(o["op"] == "blocks" and o.get("neel") for o in ops):
        out += [{"op": "fake", "cfg": 0, "seed": seed(rng), "as": "n"}, {"op": "save", "of": "n", "kind": "neel"}]
    return out


# ------------------------------------------------------------------ judgement
def judge_inputs(W):
    """Arguments and results given to a function are the same afterwards."""
    bad = []
    for r in W.hist:
        if r.before is None or r.after is None:
            continue
        me = "%s#%d.%d.%d (%s): " % (r.op["op"], r.phase, r.thread, r.i, r.status)
        for k in r.before:
            skip = ()
            if r.op["op"] == "sweep":
                skip = ("config", "guess")
                x, y = r.before[k]["config"], r.after[k]["config"]
                for q in ("nsites", "nholes", "nbh", "nbv", "nblocs_side", "lattice_type", "sites_restriction", "bond_matrix"):
                    if x[q] != y[q]:
                        bad.append(("input", me + "%s of the configuration changed" % q))
            elif r.op["op"] == "save":
                skip = ("guess",)
            d = S.same(r.before[k], r.after[k], skip=skip)
            if d:
                bad.append(("input", me + "%s of the given %s changed" % (d, k)))
    return bad


def judge_late(W):
    """Results handed out earlier are still what they were (up to the starting guess, which a save discards)."""
    bad = []
    for r in W.hist:
        if r.late is None or r.val is None or r.op["op"] not in ("compute", "load", "neel", "blocks", "fake"):
            continue
        d = S.same(r.late, r.val, skip=("guess",))
        if d:
            bad.append(("late", "%s of the result of %s#%d.%d.%d changed afterwards" % (d, r.op["op"], r.phase, r.thread, r.i)))
    return bad


def judge_all(W, skip_lowest=False):
    """Every completed operation gave and stored a correct result; nothing failed without a fault."""
    st = S.Stored(W)
    bad, soft = [], []
    stage_rels = set()
    loaded = {}
    for r in W.hist:
        me = "%s#%d.%d.%d: " % (r.op["op"], r.phase, r.thread, r.i)
        op = r.op["op"]
        c = S.cfg_of(W, r)
        room = W.plan["phases"][r.phase].get("room") is not None
        if op == "load" and r.status == "ok" and r.op.get("as"):
            loaded[(r.proc, r.op["as"])] = r.val
        if r.status == "ok":
            if op == "compute" and c is not None:
                b = O.check_isolated(r.val, c, None, me)
            elif op == "ham" and c is not None:
                b = O.check_ham(r.val, c, None, me)
            elif op == "diag":
                b = judge_diag(r, me)
            elif op == "probe":
                b = judge_probe(r.val, me)
            else:
                b = []
            bad += [x for x in b if x[0] not in ("lowest", "followed")]
            soft += [x for x in b if x[0] in ("lowest", "followed")]
        if op in S.STAGES and c is not None:
            if op != "plots":
                stage_rels.add(S.product_rel(c, r.op))
            b = S.judge_stage(W, st, r, lowest=not skip_lowest)
            bad += [x for x in b if x[0] not in ("lowest", "followed")]
            soft += [x for x in b if x[0] in ("lowest", "followed")]
        elif op == "load":
            win = st.window(r.op["rel"], r.s0, S.end_of(r))
            if r.status == "ok" and not any(S.is_value(v) and S.same(r.val, v) is None for v in win):
                bad.append(("load", me + "gave a result that was not stored in %s" % r.op["rel"]))
            if r.status == "exc" and not r.fired and win and all(S.is_value(v) for v in win):
                bad.append(("load", me + "raised %s: %s although a result is stored in %s" % (r.exc, r.msg, r.op["rel"])))
        elif r.status == "exc" and not r.fired and not room:
            bad.append(("raised", me + "raised %s: %s (%s) although nothing failed" % (r.exc, r.msg, " < ".join(reversed(r.where or [])))))
        # only operations that store something touch result files
        if op in ("compute", "ham", "diag", "probe", "load", "data", "fake", "plots"):
            e = S.end_of(r)
            if not any(q is not r and q.kpid == r.kpid and q.s0 < e and S.end_of(q) > r.s0 for q in W.hist):
                mine = [rel for q, rel, d, who in W.file_log if who == r.kpid and r.s0 < q <= e]
                if mine:
                    bad.append(("changed", me + "changed %s" % mine[0]))
    sw, memo = sweep_writers(W)
    ws = sw + REG.explicit_writers(W)
    b, _ = REG.judge(W, ws, rels={w.rel for w in ws} - stage_rels)
    bad += b
    for k, (v, got) in memo.items():
        soft += [x for x in v if x[0] in ("lowest", "followed")][:1]
    known = {w.rel for w in ws} | stage_rels
    for q, rel, d, who in W.file_log:
        if rel not in known and rel.rsplit("/", 1)[-1].startswith("tJHam") and rel.endswith(".json") and who != "harness":
            bad.append(("name", "%s was written although no operation stores a result there" % rel))
    bad += REG.failed_saves(W)
    bad += judge_inputs(W) + judge_late(W) + S.same_dynamic(W, st)
    return REG.dedup(bad + ([] if bad else soft))
