"""Shared building blocks of the checks."""
import copy

from sim import gen as G
from sim import oracles as O
from sim import refmodel as R
from sim import register as REG
from sim.engine import Check, phase

ERRNOS = ["EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE", "EROFS"]


def seed(rng):
    return rng.randrange(1, 2 ** 31)


def proc(rng, pid, fresh=False, skew=None):
    p = {"id": pid, "seed": seed(rng)}
    if fresh:
        p["fresh"] = True
    p["skew"] = rng.choice([0.0, 0.0, 3600.0, -86400.0]) if skew is None else skew
    return p


def nfs(W, ph, proc=0):
    """File-system operations, per-kind counts, steps and eigh calls of the proc-th process of a phase."""
    pid = W.plan["phases"][ph]["procs"][proc]["id"]
    d = W.phase_fs[ph]
    k = W.procs[pid].id if pid in W.procs else None
    return d.get(k, next(iter(d.values()), (0, {}, 0, 0)))


def fs_position(rng, W, ph, proc=0):
    n, kinds, _, _ = nfs(W, ph, proc)
    ks = [k for k in ("open-w", "write", "fsync", "rename", "mkdir", "unlink", "open-r", "read", "close") if kinds.get(k)]
    if ks and rng.random() < 0.6:
        k = rng.choice(ks)
        return {"fskind": k, "n": rng.randint(1, kinds[k])}
    return {"fs": rng.randint(1, max(1, n))}


def kill_fault(rng, W, ph, proc=0, machine=None):
    f = {"fault": "kill", "proc": proc, "at": fs_position(rng, W, ph, proc), "when": rng.choice(["before", "after", "after", "torn"]),
         "frac": round(rng.random(), 3)}
    if machine if machine is not None else rng.random() < 0.2:
        f["machine"] = True
    return f


def io_fault(rng, W, ph, proc=0):
    f = {"fault": "io", "proc": proc, "at": fs_position(rng, W, ph, proc), "errno": rng.choice(ERRNOS)}
    if rng.random() < 0.5:
        f["frac"] = round(rng.random(), 3)
    return f


def short_fault(rng, W, ph, proc=0):
    n, kinds, _, _ = nfs(W, ph, proc)
    return {"fault": "short", "proc": proc, "at": {"fskind": "write", "n": rng.randint(1, max(1, kinds.get("write", 1)))}, "frac": round(rng.random(), 3)}


def interrupt_fault(rng, W, ph, proc=0):
    if rng.random() < 0.6:
        at = fs_position(rng, W, ph, proc)
    else:
        at = {"step": rng.randint(1, max(1, nfs(W, ph, proc)[2]))}
    return {"fault": "interrupt", "proc": proc, "at": at, "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}


def step_position(rng, W, ph, proc=0, calls=None):
    """A step of the dry run: uniform, before a line (lines of the source weighted equally), or at the start of a call
    (functions weighted equally)."""
    n = max(1, nfs(W, ph, proc)[2])
    if calls and W.k.rec_lines and rng.random() < 0.5:
        k = W.procs[W.plan["phases"][ph]["procs"][proc]["id"]].id
        steps = [v[1:] for key, v in sorted(W.k.rec_lines.items()) if key[0] == k]
        if steps:
            return {"step": rng.choice(rng.choice(steps))}
    if calls and rng.random() < 0.6:
        names = sorted(calls)
        return {"step": rng.choice(calls[rng.choice(names)]) + rng.randint(0, 6)}
    return {"step": rng.randint(1, n)}


def calls_of(W, ph, proc=0):
    """{function: [steps]} of a recorded run whose only phase with calls is ph."""
    pid = W.plan["phases"][ph]["procs"][proc]["id"]
    k = W.procs[pid].id
    out = {}
    for p, s, f in W.k.rec_calls or ():
        if p == k:
            out.setdefault(f, []).append(s)
    return out


def schedule(rng, steps, n):
    """n preemptions among the steps of a phase, half of them in bursts."""
    out = []
    while len(out) < n and steps > 0:
        s = rng.randint(1, steps)
        out.append([s, rng.randint(0, 7)])
        if rng.random() < 0.3:
            out.append([s + rng.randint(1, 5), rng.randint(0, 7)])
    seen, res = set(), []
    for s, r in sorted(out):
        if s not in seen:
            seen.add(s)
            res.append([s, r])
    return res


def variant(plan, ph, faults=None, sched=None, dry=None, **kw):
    p = copy.deepcopy(plan)
    q = p["phases"][ph]
    if faults is not None:
        q["faults"] = faults
    if sched is not None:
        q["schedule"] = sched
    q.update(kw)
    if dry is not None:
        for i, n in enumerate(dry.phase_steps):
            if i < len(p["phases"]):
                p["phases"][i]["budget"] = 30 * n + 3_000_000
    return p


def rel_for(c, kind, flags):
    return O.save_rel(c, {"kind": kind, "flags": flags})


FLAGS = [[False, False, False], [True, False, False], [False, True, False], [False, False, True], [False, True, True], [True, False, True]]


def env_cfgs(W):
    """(process, name) -> [(seq, cfg index, how)] for every object made by data/compute/fake/neel/blocks operations."""
    out = {}
    for r in W.hist:
        if "as" in r.op and "cfg" in r.op:
            out.setdefault((r.proc, r.op["as"]), []).append((r.s0, r.op["cfg"], r.op["op"]))
    return out


def unexpected_errors(W, ops=None):
    """Operations that raised although no fault hit them."""
    bad = []
    for r in W.hist:
        if r.status != "exc" or r.fired or (ops is not None and r.op["op"] not in ops):
            continue
        if W.plan["phases"][r.phase].get("room") is not None:
            continue
        bad.append(("raised", "%s raised %s: %s (%s) although no fault occurred" % (r.op["op"], r.exc, r.msg, " < ".join(reversed(r.where or [])))))
    return bad


def similar_cfgs(rng, k, maxdim=60, mindim=1, start=None, **kw):
    """Configurations that are easy to mistake for one another: same sites, counts, selections or couplings."""
    out = [start] if start is not None else []
    while len(out) < k:
        if not out or rng.random() < 0.2:
            out.append(G.cfg(rng, maxdim=maxdim, mindim=mindim, **kw))
            continue
        c = dict(rng.choice(out))
        n = O.counts(c)[0]
        w = rng.random()
        if rng.random() < 0.15:
            # as many subblocks, of another size
            g = c["geo"]
            more = [q for q in G.SHAPES + G.BIG + [(2, 2, 2)] if list(q[:2]) == g[:2] and q[2] != g[2]]
            if more:
                g = rng.choice(more)
                m = g[0] * g[1] * g[2] ** 2
                d = [(h, b) for h in range(m + 1) for b in range(m - h + 1) if max(mindim, 2) <= G.dims(m, h, b) <= max(maxdim, 30)]
                c["geo"], (c["nholes"], c["nbeta"]) = list(g), rng.choice(d)
                out.append(c)
                continue
        if w < 0.2:
            c["pars"] = G.pars(rng, "random")
        elif w < 0.4:
            c["sel"] = dict(c["sel"])
            for q in rng.sample(R.SEL, rng.choice([1, 2])):
                c["sel"][q] = not c["sel"][q]
        elif w < 0.6:
            # another lattice with as many sites
            shapes = [g for g in G.SHAPES + (G.BIG if n > 9 or start is not None else []) if g[0] * g[1] * g[2] ** 2 == n]
            c["geo"] = list(rng.choice(shapes))
        elif w < 0.75:
            c["nbeta"] = n - c["nholes"] - c["nbeta"]
        else:
            d = G.cfg(rng, maxdim=maxdim, mindim=mindim, geometry=c["geo"])
            c["nholes"], c["nbeta"] = d["nholes"], d["nbeta"]
            if rng.random() < 0.5:
                c["pars"] = d["pars"]
        out.append(c)
    return out


def retry_ops(ops):
    return [dict(o) for o in ops]
