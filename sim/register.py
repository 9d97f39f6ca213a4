"""Result files as atomic registers: judging every content they ever had against the history of saves and loads."""
from . import refmodel as R
from .world import same


def rel_of(snap, kind, flags=(False, False, False)):
    """The name of a result, from its own counts and interaction selection."""
    c = snap["config"]
    if kind == "blocks":
        return "initialComputations/Embedding_blocks/" + R.blocks_name(c["nsites"], c["nalpha"], c["nbeta"], snap["bools"], *flags)
    pre = {"iso": "initialComputations/", "neel": "initialComputations/Peripheral_embedding/"}[kind]
    return pre + R.file_name(c["nsites"], c["nalpha"], c["nbeta"], snap["bools"])


class Writer:
    __slots__ = ("rel", "s0", "s1", "acked", "val", "skip", "what", "match")

    def accepts(self, got):
        if self.match is not None:
            return self.match(got)
        return same(got, self.val, skip=self.skip)


INF = 10 ** 12


def explicit_writers(W):
    """Writers of the save operations."""
    out = []
    for r in W.hist:
        if r.op["op"] != "save" or r.saving is None:
            continue
        out.append(writer_of_save(r))
    return out


def writer_of_save(r):
    w = Writer()
    kind = r.op.get("kind", "iso")
    snap = r.saving
    w.rel = rel_of(snap, kind, r.op.get("flags", [False] * 3))
    w.s0 = r.s0
    w.s1 = r.s1 if r.s1 is not None else r.send if r.send is not None else INF
    w.acked = r.status == "ok"
    w.val = snap
    w.skip = ("guess",) if kind == "iso" else ("guess", "times")
    w.what = "save#%d.%d.%d" % (r.phase, r.thread, r.i)
    w.match = None
    return w


def judge(W, writers, rels=None, read_errors_ok=True):
    """writers: every operation that may store a result.  rels: the registers to judge (default: all of the writers)."""
    bad = []
    by_rel = {}
    for w in writers:
        by_rel.setdefault(w.rel, []).append(w)
    logs = {}
    for q, rel, data, who in W.file_log:
        logs.setdefault(rel, []).append((q, data, who))
    names = sorted(set(by_rel) | set(r for r in logs if r.rsplit("/", 1)[-1].startswith("tJHam")))
    if rels is not None:
        names = [n for n in names if n in rels]
    timeline = {}
    for rel in names:
        ws = by_rel.get(rel, [])
        log = logs.get(rel, [])
        items = [(rel, d) for _, d, _ in log if d is not None]
        dec = iter(W.decode(items))
        tl = [(0, None, "start", [])]
        for q, d, who in log:
            if d is None:
                tl.append((q, None, who, []))
                if who not in ("power", "harness"):
                    if len(tl) > 1 and tl[-2][1] is not None:
                        bad.append(("vanished", "%s was removed by a running program although a result was stored in it" % rel))
                continue
            v = next(dec)
            if who == "harness":
                tl.append((q, v if isinstance(v, dict) else None, who, []))
                continue
            if isinstance(v, tuple):
                bad.append(("torn" if who != "power" else "torn_power",
                            "%s held content that does not load (%s, %d bytes) %s" % (rel, v[1], len(d), "after a power loss" if who == "power" else "during a save")))
                tl.append((q, None, who, []))
                continue
            cands = []
            why = None
            for w in ws:
                if w.s0 < q and (who == "power" or w.s1 >= q):
                    m = w.accepts(v)
                    if m is None:
                        cands.append(w)
                    else:
                        why = why or m
            if not cands:
                other = [w for w in ws if w.accepts(v) is None]
                if other:
                    bad.append(("stale", "%s was overwritten with a result no running operation was saving (%s)" % (rel, other[0].what)))
                else:
                    bad.append(("content", "%s held a result that no operation stored there%s" % (rel, ": differs in %s" % why if why else "")))
            tl.append((q, v, who, cands))
        timeline[rel] = tl
        # acknowledged saves are visible until replaced
        for w in ws:
            if not w.acked:
                continue
            cur = at(tl, w.s1)
            if cur[2] == "harness":
                continue
            if cur[1] is None:
                bad.append(("lost", "%s of %s returned but the file does not hold a result" % (w.what, rel)))
            elif cur[3] and all(z.s1 < w.s0 for z in cur[3]):
                bad.append(("lost", "%s of %s returned but the file still holds an earlier result" % (w.what, rel)))
        for q, v, who, cands in tl[1:]:
            if who == "power" or who == "harness" or v is None:
                continue
            for w in ws:
                if w.acked and w.s1 < q and cands and all(z.s1 < w.s0 for z in cands):
                    bad.append(("stale", "%s went back to a result older than the acknowledged %s" % (rel, w.what)))
        # power loss: never older than what had been forced to disk
        for q, old, new in W.losses:
            sync = max([s for s in W.syncs if s < q], default=None)
            if sync is None:
                continue
            floor = at(tl, sync)
            after = at(tl, q)
            if floor[1] is not None and after[1] is None:
                if not any(b[0] == "torn_power" for b in bad):
                    bad.append(("lost_power", "%s, stored before the disk was synchronised, is gone after a power loss" % rel))
            elif floor[1] is not None and after[2] == "power":
                if all(same(after[1], x[1], skip=("guess",)) is not None for x in tl if x[0] >= floor[0] and x[1] is not None and x[0] < q):
                    bad.append(("lost_power", "%s holds after a power loss a result older than the one synchronised to disk" % rel))
    # loads
    for r in W.hist:
        if r.op["op"] != "load" or r.status in ("skip", "crash", "running"):
            continue
        rel = r.op["rel"]
        if rel not in timeline:
            if rels is None or rel in rels:
                if r.status == "ok":
                    bad.append(("load", "loading %s, which nothing ever stored, returned a result" % rel))
            continue
        vals = window(timeline[rel], r.s0, r.s1)
        if r.status == "ok":
            if any(x[2] == "harness" for x in vals):
                continue
            if not any(x[1] is not None and same(r.val, x[1]) is None for x in vals):
                d = next((same(r.val, x[1]) for x in vals if x[1] is not None), "nothing stored")
                bad.append(("load", "load of %s returned a result that was not stored there at that time (%s)" % (rel, d)))
        elif r.status == "exc" and not r.fired:
            if all(x[1] is not None for x in vals):
                bad.append(("load_failed", "load of %s raised %s: %s although a complete result is stored" % (rel, r.exc, r.msg)))
    return dedup(bad), timeline


def at(tl, q):
    cur = tl[0]
    for e in tl:
        if e[0] <= q:
            cur = e
    return cur


def window(tl, a, b):
    return [at(tl, a)] + [e for e in tl if a < e[0] <= b]


def dedup(bad):
    out = []
    for b in bad:
        if b not in out:
            out.append(b)
    return out


def failed_saves(W, room=False):
    """Saves that failed although nothing was wrong."""
    bad = []
    for r in W.hist:
        if r.op["op"] == "save" and r.status == "exc" and not r.fired and not W.plan["phases"][r.phase].get("room") is not None:
            bad.append(("save_failed", "save raised %s: %s although no fault occurred" % (r.exc, r.msg)))
    return bad
