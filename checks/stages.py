"""Judging the later stages (Néel embedding, block embedding, figures) against the stored results they start from."""
import hashlib
import json
import math

import numpy as np

from sim import oracles as O
from sim import refmodel as R
from sim import register as REG
from sim.world import same


# ------------------------------------------------------------------ what is stored when
class Stored:
    """Decoded contents of every result file over time."""

    def __init__(self, W):
        self.W = W
        self.tl = {}
        logs = {}
        for q, rel, data, who in W.file_log:
            logs.setdefault(rel, []).append((q, data, who))
        for rel, log in logs.items():
            items = [(rel, d) for _, d, _ in log if d is not None]
            dec = iter(W.decode(items))
            out = [(0, None)]
            for q, d, who in log:
                v = next(dec) if d is not None else None
                out.append((q, v))
            self.tl[rel] = out

    def window(self, rel, a, b):
        """Every content the file had between a and b (None: no file; ('exc', ...): not loadable)."""
        tl = self.tl.get(rel, [(0, None)])
        cur = tl[0]
        for e in tl:
            if e[0] <= a:
                cur = e
        return [cur[1]] + [e[1] for e in tl if a < e[0] <= b]


def source_rel(c, op):
    if op["op"] == "blocks" and op.get("neel"):
        return O.neel_rel(c)
    return O.iso_rel(c)


def product_rel(c, op):
    if op["op"] == "neel":
        return O.neel_rel(c)
    return O.blocks_rel(c, bool(op.get("dyn")), bool(op.get("neel")), bool(op.get("neigh")))


def end_of(r):
    return r.s1 if r.s1 is not None else r.send if r.send is not None else REG.INF


def cfg_of(W, r):
    """Configuration an operation works on (its own, or that of the data it was given)."""
    if r.op.get("cfg") is not None and r.op.get("data") is None:
        return W.plan["cfgs"][r.op["cfg"]]
    best = None
    for q in W.hist:
        if q.proc == r.proc and q.s0 < r.s0 and q.op.get("as") == r.op.get("data") and q.op.get("cfg") is not None and q.status == "ok":
            best = q.op["cfg"]
    return None if best is None else W.plan["cfgs"][best]


# ------------------------------------------------------------------ Néel embedding
def perm_of(c, snap):
    n, na, nb = O.counts(c)
    return O.basis_perm(snap["dets"], n, c["nholes"], nb)[0]


def to_ref(perm, v):
    w = np.zeros(len(perm))
    w[perm] = np.asarray(v, float).ravel()
    return w


def neel_dress(c, perm, field):
    w, h = O.wh(c)
    return R.neel_dressing(w, h, c["pars"], field, c["nholes"], c["nbeta"])[perm]


def neel_field(c, perm, vec):
    w, h = O.wh(c)
    return R.neel_field_from(w, h, to_ref(perm, vec), c["nholes"], c["nbeta"])


_traj = {}


def trajectory(kind, c, op, src, cap, tol):
    """Reference iterations of an embedding: (list of (dressed H, exact ground state), stopped by, uncertainty of the last dressed H or None).

    The program knows each ground state to the solver's tolerance only; shadow iterations disturbed by that much give the uncertainty.  None: the
    iterations cannot be followed (near-degenerate ground states, a stop decided by rounding)."""
    key = (kind, json.dumps([c, op["sc_tol"], op["max_iter"], op.get("rev"), op.get("neigh"), cap, tol], sort_keys=True),
           hashlib.blake2b(np.ascontiguousarray(src["ham"]).tobytes() + np.ascontiguousarray(src["eigvects"]).tobytes()).hexdigest())
    if key in _traj:
        return _traj[key]
    perm = perm_of(c, src)
    H = src["ham"]
    w, h = O.wh(c)
    sct, limit = op["sc_tol"], op["max_iter"]

    def dress(prev, first):
        if kind == "blocks":
            return blocks_dress(c, perm, prev, op)
        return neel_dress(c, perm, R.neel_initial_field(w, h) if first else neel_field(c, perm, prev))

    def run(shadow):
        g = np.random.default_rng(1000 + shadow)
        prev = src["eigvects"][:, 0]
        out, ok = [], True
        for it in range(min(limit, cap)):
            Hd = H + np.diag(dress(prev, it == 0))
            e, U = np.linalg.eigh(Hd)
            gap = e[1] - e[0] if len(e) > 1 else 1.0
            if gap < 0.02 or not O.connected(Hd):
                ok = False      # the solver may miss the ground state of decoupled sectors
            v = U[:, 0]
            if shadow:
                x = g.standard_normal(len(v))
                v = v + x / np.linalg.norm(x) * 3 * tol / max(gap, 0.02)
                v = v / np.linalg.norm(v)
            out.append((Hd, v))
            d = min(np.linalg.norm(v - prev), np.linalg.norm(v + prev)) / max(np.linalg.norm(prev), 1e-300)
            if abs(d - sct) < 0.2 * sct + 1e-6 and abs(d - sct) < 0.5 * max(d, sct):
                ok = False
            if d < sct:
                return out, "converged", ok
            prev = v
        return out, "limit" if len(out) == limit else "cap", ok
    out, why, ok = run(0)
    slack = None
    if ok and why != "cap":
        slack = 0.0
        for k in (1, 2, 3)[:3 if len(H) < 150 else 1]:
            o2, w2, ok2 = run(k)
            if not ok2 or w2 != why or len(o2) != len(out):
                slack = None
                break
            slack = max(slack, np.abs(o2[-1][0] - out[-1][0]).max())
        if slack is not None:
            slack = 20 * slack + 10 * tol
            if slack > 1e-3:
                slack = None
    if len(_traj) > 300:
        _traj.clear()
    _traj[key] = out, why, slack
    return _traj[key]


def check_neel(c, op, src, val, lowest=False, cap=8, what=""):
    """What a Néel embedding returned or stored, given the stored isolated result."""
    bad = O.check_config(val["config"], c, None, what) + O.check_settings(val, c, what)
    if val["dets"] != src["dets"]:
        return bad + [("source", what + "the determinants are not those of the stored isolated result")]
    if val["ham"].shape != src["ham"].shape or not np.array_equal(val["ham"], src["ham"]):
        return bad + [("source", what + "the Hamiltonian is not the stored isolated Hamiltonian (difference %.3g)" %
                       (np.abs(val["ham"] - src["ham"]).max() if val["ham"].shape == src["ham"].shape else math.inf))]
    dim = len(src["ham"])
    k = min(op.get("nb_val") or 10, c["diag"]["dim_max"] or dim, dim)
    V, e = np.asarray(val["eigvects"]), np.asarray(val["eigvals"], float)
    if V.shape != (dim, k) or e.shape != (k,):
        return bad + [("count", what + "%s eigenvalues and vectors of shape %s instead of %d states" % (e.shape, V.shape, k))]
    tol = c["diag"]["tol"]
    traj, why, slack = trajectory("neel", c, op, src, cap, tol)
    if slack is None:
        # the last dressed Hamiltonian is not known; it is a diagonal dressing of the stored one
        if op["max_iter"] == 1:
            return bad + O.check_pairs(traj[0][0], e, V, k, tol, what + "dressed by the alternating spins: ")
        return bad + O.check_pairs_any(src["ham"], e, V, k, what)
    Hd, g = traj[-1]
    v = O.check_pairs(Hd, e, V, k, tol if len(traj) == 1 else slack, what + "eigenstates of dressed Hamiltonian number %d (%s): " % (len(traj), why),
                      0.0 if len(traj) == 1 else slack)
    # a missed ground state (soft class "lowest") leads all later iterations elsewhere
    bad += v if len(traj) == 1 else [("followed", m) for _, m in v]
    if lowest and tol <= 1e-6 and O.connected(Hd) and not bad:
        m = O.misses(Hd, e, max(tol, slack))
        if m:
            bad.append(("lowest", what + m))
    return bad


# ------------------------------------------------------------------ block embedding
def blocks_dress(c, perm, vec, op):
    w, h = O.wh(c)
    n, na, nb = O.counts(c)
    P = R.site_probabilities(to_ref(perm, vec), n, c["nholes"], nb)
    if op.get("rev", True):
        P = {0: P[0], 1: P[-1], -1: P[1]}
    return R.blocks_dressing(w, h, c["pars"], P, c["nholes"], nb, bool(op.get("neigh")))[perm]


def check_blocks(c, op, src, val, lowest=False, cap=12, what=""):
    """What a block embedding returned (None: no convergence), given the stored result it starts from."""
    traj, why, slack = trajectory("blocks", c, op, src, cap, c["diag"]["tol"])
    if c["diag"]["tol"] > 1e-6:
        slack = None        # the iterations are not followed with loose diagonalisations
    if val is None:
        if slack is not None and why == "converged":
            return [("followed", what + "no result although the iterations converge after %d of %d" % (len(traj), op["max_iter"]))]
        return []
    bad = O.check_config(val["config"], c, None, what) + O.check_settings(val, c, what)
    if val["dets"] != src["dets"]:
        return bad + [("source", what + "the determinants are not those of the stored result")]
    if val["ham"].shape != src["ham"].shape:
        return bad + [("source", what + "Hamiltonian of another dimension than the stored one")]
    perm = perm_of(c, src)
    D = val["ham"] - src["ham"]
    off = np.abs(D - np.diag(np.diag(D))).max(initial=0.0)
    if not np.isfinite(D).all() or off > 1e-9 * (1 + np.abs(src["ham"]).max()):
        return bad + [("source", what + "the embedded Hamiltonian differs from the stored one outside the diagonal (%.3g)" % off)]
    V, e = np.asarray(val["eigvects"]), np.asarray(val["eigvals"], float)
    bad += O.check_pairs(val["ham"], e, V, 1, c["diag"]["tol"], what)
    if any(b[0] in ("count", "finite") for b in bad):
        return bad
    p = c["pars"]
    lim = 4 * O.wh(c)[1] * (abs(p["J"]) + 2 * abs(p["VNN"]) + 4 * abs(p["VNNNper"])) * min(op["sc_tol"] * 1.001, 2.0) + 1e-8 * (1 + np.abs(src["ham"]).max())
    d = np.abs(np.diag(D) - blocks_dress(c, perm, V[:, 0], op)).max()
    if d > lim:
        bad.append(("field", what + "the embedded Hamiltonian is not the stored one in the field of copies of its own ground state (off by %.3g, allowed %.3g)" % (d, lim)))
    if slack is not None and not bad:
        if why == "limit":
            bad.append(("followed", what + "a result was returned although %d iterations do not converge" % op["max_iter"]))
        elif why == "converged":
            d = np.abs(val["ham"] - traj[-1][0]).max()
            if d > slack + 1e-8:
                bad.append(("followed", what + "the embedded Hamiltonian is off by %.3g from iteration %d from the stored ground state" % (d, len(traj))))
    if lowest and not bad and c["diag"]["tol"] <= 1e-6 and O.connected(val["ham"]):
        m = O.misses(val["ham"], e, c["diag"]["tol"])
        if m:
            bad.append(("lowest", what + m))
    return bad


def check_dynamic(c, op, src, val, lowest=False, what=""):
    """What a dynamic block embedding returned; its second-order couplings have no reference model (see same_dynamic)."""
    if val is None:
        return []
    bad = O.check_config(val["config"], c, None, what) + O.check_settings(val, c, what)
    if val["dets"] != src["dets"]:
        return bad + [("source", what + "the determinants are not those of the stored result")]
    H = val["ham"]
    if H.shape != src["ham"].shape:
        return bad + [("source", what + "Hamiltonian of another dimension than the stored one")]
    if not np.isfinite(H).all() or np.abs(H - H.T).max(initial=0.0) > 1e-9 * (1 + np.abs(H).max()):
        return bad + [("source", what + "the embedded Hamiltonian is not real symmetric")]
    return bad + O.check_pairs(H, np.asarray(val["eigvals"], float), np.asarray(val["eigvects"]), 1, c["diag"]["tol"], what)


def same_dynamic(W, st):
    """Dynamic embeddings stopping at the first iteration depend on the stored result only: the same one gives the same Hamiltonian, whatever
    happened before or meanwhile, in any program."""
    groups = {}
    for r in W.hist:
        if r.op["op"] != "blocks" or not r.op.get("dyn") or r.op["sc_tol"] < 3:
            continue
        c = cfg_of(W, r)
        if c is None:
            continue
        e = end_of(r)
        srcs = st.window(source_rel(c, r.op), r.s0, e)
        if len({id(v) for v in srcs}) != 1 or not is_value(srcs[0]):
            continue
        v = srcs[0]
        key = (json.dumps([c, bool(r.op.get("neel")), bool(r.op.get("neigh")), bool(r.op.get("rev", True))], sort_keys=True),
               hashlib.blake2b(v["ham"].tobytes() + np.ascontiguousarray(v["eigvects"]).tobytes() + np.asarray(v["eigvals"], float).tobytes()).hexdigest())
        if r.status == "ok" and r.val is not None:
            groups.setdefault(key, []).append(("%s#%d.%d.%d" % (r.op["op"], r.phase, r.thread, r.i), r.val["ham"], v["ham"]))
    bad = []
    for key, g in groups.items():
        for me, H, src in g[1:]:
            d = np.abs(H - g[0][1]).max() if H.shape == g[0][1].shape else math.inf
            if d > 1e-8 * (1 + np.abs(src).max() + np.abs(H).max()):
                bad.append(("dynamic", "%s and %s embedded the same stored result with the same arguments, but their Hamiltonians differ by %.3g" % (g[0][0], me, d)))
    return bad


# ------------------------------------------------------------------ figures
def suffix_hole(b):
    if all(b[k] for k in R.SEL) and b["bV_embedding"]:
        return "Full"
    out = ""
    for k, s in (("bSD", "SD"), ("bV", "V"), ("bV_embedding", "emb"), ("bij", "J"), ("bt", "t"), ("btN", "tN")):
        if b[k]:
            out += s
    return out


def wants_emb(fl):
    return bool(fl.get("bool_neel_embedding") or fl.get("bool_static_embedding") or fl.get("bool_dynamic_embedding"))


def emb_rel(c, fl, nbeta=None):
    n, na, nb = O.counts(c, nbeta)
    return "initialComputations/Embedding_blocks/" + R.blocks_name(n, na, nb, c["sel"], bool(fl.get("bool_dynamic_embedding")),
                                                                  bool(fl.get("bool_neel_embedding")), bool(fl.get("bool_neighbor_embedding")))


def expected_figures(c, op, iso, emb, nbeta=None):
    """{relative path: checker(shot) -> problem or None}"""
    n, na, nb = O.counts(c, nbeta)
    w, h = O.wh(c)
    fl = op["flags"]
    base = "tJ-HamCsr/tJ-H%d/" % n
    nm = "tJ-H%d%d%d" % (n, na, nb)
    out = {}
    V, e = np.asarray(iso["eigvects"]), list(iso["eigvals"])
    perm = O.basis_perm(iso["dets"], n, c["nholes"], nb)[0]
    npl = int(math.isqrt(op["nb_plot"])) ** 2

    def probs(i):
        return O.probs_ref(V[:, i], perm, n, c["nholes"], nb)
    if fl.get("bool_spectrum"):
        out[base + "Spectrum/" + nm + ".png"] = lambda s: fig_spectrum(s, e)
    if fl.get("bool_holes") and c["nholes"] > 0:
        out[base + "HolePresenceProbability/" + nm + suffix_hole(iso["bools"]) + ".png"] = \
            lambda s: fig_meshes(s, [probs(i)[0] for i in range(min(npl, V.shape[1]))], w, h)
    if fl.get("bool_electrons") and na * nb > 0:
        for st in range(min(op["nb_excited"], V.shape[1])):
            d = "GroundState" if st == 0 else "Excited%d" % st
            out[base + "SpinDistribution/%s/" % d + nm + ".png"] = \
                lambda s, st=st: fig_meshes(s, [probs(st)[1], probs(st)[-1], probs(st)[1] - probs(st)[-1]], w, h)
    if fl.get("bool_determinants"):
        out[base + "DeterminantsAmplitude/" + nm + ".png"] = lambda s: fig_amplitudes(s, V[:, :min(npl, V.shape[1])])
    if wants_emb(fl):
        E = np.asarray(emb["eigvects"])[:, 0]
        for ext in (".png", ".pdf"):
            out[base + "AmplitudesStaticEmbeddingNeel/" + nm + ext] = lambda s: fig_bars(s, V[:, 0], E)
    return out


def fig_spectrum(shot, eigvals):
    ys = []
    for ax in shot["axes"]:
        for x, y in ax["lines"]:
            if len(y) and np.ptp(y) == 0:
                ys.append(float(y[0]))
    if len(ys) != len(eigvals) or not np.allclose(sorted(ys), sorted(eigvals), rtol=0, atol=1e-12):
        return "levels %s drawn for the stored eigenvalues %s" % (sorted(ys)[:6], sorted(eigvals)[:6])
    return None


def bilinear(P, w, h, xs, ys):
    """Interpolation of site probabilities; the rows of the picture run from the last row of the lattice to the first."""
    Z = np.array(P, float).reshape(h, w)[::-1]
    xs = np.clip(xs, 0, w - 1)
    ys = np.clip(ys, 0, h - 1)
    rows = np.array([np.interp(xs, range(w), r) for r in Z])
    return np.array([np.interp(ys, range(h), rows[:, j]) for j in range(len(xs))]).T


def fig_meshes(shot, want, w, h):
    axes = [ax for ax in shot["axes"] if ax["scatter"]]
    if len(axes) < len(want):
        return "%d lattices drawn instead of %d" % (len(axes), len(want))
    for i, P in enumerate(want):
        ax = axes[i]
        if not ax["meshes"]:
            return "no density in panel %d" % i
        co, arr = ax["meshes"][0]
        cx = (co[0, 1:, 0] + co[0, :-1, 0]) / 2
        cy = (co[1:, 0, 1] + co[:-1, 0, 1]) / 2
        arr = arr.reshape(len(cy), len(cx))
        ref = bilinear(P, w, h, cx, cy)
        if np.abs(arr - ref).max() > 1e-6:
            j = np.unravel_index(int(np.abs(arr - ref).argmax()), arr.shape)
            return "panel %d shows %.4f at (%.2f, %.2f), the stored state gives %.4f" % (i, arr[j], cx[j[1]], cy[j[0]], ref[j])
        pts = np.concatenate(ax["scatter"]) if ax["scatter"] else np.zeros((0, 2))
        if sorted(map(tuple, np.round(pts, 6).tolist())) != sorted((float(x), float(y)) for x in range(w) for y in range(h)):
            return "panel %d does not mark the %dx%d sites" % (i, w, h)
    return None


def fig_amplitudes(shot, V):
    axes = [ax for ax in shot["axes"] if ax["lines"]]
    if len(axes) < V.shape[1]:
        return "%d amplitude curves instead of %d" % (len(axes), V.shape[1])
    for i in range(V.shape[1]):
        a = np.sort(np.abs(V[:, i]))
        x, y = axes[i]["lines"][0]
        if not len(x) or x[0] > 0 or x[-1] < a[-1] - 2e-4:
            return "curve %d does not cover the amplitudes" % i
        ref = len(a) - np.searchsorted(a, x, "left")
        lo = len(a) - np.searchsorted(a, x + 1e-9, "left")
        hi = len(a) - np.searchsorted(a, x - 1e-9, "left")
        if ((y < lo) | (y > hi)).any():
            j = int(((y < lo) | (y > hi)).argmax())
            return "curve %d shows %g amplitudes above %g, the stored state has %d" % (i, y[j], x[j], ref[j])
    return None


def fig_bars(shot, v, u):
    bars = {}
    for ax in shot["axes"]:
        for lab, xs, hs in ax["bars"]:
            bars[lab] = [y for _, y in sorted(zip(xs, hs))]
    if set(bars) != {"cluster", "embedding"}:
        return "bars %s instead of cluster and embedding" % sorted(bars)
    for lab, w in (("cluster", v), ("embedding", u)):
        k = min(len(w), 30)
        ref = sorted((np.abs(w) ** 2).tolist(), reverse=True)[:k]
        if len(bars[lab]) != k or not np.allclose(bars[lab], ref, rtol=0, atol=1e-9):
            return "the %s bars are not the largest amplitudes of the stored ground state" % lab
    return None


def check_figures(c, op, drawn, iso, emb, cwd, nbeta=None, complete=True):
    """drawn: recorded figures of one generation; complete: every figure must be there."""
    want = expected_figures(c, op, iso, emb, nbeta)
    got = {}
    bad = []
    for d in drawn:
        rel = d["path"][len(cwd) + 1:] if d["path"].startswith(cwd + "/") else d["path"]
        got.setdefault(rel, []).append(d["shot"])
    for rel, chk in want.items():
        if rel not in got:
            if complete:
                bad.append(("missing_figure", "%s was not drawn" % rel))
            continue
        for s in got[rel]:
            m = chk(s)
            if m:
                bad.append(("figure", "%s: %s" % (rel, m)))
    return bad, want, got


# ------------------------------------------------------------------ one executed stage
STAGES = ("neel", "blocks", "plots")


def is_value(v):
    return isinstance(v, dict)


def judge_stage(W, S, r, lowest=False):
    """[(class, message)] for one executed stage operation."""
    c = cfg_of(W, r)
    if c is None or r.status in ("skip", "running"):
        return []
    op = r.op
    me = "%s#%d.%d.%d: " % (op["op"], r.phase, r.thread, r.i)
    e = end_of(r)
    bad = []
    if op["op"] == "plots":
        return judge_plots(W, S, r, c, me, e)
    srcs = S.window(source_rel(c, op), r.s0, e)
    vals = [v for v in srcs if is_value(v)]
    prod = product_rel(c, op)

    def problems(val, what, **kw):
        first = None
        chk = check_neel if op["op"] == "neel" else check_dynamic if op.get("dyn") else check_blocks
        for v in vals:
            b = chk(c, op, v, val, what=me + what, **kw)
            if not b:
                return []
            first = first or b
        return first if first is not None else [("no_source", me + what + "although no such result was stored")]
    if r.status == "ok":
        if op["op"] == "neel" and r.val is None:
            return [("none", me + "returned nothing")]
        if not vals:
            return [("no_source", me + "completed although the result it needs (%s) is not stored" % source_rel(c, op))]
        bad += problems(r.val, "", lowest=lowest)
    elif r.status == "exc" and not r.fired and len(vals) == len(srcs) and W.plan["phases"][r.phase].get("room") is None:
        bad.append(("raised", me + "raised %s: %s (%s) although the result it needs is stored and nothing failed" %
                    (r.exc, r.msg, " < ".join(reversed(r.where or [])))))
    # everything this program stored meanwhile
    mine = [(q, rel, d) for q, rel, d, who in W.file_log if who == r.kpid and r.s0 < q <= e]
    others = [x for x in mine if x[1] != prod]
    if others and not any(q is not r and q.proc == r.proc and q.s0 < e and end_of(q) > r.s0 for q in W.hist):
        bad.append(("changed", me + "changed %s, which is not the result it produces (%s)" % (others[0][1], prod)))
    own = [x for x in mine if x[1] == prod]
    shared = any(q is not r and q.proc == r.proc and q.s0 < e and end_of(q) > r.s0 for q in W.hist)
    if shared:
        return bad
    if r.status == "ok" and r.val is not None and not own:
        bad.append(("not_stored", me + "returned a result but did not store it as %s" % prod))
    if r.status == "ok" and r.val is None and own:
        bad.append(("stored_none", me + "stored a result although it returned none"))
    if r.status == "exc" and own and not r.fired:
        bad.append(("stored_failed", me + "raised %s but stored a result" % r.exc))
    for q, rel, d in own:
        if d is None:
            bad.append(("removed", me + "removed %s" % rel))
            continue
        v = W.decode([(rel, d)])[0]
        if not is_value(v):
            bad.append(("torn", me + "left content in %s that does not load" % rel))
            continue
        if r.status == "ok":
            k = same(v, r.val, skip=("guess", "times"))
            if k:
                bad.append(("stored", me + "stored another result than it returned (%s differs)" % k))
        else:
            bad += problems(v, "stored result: ")
    return bad


def judge_plots(W, S, r, c, me, e):
    op = r.op
    bad = []
    n, na, nb = O.counts(c)
    sectors = list(range(n - c["nholes"] + 1)) if op.get("all") else [c["nbeta"]]
    if op.get("all"):
        sectors = sectors[::-1]
    mine = [(q, rel, d) for q, rel, d, who in W.file_log if who == r.kpid and r.s0 < q <= e]
    if mine and not any(q is not r and q.proc == r.proc and q.s0 < e and end_of(q) > r.s0 for q in W.hist):
        bad.append(("changed", me + "changed the stored result %s" % mine[0][1]))
    avail = True
    got_all, known = set(), set()
    for sec in sectors:
        isos = S.window(O.iso_rel(c, sec), r.s0, e)
        embs = S.window(emb_rel(c, op["flags"], sec), r.s0, e) if wants_emb(op["flags"]) else [{}]
        pairs = [(a, b) for a in isos for b in embs if is_value(a) and is_value(b)]
        if not pairs:
            avail = False
            continue
        if len(pairs) < len(isos) * len(embs):
            avail = None if avail else avail
        first = None
        for a, b in pairs:
            bb, want, got = check_figures(c, op, r.drawn or [], a, b, W.k.fs.CWD, sec, complete=r.status == "ok")
            got_all |= set(got)
            known |= set(want)
            if not bb:
                first = None
                break
            first = first or bb
        bad += [(k, me + m) for k, m in first or []]
    if r.status == "ok":
        if avail is False:
            bad.append(("no_source", me + "completed although a stored result it needs is missing"))
        for rel in sorted(got_all - known):
            bad.append(("unknown_figure", me + "drew %s, which is none of the requested figures" % rel))
    elif r.status == "exc" and not r.fired and avail is True and W.plan["phases"][r.phase].get("room") is None:
        bad.append(("raised", me + "raised %s: %s (%s) although the results it needs are stored and nothing failed" %
                    (r.exc, r.msg, " < ".join(reversed(r.where or [])))))
    if r.status == "exc" and avail is False and not r.fired:
        for rel in sorted(got_all - known):
            bad.append(("unknown_figure", me + "drew %s, which belongs to no stored result" % rel))
    return bad
