"""Judging results against the independent reference model.  Every function returns a list of (class, message)."""
import math

import numpy as np

from . import refmodel as R


def wh(c):
    return c["geo"][0] * c["geo"][2], c["geo"][1] * c["geo"][2]


def counts(c, nbeta=None):
    w, h = wh(c)
    nb = c["nbeta"] if nbeta is None else nbeta
    return w * h, w * h - c["nholes"] - nb, nb


def iso_rel(c, nbeta=None):
    n, na, nb = counts(c, nbeta)
    return "initialComputations/" + R.file_name(n, na, nb, c["sel"])


def neel_rel(c):
    n, na, nb = counts(c)
    return "initialComputations/Peripheral_embedding/" + R.file_name(n, na, nb, c["sel"])


def blocks_rel(c, dyn=False, neel=False, neigh=False):
    n, na, nb = counts(c)
    return "initialComputations/Embedding_blocks/" + R.blocks_name(n, na, nb, c["sel"], dyn, neel, neigh)


def save_rel(c, op):
    kind = op.get("kind", "iso")
    if kind == "iso":
        return iso_rel(c)
    if kind == "neel":
        return neel_rel(c)
    f = op.get("flags", [False, False, False])
    return blocks_rel(c, f[0], f[1], f[2])


def dim_of(c, nbeta=None):
    n, na, nb = counts(c, nbeta)
    return math.comb(n, c["nholes"]) * math.comb(n - c["nholes"], nb)


def basis_perm(dets, n, nholes, nbeta):
    """Position of every listed determinant in the reference basis; None if the list is not the basis."""
    occs, index, _ = R.basis(n, nholes, nbeta)
    if len(dets) != len(occs):
        return None, "%d basis states instead of %d" % (len(dets), len(occs))
    perm = []
    for d in dets:
        if len(d) != n or sorted(d) != list(range(n)):
            return None, "basis state %r is not an arrangement of %d sites" % (d, n)
        o = [1] * n
        for s in d[:nholes]:
            o[s] = 0
        for s in d[nholes:nholes + nbeta]:
            o[s] = -1
        perm.append(index[tuple(o)])
    if len(set(perm)) != len(perm):
        return None, "a basis state is listed twice"
    return np.array(perm, int), None


def ref_ham(c, perm, nbeta=None):
    w, h = wh(c)
    H = R.hamiltonian(w, h, c["nholes"], c["nbeta"] if nbeta is None else nbeta, c["pars"], c["sel"])
    return H[np.ix_(perm, perm)]


def check_ham(val, c, nbeta=None, what=""):
    n, na, nb = counts(c, nbeta)
    perm, why = basis_perm(val["dets"], n, c["nholes"], nb)
    if perm is None:
        return [("basis", what + why)]
    H = val["ham"]
    if H.shape != (len(perm), len(perm)):
        return [("ham", what + "Hamiltonian of shape %s for %d basis states" % (H.shape, len(perm)))]
    Href = ref_ham(c, perm, nbeta)
    d = np.abs(H - Href)
    scale = 1 + np.abs(Href).max(initial=0.0)
    if not np.isfinite(H).all() or d.max(initial=0.0) > 1e-12 * scale:
        i, j = np.unravel_index(int(np.nanargmax(d)) if np.isfinite(d).any() else 0, d.shape)
        return [("ham", what + "element <%s|H|%s> is %r, the extended t-J model gives %r" % (val["dets"][i], val["dets"][j], float(H[i, j]), float(Href[i, j])))]
    return []


def check_pairs(H, eigvals, eigvects, want, tol, what="", slack=0.0):
    """Count, order, orthonormality, energies and residuals; slack: how well H is known."""
    bad = []
    V = np.asarray(eigvects)
    e = np.asarray(eigvals, float)
    if V.ndim != 2 or V.shape != (H.shape[0], want) or e.shape != (want,):
        return [("count", what + "%s eigenvalues and eigenvectors of shape %s instead of %d states of dimension %d" % (e.shape, V.shape, want, H.shape[0]))]
    if np.iscomplexobj(V) or not np.isfinite(V).all() or not np.isfinite(e).all():
        return [("finite", what + "eigenvalues or eigenvectors are not finite real numbers")]
    if (np.diff(e) < -1e-9 * (1 + np.abs(e).max())).any():
        bad.append(("order", what + "eigenvalues %s are not ascending" % e.tolist()))
    o = np.abs(V.T @ V - np.eye(want)).max()
    if o > 1e-6:
        bad.append(("orth", what + "eigenvectors are not orthonormal (deviation %.2e)" % o))
    q = np.abs(np.einsum("ij,ij->j", V, H @ V) - e).max()
    if q > slack + 1e-9 * (1 + np.abs(H).sum(0).max()):
        bad.append(("energy", what + "an eigenvalue is not the energy of its eigenvector (deviation %.2e)" % q))
    r = np.linalg.norm(H @ V - V * e, axis=0)
    lim = tol * 1.01 + 1e-11 * (1 + np.abs(H).sum(0).max())
    if (r > lim).any():
        bad.append(("residual", what + "residual %.3e of state %d exceeds the tolerance %.1e" % (r.max(), int(r.argmax()), tol)))
    return bad


def check_pairs_any(H, eigvals, eigvects, want, what=""):
    """Count, order and orthonormality, for states of a Hamiltonian that is not known exactly."""
    V, e = np.asarray(eigvects), np.asarray(eigvals, float)
    if V.shape != (H.shape[0], want) or e.shape != (want,) or not np.isfinite(V).all() or not np.isfinite(e).all():
        return [("count", what + "%s eigenvalues and eigenvectors of shape %s instead of %d finite states" % (e.shape, V.shape, want))]
    if (np.diff(e) < -1e-9 * (1 + np.abs(e).max())).any():
        return [("order", what + "eigenvalues %s are not ascending" % e.tolist())]
    if np.abs(V.T @ V - np.eye(want)).max() > 1e-6:
        return [("orth", what + "eigenvectors are not orthonormal")]
    return []


def exact_low(H, k):
    return np.linalg.eigvalsh((H + H.T) / 2)[:k]


def connected(H):
    """True if the Hamiltonian couples all basis states, directly or not (weak links do not count)."""
    n = len(H)
    if n <= 1:
        return True
    A = np.abs(H) > 1e-3
    seen = np.zeros(n, bool)
    seen[0] = True
    todo = [0]
    while todo:
        i = todo.pop()
        for j in np.nonzero(A[i] & ~seen)[0]:
            seen[j] = True
            todo.append(int(j))
    return bool(seen.all())


def misses(H, eigvals, tol):
    """None, or a description of the first eigenvalue that is not the one the exact spectrum has there."""
    k = len(eigvals)
    ex = exact_low(H, k)
    d = np.asarray(eigvals, float) - ex
    lim = max(20 * tol, 1e-7) * (1 + np.abs(ex).max())
    if d.min() < -lim:
        return "state %d has energy %r below the exact %r" % (int(d.argmin()), float(eigvals[int(d.argmin())]), float(ex[int(d.argmin())]))
    if d.max() > lim:
        i = int((d > lim).argmax())
        return "state %d has energy %r, the exact spectrum has %r there" % (i, float(eigvals[i]), float(ex[i]))
    return None


def check_spins(val, c, nbeta=None, what="", spins=None):
    n, na, nb = counts(c, nbeta)
    want = c.get("spins", True) if spins is None else spins
    V = np.asarray(val["eigvects"])
    s = val["spins"]
    if not want:
        return [] if len(s) == 0 else [("spin_count", what + "spin numbers %r recorded although not requested" % (s,))]
    if len(s) != V.shape[1]:
        return [("spin_count", what + "%d spin numbers for %d eigenstates" % (len(s), V.shape[1]))]
    perm, why = basis_perm(val["dets"], n, c["nholes"], nb)
    if perm is None:
        return [("basis", what + why)]
    bad = []
    for i in range(V.shape[1]):
        m = spin_problem(s[i], V[:, i], perm, n, c["nholes"], nb)
        if m:
            bad.append(("spin", what + "state %d: %s" % (i, m)))
    return bad


def spin_problem(s, v, perm, n, nholes, nbeta):
    w = np.zeros(len(perm))
    w[perm] = v
    x = R.spin_of(w, n, nholes, nbeta)
    if isinstance(s, (str, complex, np.complexfloating)) or s is None:
        return "spin number %r instead of %.3f" % (s, x)
    near = math.floor(2 * x + 0.5) / 2
    border = abs(abs(2 * x - math.floor(2 * x)) - 0.5)
    if abs(2 * s - round(2 * s)) > 1e-9 or (border > 1e-3 and abs(s - near) > 1e-9) or abs(s - x) > 0.26:
        return "spin number %r, the state has %.4f" % (s, x)
    return None


def check_config(cfgsnap, c, nbeta=None, what=""):
    n, na, nb = counts(c, nbeta)
    w, h = wh(c)
    exp = {"nsites": n, "nalpha": na, "nbeta": nb, "nholes": c["nholes"], "nbh": c["geo"][0], "nbv": c["geo"][1], "nblocs_side": c["geo"][2],
           "nb_conf": dim_of(c, nbeta)}
    bad = []
    for k, v in exp.items():
        if cfgsnap[k] != v:
            bad.append(("config", what + "%s is %r instead of %r" % (k, cfgsnap[k], v)))
    if cfgsnap["lattice_type"] != (c.get("type") or "periodic"):
        bad.append(("config", what + "lattice_type is %r instead of %r" % (cfgsnap["lattice_type"], c.get("type") or "periodic")))
    r = c.get("restrict")
    r = [list(range(n))] * 2 if r is None else [list(x) for x in r] if isinstance(r[0], list) else [list(r)] * 2
    if cfgsnap["sites_restriction"] != r:
        bad.append(("config", what + "sites_restriction is %r instead of %r" % (cfgsnap["sites_restriction"], r)))
    L = R.lattice(w, h)
    B = np.array(cfgsnap["bond_matrix"])
    A = np.zeros((n, n))
    for i, j in L.bonds:
        A[i, j] = A[j, i] = 1
    if B.shape != A.shape or not np.array_equal(B != 0, A != 0):
        bad.append(("config", what + "the bond matrix is not that of a %dx%d lattice" % (w, h)))
    return bad


def check_settings(val, c, what=""):
    bad = []
    if val["pars"] != c["pars"]:
        bad.append(("settings", what + "couplings differ: %r" % {k: (val["pars"][k], c["pars"][k]) for k in R.PAR if val["pars"][k] != c["pars"][k]}))
    if any(val["bools"][k] != c["sel"][k] for k in R.SEL) or val["bools"]["b_spin_multipicities"] != bool(c.get("spins", True)) \
            or val["bools"]["bV_embedding"] != bool(c.get("bV_embedding", False)):
        bad.append(("settings", what + "interaction selection %r differs from the requested one" % (val["bools"],)))
    if any(val["diag"][k] != c["diag"][k] for k in ("nb_val", "stp", "tol", "dim_max")):
        bad.append(("settings", what + "solver settings %r differ from %r" % (val["diag"], c["diag"])))
    return bad


def want_states(c, nbeta=None, nb_val=None):
    k = c["diag"]["nb_val"] if nb_val is None else nb_val
    d = dim_of(c, nbeta)
    dm = c["diag"]["dim_max"] or d
    return min(k, dm, d)


def check_isolated(val, c, nbeta=None, what="", spins=True, lowest=True):
    """A complete isolated-cluster result."""
    bad = check_config(val["config"], c, nbeta, what) + check_settings(val, c, what)
    if c.get("restrict") is not None:
        return bad              # the reference model has no restricted interactions
    bad += check_ham(val, c, nbeta, what)
    if any(b[0] in ("basis", "ham") for b in bad):
        return bad
    bad += check_pairs(val["ham"], val["eigvals"], val["eigvects"], want_states(c, nbeta), c["diag"]["tol"], what)
    if any(b[0] in ("count", "finite") for b in bad):
        return bad
    if lowest and c["diag"]["tol"] <= 1e-6 and connected(val["ham"]):
        m = misses(val["ham"], val["eigvals"], c["diag"]["tol"])
        if m:
            bad.append(("lowest", what + m))
    if spins:
        bad += check_spins(val, c, nbeta, what)
    t = val.get("times")
    if t is not None and (len(t) != 3 or not all(isinstance(x, (int, float)) and math.isfinite(x) and x >= 0 for x in t)):
        bad.append(("times", what + "computation times %r" % (t,)))
    return bad


def probs_ref(vec, perm, n, nholes, nbeta):
    w = np.zeros(len(perm))
    w[perm] = vec
    return R.site_probabilities(w, n, nholes, nbeta)
