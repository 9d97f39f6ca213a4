"""Independent executable reference model of the extended t-J problem the package solves.

Works from site coordinates on a rectangular lattice only; shares no code with the package.
State of a site: 0 hole, +1 alpha, -1 beta.  Sites are numbered row by row from the south-west corner.
"""
import itertools
from functools import lru_cache

import numpy as np

SEL = ("bt", "bz", "bij", "bSD", "btN", "bV")
PAR = ("t", "J", "Jhpar", "Jhper", "hSDpar", "hSDper", "tNNN", "tnNNN", "VNN", "VNNNper")
SUFFIX = (("bSD", "SD"), ("bV", "V"), ("bij", "J"), ("bt", "t"), ("btN", "tN"))


def file_name(nsites, nalpha, nbeta, sel):
    s = "tJHam-%d%d%d" % (nsites, nalpha, nbeta)
    if all(sel[k] for k in SEL):
        return s + "Full.json"
    return s + "".join(v for k, v in SUFFIX if sel[k]) + ".json"


def blocks_name(nsites, nalpha, nbeta, sel, dyn=False, neel=False, neigh=False):
    base = file_name(nsites, nalpha, nbeta, sel)
    return "tJHam" + ("-dyn" if dyn else "") + ("-neel" if neel else "") + ("-neigh" if neigh else "") + base[len("tJHam"):]


class Lattice:
    def __init__(self, w, h):
        self.w, self.h, self.n = w, h, w * h
        self.pos = [(s % w, s // w) for s in range(self.n)]
        idx = {p: i for i, p in enumerate(self.pos)}
        self.dirs = ((1, 0), (-1, 0), (0, 1), (0, -1))
        self.nn = [[idx[(x + dx, y + dy)] for dx, dy in self.dirs if (x + dx, y + dy) in idx] for x, y in self.pos]
        self.bonds = sorted((i, j) for i in range(self.n) for j in self.nn[i] if i < j)
        self.diag = [[idx[(x + dx, y + dy)] for dx in (1, -1) for dy in (1, -1) if (x + dx, y + dy) in idx] for x, y in self.pos]
        self.idx = idx

    def axis(self, i, j):
        return 0 if self.pos[i][1] == self.pos[j][1] else 1


@lru_cache(None)
def lattice(w, h):
    return Lattice(w, h)


@lru_cache(64)
def basis(n, nholes, nbeta):
    """[(occupation tuple)], {occupation: index}, [determinant as holes+betas+alphas]"""
    occs, dets = [], []
    for hs in itertools.combinations(range(n), nholes):
        rest = [s for s in range(n) if s not in hs]
        for bs in itertools.combinations(rest, nbeta):
            o = [1] * n
            for s in hs:
                o[s] = 0
            for s in bs:
                o[s] = -1
            occs.append(tuple(o))
            dets.append(list(hs) + list(bs) + [s for s in rest if s not in bs])
    return occs, {o: i for i, o in enumerate(occs)}, dets


def _bond_class(L, occ, i, j):
    """'0' no hole next to the bond, 'par' a hole on the bond's axis, 'per' otherwise"""
    any_hole = False
    for e, other in ((i, j), (j, i)):
        for nb in L.nn[e]:
            if nb != other and occ[nb] == 0:
                any_hole = True
                if L.axis(e, nb) == L.axis(i, j):
                    return "par"
    return "per" if any_hole else "0"


@lru_cache(256)
def structure(w, h, nholes, nbeta):
    """Coefficient lists: {parameter-term: [(row, col, coeff)]}; H = sum over selected terms of par * coeff."""
    L = lattice(w, h)
    occs, index, _ = basis(L.n, nholes, nbeta)
    T = {}

    def add(sel, par, r, c, v):
        T.setdefault((sel, par), []).append((r, c, v))

    def moved(o, *chg):
        n = list(o)
        for s, v in chg:
            n[s] = v
        return index[tuple(n)]
    jname = {"0": "J", "par": "Jhpar", "per": "Jhper"}
    for r, o in enumerate(occs):
        holes = [s for s in range(L.n) if o[s] == 0]
        for hsite in holes:
            for e in L.nn[hsite]:
                if o[e] != 0:
                    add("bt", "t", r, moved(o, (hsite, o[e]), (e, 0)), 1.0)
        for i, j in L.bonds:
            if o[i] != 0 and o[j] != 0:
                par = jname[_bond_class(L, o, i, j)]
                add("bz", par, r, r, o[i] * o[j] / 4 - 0.25)
                if o[i] != o[j]:
                    add("bij", par, r, moved(o, (i, o[j]), (j, o[i])), 0.5)
        for hsite in holes:
            for e1 in L.nn[hsite]:
                if o[e1] == 0:
                    continue
                for e2 in L.nn[e1]:
                    if e2 == hsite or o[e2] == 0 or o[e2] == o[e1]:
                        continue
                    par = "hSDpar" if L.axis(hsite, e1) == L.axis(e1, e2) else "hSDper"
                    # the singlet on (e1, e2) moves to (h, e1): same order minus exchanged order
                    add("bSD", par, r, moved(o, (hsite, o[e1]), (e1, o[e2]), (e2, 0)), 1.0)
                    add("bSD", par, r, moved(o, (hsite, o[e2]), (e1, o[e1]), (e2, 0)), -1.0)
        for hsite in holes:
            x, y = L.pos[hsite]
            for e in range(L.n):
                if o[e] == 0:
                    continue
                dx, dy = abs(L.pos[e][0] - x), abs(L.pos[e][1] - y)
                if (dx, dy) == (1, 1):
                    add("btN", "tNNN", r, moved(o, (hsite, o[e]), (e, 0)), 1.0)
                elif (dx, dy) in ((2, 0), (0, 2)):
                    add("btN", "tnNNN", r, moved(o, (hsite, o[e]), (e, 0)), 1.0)
        for a, b in itertools.combinations(holes, 2):
            dx, dy = abs(L.pos[a][0] - L.pos[b][0]), abs(L.pos[a][1] - L.pos[b][1])
            if dx + dy == 1:
                add("bV", "VNN", r, r, 1.0)
            elif (dx, dy) == (1, 1):
                add("bV", "VNNNper", r, r, 1.0)
    out = {}
    for k, v in T.items():
        a = np.array(v)
        out[k] = (a[:, 0].astype(int), a[:, 1].astype(int), a[:, 2])
    return out


def hamiltonian(w, h, nholes, nbeta, pars, sel):
    occs, _, _ = basis(w * h, nholes, nbeta)
    H = np.zeros((len(occs), len(occs)))
    for (s, p), (r, c, v) in structure(w, h, nholes, nbeta).items():
        if sel[s]:
            np.add.at(H, (r, c), v * pars[p])
    return H


@lru_cache(64)
def s2_matrix(n, nholes, nbeta):
    occs, index, _ = basis(n, nholes, nbeta)
    d = len(occs)
    M = np.zeros((d, d))
    for r, o in enumerate(occs):
        M[r, r] += 0.75 * sum(1 for x in o if x)
        for i in range(n):
            for j in range(i + 1, n):
                if o[i] and o[j]:
                    M[r, r] += 2 * o[i] * o[j] / 4
                    if o[i] != o[j]:
                        q = list(o)
                        q[i], q[j] = q[j], q[i]
                        M[index[tuple(q)], r] += 1.0
    return M


def spin_of(vec, n, nholes, nbeta):
    v = np.asarray(vec, float).ravel()
    e = v @ (s2_matrix(n, nholes, nbeta) @ v) / (v @ v)
    return (-1 + np.sqrt(max(0.0, 1 + 4 * e))) / 2


@lru_cache(64)
def occ_array(n, nholes, nbeta):
    return np.array(basis(n, nholes, nbeta)[0])


def site_probabilities(vec, n, nholes, nbeta):
    """{1: [...], -1: [...], 0: [...]}"""
    v = np.asarray(vec, float).ravel() ** 2
    v = v / v.sum()
    O = occ_array(n, nholes, nbeta)
    return {s: ((O == s) * v[:, None]).sum(0) for s in (1, -1, 0)}


# --------------------------------------------------------------- mean-field embeddings
def ring(w, h):
    """The peripheral sites around the w x h block, in the package's numbering (south, east, north reversed, west reversed):
    returns [(x, y)]"""
    south = [(x, -1) for x in range(w)]
    east = [(w, y) for y in range(h)]
    north = [(x, h) for x in reversed(range(w))]
    west = [(-1, y) for y in reversed(range(h))]
    return south + east + north + west


def neel_dressing(w, h, pars, field, nholes, nbeta):
    """Diagonal energy of every determinant in the mean field of the ring; field: {1,-1,0: array over ring}"""
    L = lattice(w, h)
    R = ring(w, h)
    rp = {p: i for i, p in enumerate(R)}
    O = occ_array(L.n, nholes, nbeta)
    out = np.zeros(len(O))
    J, V, Vd = pars["J"], pars["VNN"], pars["VNNNper"]
    for s, (x, y) in enumerate(L.pos):
        for dx, dy in L.dirs:
            q = rp.get((x + dx, y + dy))
            if q is not None:
                out += -(J / 2) * ((O[:, s] == 1) * field[-1][q] + (O[:, s] == -1) * field[1][q]) + V * (O[:, s] == 0) * field[0][q]
        for dx in (1, -1):
            for dy in (1, -1):
                q = rp.get((x + dx, y + dy))
                if q is not None:
                    out += Vd * (O[:, s] == 0) * field[0][q]
    return out


def neel_initial_field(w, h):
    """Alternating spins along the ring, beta first; the alternation carries a shift on each new side"""
    R = ring(w, h)
    n = len(R)
    f = {1: np.zeros(n), -1: np.zeros(n), 0: np.zeros(n)}
    for s in range(n):
        k = s + 1 + (s >= w) + (s >= w + h) + (s >= 2 * w + h)
        f[-1 if k % 2 == 1 else 1][s] = 1.0
    return f


def neel_field_from(w, h, vec, nholes, nbeta):
    """The ring site next to a frontier site carries that site's probabilities with the spin reversed"""
    L = lattice(w, h)
    P = site_probabilities(vec, L.n, nholes, nbeta)
    R = ring(w, h)
    f = {1: np.zeros(len(R)), -1: np.zeros(len(R)), 0: np.zeros(len(R))}
    for q, (x, y) in enumerate(R):
        s = L.idx[(min(max(x, 0), w - 1), min(max(y, 0), h - 1))]
        f[1][q], f[-1][q], f[0][q] = P[-1][s], P[1][s], P[0][s]
    return f


def rotate(w, k, occ):
    """Occupation of a square block turned k quarter turns."""
    n = len(occ)
    o = list(occ)
    for _ in range(k % 4):
        new = [0] * n
        for s in range(n):
            x, y = s % w, s // w
            # site s goes to w*(w-1-x)+y
            new[w * (w - 1 - x) + y] = o[s]
        o = new
    return tuple(o)


def blocks_dressing(w, h, pars, P, nholes, nbeta, neighbour_only):
    """Static mean-field dressing by a copy of the block standing east of it; P: probabilities on that neighbour.
    Unless neighbour_only, the same neighbour is turned around the four sides of the (square) block."""
    L = lattice(w, h)
    occs, index, _ = basis(L.n, nholes, nbeta)
    O = occ_array(L.n, nholes, nbeta)
    J, V, Vd = pars["J"], pars["VNN"], pars["VNNNper"]
    base = np.zeros(len(occs))
    for y in range(h):
        a = L.idx[(w - 1, y)]
        b = L.idx[(0, y)]
        base += -(J / 2) * ((O[:, a] == 1) * P[-1][b] + (O[:, a] == -1) * P[1][b]) + V * (O[:, a] == 0) * P[0][b]
        for y2 in (y - 1, y + 1):
            if 0 <= y2 < h:
                base += Vd * (O[:, a] == 0) * P[0][L.idx[(0, y2)]]
    if neighbour_only:
        return base
    out = np.zeros(len(occs))
    for i, o in enumerate(occs):
        for k in range(4):
            out[index[rotate(w, k, o)]] += base[i]
    return out
