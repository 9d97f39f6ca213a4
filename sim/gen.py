"""Random configurations of the system (all choices from one seeded generator)."""
import math

from . import refmodel as R

PHYS = dict(t=-0.55, J=0.123, Jhpar=0.093, Jhper=0.113, hSDpar=-0.03, hSDper=-0.036, tNNN=0.13, tnNNN=-0.36, VNN=1.77, VNNNper=0.79)
SHAPES = [(2, 1, 1), (1, 2, 1), (3, 1, 1), (1, 3, 1), (4, 1, 1), (1, 4, 1), (2, 2, 1), (1, 1, 2), (3, 2, 1), (2, 3, 1), (5, 1, 1), (1, 5, 1),
          (4, 2, 1), (2, 4, 1), (2, 1, 2), (1, 2, 2), (3, 3, 1), (1, 1, 3), (6, 1, 1), (1, 6, 1)]

# large lattices, for sectors with few states only
BIG = [(5, 2, 1), (2, 5, 1), (4, 3, 1), (3, 4, 1), (6, 2, 1), (2, 6, 1), (1, 1, 4), (7, 1, 1), (1, 7, 1), (8, 1, 1), (1, 8, 1), (10, 1, 1), (1, 11, 1), (12, 1, 1),
       (1, 3, 2), (3, 1, 2), (1, 2, 3), (5, 3, 1), (3, 5, 1), (4, 4, 1), (7, 2, 1), (2, 7, 1)]


def dims(n, nh, nb):
    return math.comb(n, nh) * math.comb(n - nh, nb)


def pars(rng, style=None):
    style = style or rng.choice(["phys", "phys", "scaled", "random", "random", "random", "zeros"])
    if style == "phys":
        return dict(PHYS)
    if style == "scaled":
        return {k: v * rng.uniform(0.3, 3) for k, v in PHYS.items()}
    p = {k: round(rng.uniform(-2, 2), 4) for k in R.PAR}
    if style == "zeros":
        for k in R.PAR:
            if rng.random() < 0.3:
                p[k] = 0.0
    return p


def sel(rng, p=0.75):
    r = rng.random()
    if r < 0.3:
        return {k: True for k in R.SEL}
    return {k: rng.random() < p for k in R.SEL}


def cfg(rng, maxdim=100, mindim=1, shapes=None, nsites=None, holes=None, tol=None, style=None, full_sel=None, nb_val=None, geometry=None):
    while True:
        geo = geometry or rng.choice(shapes or SHAPES)
        n = geo[0] * geo[1] * geo[2] ** 2
        if nsites and not (nsites[0] <= n <= nsites[1]):
            continue
        nh = rng.choice(holes) if holes else min(n, rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4]))
        if nh > n:
            continue
        nb = rng.randint(0, n - nh) if rng.random() < 0.35 else rng.choice([(n - nh) // 2, (n - nh + 1) // 2])
        d = dims(n, nh, nb)
        if d <= 2 and rng.random() < 0.8:
            continue
        if mindim <= d <= maxdim:
            break
    k = nb_val or rng.choice([1, 1, 2, 3, 4, 6, 10])
    dm = 0 if rng.random() < 0.6 else rng.choice([150, 200, 500])   # never below the dimension: no restarts
    return {"geo": list(geo), "nholes": nh, "nbeta": nb, "pars": pars(rng, style), "sel": {q: True for q in R.SEL} if full_sel else sel(rng),
            "diag": {"nb_val": k, "stp": 2000, "tol": tol or rng.choice([1e-7, 1e-8, 1e-9]), "dim_max": dm}, "spins": rng.random() < 0.8,
            "bV_embedding": rng.random() < 0.3}


RING = [g for g in BIG if (g[0] + g[1]) * g[2] <= 7]      # the basis of the sites around the block stays small


def big(rng, maxdim=150, mindim=10, shapes=None, **kw):
    """A configuration on a large lattice: few holes and spins of one direction, or few electrons."""
    while True:
        geo = rng.choice(shapes or BIG)
        n = geo[0] * geo[1] * geo[2] ** 2
        few = rng.random() < 0.3
        el = rng.choice([1, 2, 2, 3]) if few else None
        holes = n - el if few else rng.choice([0, 1, 1, 1, 2, 2, 3])
        minority = rng.randint(0, el) if few else rng.choice([0, 1, 1, 2])
        nb = minority if rng.random() < 0.5 else n - holes - minority
        if nb >= 0 and mindim <= dims(n, holes, nb) <= maxdim:
            break
    c = cfg(rng, maxdim=10 ** 9, geometry=geo, holes=[holes], **kw)
    c["nbeta"] = nb
    if c["diag"]["dim_max"]:
        c["diag"]["dim_max"] = 500
    return c
