"""C09: static block embedding is a self-consistent mean field of its own state."""
from .common import *
from . import stages as S
from .c08 import C08

CHAINS = [(2, 1, 1), (3, 1, 1), (4, 1, 1), (5, 1, 1), (2, 1, 2), (3, 2, 1), (2, 3, 1), (4, 2, 1), (2, 2, 1), (1, 1, 2), (2, 2, 1)]


class C09(C08):
    id = "C09"
    units = {"quick": 720, "thorough": 6000}
    text = ("Seeded programs compute and store an isolated result (and its Néel embedding) and embed it among copies of itself, with seeded random starts of the "
            "diagonaliser, both spin orientations of the copies, one or four of them, tolerances and iteration limits, killed, interrupted or hit by faults at system "
            "calls and at lines of the embedding, and rerun in the same or a new program; each result is tested for self-consistency with an independent mean field "
            "and compared with independent iterations.")
    op = "blocks"

    def configuration(self, rng, unit):
        if unit % 24 == 5:
            return G.big(rng, maxdim=40, mindim=2, shapes=[g for g in G.RING if g[0] * g[2] > 1], tol=1e-9, nb_val=rng.choice([1, 2]),
                         style=rng.choice(["phys", "scaled", "random"]))
        return G.cfg(rng, maxdim=rng.choice([12, 12, 24, 36]), mindim=2, shapes=[(2, 2, 1), (1, 1, 2)] if rng.random() < 0.45 else CHAINS, tol=rng.choice([1e-9, 1e-9, 1e-7, 1e-7, 1e-4, 1e-3, 1e-2]),
                     nb_val=rng.choice([1, 2, 3]), style=rng.choice(["phys", "phys", "scaled", "random"]))

    def one(self, rng, c, i):
        w, h = O.wh(c)
        sct, limit = rng.choice([1e-2, 1e-3, 1e-3, 1e-4, 1e-5, 1e-5, 0.3, 10.0]), rng.choice([1, 2, 3, 6, 12, 12])
        if c["diag"]["tol"] > 1e-6 and rng.random() < 0.8:
            # much tighter than the diagonalisations
            sct, limit = rng.choice([1e-5, 1e-6, 1e-7]), rng.choice([6, 12, 20])
        return {"op": "blocks", "cfg": i, "sc_tol": sct, "max_iter": limit,
                "neel": rng.random() < 0.3, "neigh": not (w == h == 2) or rng.random() < 0.4, "rev": rng.random() < 0.6}

    def prepare(self, rng, c, fake, ops):
        out = super().prepare(rng, c, fake, ops)
        if any(o["neel"] for o in ops):
            if rng.random() < 0.5:
                out.append({"op": "neel", "cfg": 0, "sc_tol": 1e-4, "max_iter": rng.choice([1, 2, 4]), "nb_val": rng.choice([None, 1, 2])})
            else:
                out += [{"op": "fake", "cfg": 0, "seed": seed(rng), "as": "n"}, {"op": "save", "of": "n", "kind": "neel"}]
        return out


CHECK = C09()
