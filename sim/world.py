"""Executes a plan (plain JSON) on the code under test and records the history."""
import copy
import gc
import hashlib
import json
import sys

import numpy as np

from . import kernel as kmod
from . import oracles
from . import refmodel as R

DIRS = {"iso": "initialComputations/", "neel": "initialComputations/Peripheral_embedding/",
        "blocks": "initialComputations/Embedding_blocks/"}


# ------------------------------------------------------------------ plain-data views of program objects
def _num(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def snap_config(c):
    sr = c.sites_restriction
    return {"nsites": _num(c.nsites), "nholes": _num(c.nholes), "nbeta": _num(c.nbeta), "nalpha": _num(c.nalpha),
            "nbh": _num(c.nbh), "nbv": _num(c.nbv), "nblocs_side": _num(c.nblocs_side), "lattice_type": c.lattice_type,
            "sites_restriction": [[int(x) for x in s] for s in sr] if isinstance(sr, tuple) else ["list"] + list(sr),
            "bond_matrix": np.asarray(c.bond_matrix).astype(float).tolist(), "nb_conf": _num(c.nb_conf),
            "spin_number": _num(c.spin_number), "doping": _num(c.doping)}


def snap_data(d):
    g = d.diagonalization.initial_guess
    return {"config": snap_config(d.configuration),
            "pars": {k: _num(getattr(d.interactions, k)) for k in R.PAR},
            "diag": {k: _num(getattr(d.diagonalization, k)) for k in ("nb_val", "stp", "tol", "dim_max")},
            "guess": None if g is None else np.array(g).tolist(),
            "bools": {k: bool(getattr(d.bool_interactions, k)) for k in R.SEL + ("bV_embedding", "b_spin_multipicities")}}


def dense(h):
    return np.array(h.toarray()) if hasattr(h, "toarray") else np.array(h)


def snap_result(dc):
    if dc is None:
        return None
    s = snap_data(dc.data)
    s["dets"] = [[int(x) for x in d] for d in dc.determinants]
    s["ham"] = dense(dc.hamiltonian)
    s["eigvals"] = [_num(x) for x in dc.eigenstates.eigvals]
    s["spins"] = [_num(x) for x in dc.eigenstates.spins]
    s["eigvects"] = np.array(dc.eigenstates.eigvects)
    t = dc.times
    s["times"] = None if t is None else [_num(t.tbasis), _num(t.thamiltonian), _num(t.teigenstates)]
    return s


def same(a, b, skip=()):
    """First difference between two snapshots, or None."""
    if a is None or b is None:
        return None if a is b else "one of them is missing"
    for k in a:
        if k in skip:
            continue
        x, y = a[k], b.get(k)
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if x is None or y is None or x.shape != y.shape or not np.array_equal(x, y):
                return k
        elif x != y:
            return k
    return None


# ------------------------------------------------------------------ history
class Rec:
    __slots__ = ("phase", "thread", "proc", "i", "op", "status", "exc", "msg", "t0", "t1", "s0", "s1", "val", "before", "after",
                 "tree0", "tree1", "drawn", "obj", "extra", "late", "eigh", "fired", "saving", "send", "where", "kpid")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, None)
        for k, v in kw.items():
            setattr(self, k, v)


def spin_mixture(conf, dets, seed, part):
    """A state with total spins S1 and S2 = S1 + 1 and S(S+1) for S = S1 + part, as eigenstates of Hamiltonians without exchange may be."""
    n, nh, nb = int(conf.nsites), int(conf.nholes), int(conf.nbeta)
    perm, _ = oracles.basis_perm([list(map(int, d)) for d in dets], n, nh, nb)
    g = np.random.default_rng(seed)
    v = g.standard_normal(conf.nb_conf)
    ne = n - nh
    S = [x / 2 for x in range(abs(ne - 2 * nb), ne + 1, 2)]
    if perm is None or len(S) < 2:
        return v[:, None]
    M = R.s2_matrix(n, nh, nb)
    out = np.zeros(len(v))
    i = int(g.integers(len(S) - 1)) if seed % 2 else 0
    x = S[i] + part
    weight = ((S[i] + 1) * (S[i] + 2) - x * (x + 1)) / ((S[i] + 1) * (S[i] + 2) - S[i] * (S[i] + 1))
    for a, w in ((i, weight), (i + 1, 1 - weight)):
        u = v / np.linalg.norm(v)
        for s in S:
            if s != S[a]:
                u = (M @ u - s * (s + 1) * u) / (S[a] * (S[a] + 1) - s * (s + 1))
        out += np.sqrt(w) * u / np.linalg.norm(u)
    return out[perm][:, None]


class World:
    def __init__(self, plan, record_calls=False):
        kmod.install()
        self.plan = plan
        self.k = kmod.Kernel()
        kmod.K = self.k
        if record_calls:
            self.k.rec_calls = []
            self.k.rec_lines = {}
        self.hist = []
        self.procs = {}
        self.envs = {}
        self.file_log = []          # (seq, rel, bytes or None) for every change of a *.json result file
        self.fresh = 0
        self.seq = 0
        self.phase_steps = []
        self.phase_fs = []
        self.phase_eigh = []
        self.decoded = {}
        self.k.fs.on_mut = self._mut
        self.trees = []
        self.syncs = []
        self.losses = []
        self.steps_total = 0

    # ---- observation of result files
    def _mut(self, path, node):
        pre = self.k.fs.CWD + "/"
        if path.startswith(pre + "initialComputations/") and path.endswith(".json"):
            self.seq += 1
            t = self.k.cur
            self.file_log.append((self.seq, path[len(pre):], None if node is None else bytes(node.data),
                                  "power" if t is None else t.proc.id))
        elif self.k.figures and path.startswith(pre):
            # where a figure is: every name under which its bytes are to be found
            if node is None:
                for d in self.k.figures.values():
                    if path in d["paths"]:
                        d["paths"].remove(path)
            else:
                d = self.k.figures.get(bytes(node.data)) if len(node.data) < 80 else None
                if d is not None and path not in d["paths"]:
                    d["paths"].append(path)

    # ---- running
    def run(self):
        was = gc.isenabled()
        gc.collect()
        gc.disable()
        try:
            for n, ph in enumerate(self.plan["phases"]):
                self._phase(n, ph)
        finally:
            if was:
                gc.enable()
        return self

    def _phase(self, n, ph):
        k = self.k
        for act in ph.get("before", ()):
            self._harness_action(act)
        procs = []
        for p in ph["procs"]:
            cur = self.procs.get(p["id"])
            if cur is None or cur.dead or p.get("fresh"):
                cur = k.boot(p["seed"], p.get("skew", 0.0))
                self.procs[p["id"]] = cur
                self.envs[p["id"]] = {}
            procs.append((p["id"], cur))
        k.fs.capacity = None
        if ph.get("room") is not None:
            k.fs.capacity = k.fs.used() + ph["room"]
        threads = []
        for ti, th in enumerate(ph["threads"]):
            pid, proc = procs[th["proc"] % len(procs)]
            threads.append((proc, self._program(n, ti, pid, proc, th["ops"])))
        faults = []
        for f in ph.get("faults", ()):
            f = dict(f)
            # the kernel addresses processes by the position of their first thread
            want = procs[f.get("proc", 0) % len(procs)][1]
            idx = [i for i, (p, _) in enumerate(threads) if p is want]
            if not idx:
                continue
            f["proc"] = idx[0]
            faults.append(f)
        k.nphase = n
        k.run_phase(threads, faults, ph.get("schedule", ()), ph.get("budget"), ph.get("mode", "call"))
        self.steps_total += k.nsteps
        self.phase_steps.append(k.nsteps)
        self.phase_fs.append({p.id: (p.fs_ops, dict(p.fs_kinds), p.steps, p.eigh) for p, _ in threads})
        self.phase_eigh.append(sum(p.eigh for p in {id(q): q for q, _ in threads}.values()))
        k.fs.capacity = None
        if k.machine_down:
            k.machine_down = False
            for p in self.procs.values():
                p.dead = True
        if ph.get("power_loss") is not None and any(p.dead for p, _ in threads):
            k.count_fault("power_loss")
            for p in self.procs.values():
                p.dead = True
            old = k.fs.tree()
            k.fs.power_loss(ph["power_loss"])
            self.seq += 1
            new = k.fs.tree()
            self.losses.append((self.seq, old, new))
            for rel in sorted(set(old) | set(new)):
                if old.get(rel) != new.get(rel) and rel.startswith("initialComputations/") and rel.endswith(".json"):
                    self.file_log.append((self.seq, rel, new.get(rel), "power"))
        if ph.get("late"):
            for r in self.hist:
                if hasattr(r.obj, "eigenstates") and r.status == "ok":
                    r.late = snap_result(r.obj)
        self.trees.append(k.fs.tree())

    def _harness_action(self, act):
        k = self.k
        if act["do"] == "truncate":
            rel = act["rel"]
            data = k.fs.get(rel)
            if data is not None:
                k.count_fault("stored_file_damage")
                n = int(len(data) * act["frac"])
                new = data[:n] + act.get("tail", "").encode()
                k.fs.put(rel, new)
                self.seq += 1
                self.file_log.append((self.seq, rel, new, "harness"))
        elif act["do"] == "remove":
            p = k.fs.absolute(act["rel"])
            d = k.fs.lookup(p.rsplit("/", 1)[0])
            if d is not None:
                d.entries.pop(p.rsplit("/", 1)[1], None)
                d.dentries.pop(p.rsplit("/", 1)[1], None)
                self.seq += 1
                self.file_log.append((self.seq, act["rel"], None, "harness"))
        elif act["do"] == "sync":
            k.fs.sync_all()
            self.seq += 1
            self.syncs.append(self.seq)
        elif act["do"] == "mkdir":
            k.fs.mkdirs(k.fs.absolute(act["rel"]))
        elif act["do"] == "wall":
            k.wall_off += act["secs"]
            k.count_fault("clock_jump")

    def _program(self, n, ti, pid, proc, ops):
        def body():
            for i, op in enumerate(ops):
                self._op(n, ti, pid, proc, i, op)
        return body

    def _op(self, n, ti, pid, proc, i, op):
        k = self.k
        env = self.envs[pid]
        self.seq += 1
        rec = Rec(phase=n, thread=ti, proc=pid, i=i, op=op, status="running", t0=k.mono, s0=self.seq, kpid=proc.id)
        self.hist.append(rec)
        if op.get("tree"):
            rec.tree0 = k.fs.tree()
        d0 = len(k.drawn)
        e0, f0 = proc.eigh, len(k.fired)
        rec.extra = k.cur.npic
        if any(op.get(q) is not None and op[q] not in env for q in ("data", "of")):
            rec.status = "skip"
            rec.t1, rec.s1 = k.mono, self.seq
            return
        shared = {q: env[op[q]] for q in ("data", "of") if op.get(q) is not None}
        if op["op"] in INPUT_OPS:
            rec.before = {nm: snap_any(o) for nm, o in shared.items()}
        try:
            rec.obj, rec.val = getattr(self, "op_" + op["op"])(env, op, rec)
            rec.status = "ok"
        except (kmod.SimCrash, kmod.SimBudget):
            rec.status = "crash"
            self.seq += 1
            rec.send = self.seq
            raise
        except (kmod.HarnessError, kmod.simfs.HarnessEscape):
            raise
        except BaseException as e:
            if proc.dead:
                rec.status = "crash"
                self.seq += 1
                rec.send = self.seq
                raise kmod.SimCrash()
            rec.status = "exc"
            rec.exc = type(e).__name__
            rec.msg = str(e)[:300]
            rec.where = _where(e)
            del e
        if proc.dead:
            rec.status = "crash"
            self.seq += 1
            rec.send = self.seq
            raise kmod.SimCrash()
        rec.t1 = k.mono
        self.seq += 1
        rec.s1 = self.seq
        rec.eigh = proc.eigh - e0
        rec.fired = [f[1] for f in k.fired[f0:] if f[0] == pid_of(proc) and f[1] not in BENIGN]
        if op["op"] in INPUT_OPS:
            rec.after = {nm: snap_any(o) for nm, o in shared.items()}
        if op.get("tree"):
            rec.tree1 = k.fs.tree()
        rec.drawn = [dict(d, path=p) for d in k.drawn[d0:] if d["proc"] == proc.id for p in d["paths"] or [d["path"]] if p is not None]
        if rec.obj is not None and "as" in op:
            env[op["as"]] = rec.obj

    # ---- building program objects from the plan
    def cfg(self, op):
        return self.plan["cfgs"][op["cfg"]]

    def make_configuration(self, c, nbeta=None):
        lF, bC = sys.modules["latticeFunctions"], sys.modules["baseConstruction"]
        nbh, nbv, nb = c["geo"]
        bm = lF.build_rectangular_bond_matrix(nbh, nbv, nb)
        kw = {}
        if c.get("restrict") is not None:
            r = c["restrict"]
            kw["sites_restriction"] = (list(r[0]), list(r[1])) if isinstance(r[0], list) else list(r)
        if c.get("type"):
            kw["lattice_type"] = c["type"]
        return bC.Configuration(bond_matrix=bm, nholes=c["nholes"], nbeta=c["nbeta"] if nbeta is None else nbeta,
                                nbh=nbh, nbv=nbv, nblocs_side=nb, **kw)

    def make_data(self, c):
        itr, dav, iC = sys.modules["interactions"], sys.modules["davidson"], sys.modules["initialComputations"]
        conf = self.make_configuration(c)
        g = c.get("guess")
        guess = None
        if g is not None:
            guess = np.random.default_rng(g["seed"]).standard_normal((conf.nb_conf, min(conf.nb_conf, c["diag"]["nb_val"] + g.get("more", 0))))
            guess = guess * g.get("scale", 1.0)
        return iC.Data(conf, itr.Interactions(**c["pars"]),
                       dav.Diagonalization(c["diag"]["nb_val"], c["diag"]["stp"], c["diag"]["tol"], c["diag"]["dim_max"], initial_guess=guess),
                       iC.BoolInteractions(**{k: c["sel"][k] for k in R.SEL}, bV_embedding=bool(c.get("bV_embedding", False)),
                                           b_spin_multipicities=bool(c.get("spins", True))))

    def _data(self, env, op):
        if op.get("data") is not None:
            d = env[op["data"]]
            return d.data if hasattr(d, "eigenstates") else d
        if op.get("keep"):
            # the caller uses one object for all its calls
            k = ("data", json.dumps(self.cfg(op), sort_keys=True))
            if k not in env:
                env[k] = self.make_data(self.cfg(op))
            return env[k]
        return self.make_data(self.cfg(op))

    # ---- operations
    def op_data(self, env, op, rec):
        d = self.make_data(self.cfg(op))
        return d, snap_data(d)

    def op_compute(self, env, op, rec):
        r = sys.modules["initialComputations"].perform_initial_computations(self._data(env, op))
        return r, snap_result(r)

    def op_save(self, env, op, rec):
        dc = env[op["of"]]
        kind = op.get("kind", "iso")
        rec.saving = snap_result(dc)
        if kind == "iso":
            sys.modules["initialComputations"].save_data(dc)
        elif kind == "neel":
            sys.modules["embedding"].save_data_peripheral_embedding(dc)
        else:
            f = op.get("flags", [False, False, False])
            sys.modules["embedding"].save_data_embedding_blocks(dc, dynamic_embedding=f[0], neel_embedding=f[1], neighbor_embedding=f[2])
        return None, rec.saving

    def op_fake(self, env, op, rec):
        """A result assembled from the program's own classes, with arbitrary contents."""
        import scipy.sparse as sp
        iC, dav = sys.modules["initialComputations"], sys.modules["davidson"]
        c = self.cfg(op)
        d = self.make_data(c)
        conf = d.configuration
        g = np.random.default_rng(op["seed"])
        n = int(conf.nb_conf)
        H = g.standard_normal((n, n)) * (g.random((n, n)) < 0.4) * 10.0 ** g.integers(-3, 3)
        H = H + H.T
        e, V = np.linalg.eigh(H)
        if op.get("levels"):        # equal or close levels
            for i in range(1, n):
                if g.random() < 0.6:
                    e[i] = e[i - 1] + (0.0 if op["levels"] == "equal" or g.random() < 0.4 else 10.0 ** g.uniform(-11, -3))
            e = np.sort(e)
            H = (V * e) @ V.T
            H = (H + H.T) / 2
        m = max(1, min(n, c["diag"]["nb_val"]))
        times = iC.Times(float(g.random()), float(g.random() * 1e4), float(g.random() * 1e-4))
        spins = [float(x) / 2 for x in g.integers(0, 5, m)] if c.get("spins", True) else []
        dets = R.basis(conf.nsites, conf.nholes, conf.nbeta)[2]
        r = iC.DataComputations(d, [list(x) for x in dets], sp.csr_matrix(H), dav.Eigenstates([float(x) for x in e[:m]], spins, V[:, :m].copy()), times)
        return r, snap_result(r)

    def op_load(self, env, op, rec):
        r = sys.modules["initialComputations"].load_data(op["rel"][len("initialComputations/"):])
        return r, snap_result(r)

    def op_sweep(self, env, op, rec):
        sys.modules["initialComputations"].perform_configurations_computations(self._data(env, op))
        return None, None

    def op_neel(self, env, op, rec):
        kw = {}
        if op.get("nb_val") is not None:
            kw["nb_val"] = op["nb_val"]
        r = sys.modules["embedding"].embedding_neel(self._data(env, op), op["sc_tol"], op["max_iter"], **kw)
        return r, snap_result(r)

    def op_blocks(self, env, op, rec):
        r = sys.modules["embedding"].embedding_blocks(self._data(env, op), op["sc_tol"], op["max_iter"], neel_embedding=bool(op.get("neel")),
                                                      dynamic_embedding=bool(op.get("dyn")),
                                                      neighbor_embedding=bool(op.get("neigh")), reverse_spins=bool(op.get("rev", True)))
        return r, snap_result(r)

    def op_ham(self, env, op, rec):
        bC, hC = sys.modules["baseConstruction"], sys.modules["hamiltonianConstruction"]
        d = self._data(env, op)
        b = bC.construct_basis(d.configuration)
        h = hC.build_hamiltonian(configuration=d.configuration, interactions=d.interactions, basis=b, bool_interactions=d.bool_interactions)
        if op.get("as"):
            env[op["as"] + ".ham"] = h
        return None, {"dets": [[int(x) for x in t] for t in b.determinants], "ham": dense(h)}

    def op_diag(self, env, op, rec):
        """Diagonalise the Hamiltonian of an earlier result directly."""
        dav = sys.modules["davidson"]
        h = env[op["of"]].hamiltonian
        h0 = dense(h)
        g = op.get("guess")
        guess = None
        g0 = None
        if g is not None:
            if g["kind"] == "random":
                guess = np.random.default_rng(g["seed"]).standard_normal((h.shape[0], g["cols"])) * g.get("scale", 1.0)
                if g.get("positive"):
                    guess = abs(guess)
            elif g["kind"] == "own":
                guess = env[op["of"]].eigenstates.eigvects[:, : g["cols"]]
            elif g["kind"] == "near":
                v = env[op["of"]].eigenstates.eigvects[:, : g["cols"]]
                guess = v + g["eps"] * np.random.default_rng(g["seed"]).standard_normal(v.shape)
            g0 = np.array(guess)
        e = dav.modified_davidson_algorithm(h, op["nb_val"], guess, op.get("stp", 1000), op["tol"], op["dim_max"])
        return None, {"eigvals": [_num(x) for x in e.eigvals], "eigvects": np.array(e.eigvects), "spins": list(e.spins), "ham": h0,
                      "ham_changed": not np.array_equal(dense(h), h0),
                      "guess_changed": guess is not None and not np.array_equal(guess, g0)}

    def op_probe(self, env, op, rec):
        """Spin number and site probabilities of the vectors of a result."""
        itr, bC = sys.modules["interactions"], sys.modules["baseConstruction"]
        dc = env[op["of"]]
        conf = dc.data.configuration
        basis = bC.Basis(conf, dc.determinants)
        out = []
        vs = dc.eigenstates.eigvects
        for q in op["vecs"]:
            if q["kind"] == "eig":
                v = vs[:, [q["col"] % vs.shape[1]]] * q.get("scale", 1.0)
            elif q["kind"] == "mix":
                v = spin_mixture(conf, dc.determinants, q["seed"], q["part"]) * q.get("scale", 1.0)
            else:
                v = np.random.default_rng(q["seed"]).standard_normal((conf.nb_conf, 1)) * q.get("scale", 1.0)
            v = np.array(v)
            v0 = v.copy()
            o = {"vec": v0[:, 0]}
            if q.get("spin", True):
                o["spin"] = _num(itr.compute_spin_number(conf, v))
            o["lat"] = {s: np.array(x, float).ravel() for s, x in bC.get_spins_probabilitites_lattice(basis, v).items()}
            o["lat_rev"] = {s: np.array(x, float).ravel() for s, x in bC.get_spins_probabilitites_lattice(basis, v, reverse_spins=True).items()}
            o["rect"] = {s: np.array(bC.get_probability_spin_rectangular_lattice(basis, v, s), float) for s in (1, -1, 0)}
            o["changed"] = not np.array_equal(v, v0)
            out.append(o)
        return None, {"config": snap_config(conf), "dets": [list(map(int, d)) for d in dc.determinants], "items": out}

    def op_plots(self, env, op, rec):
        pP = sys.modules["postProcessing"]
        d = self._data(env, op)
        k = ("inp", json.dumps([op["nb_excited"], op["nb_plot"], op["flags"]], sort_keys=True))
        if not op.get("keep") or k not in env:
            env[k] = pP.InputPlotting(op["nb_excited"], op["nb_plot"], **op["flags"])
        inp = env[k]
        (pP.generate_plots if op.get("all") else pP.generate_plots_configuration)(d, inp)
        return None, None

    # ---- decoding stored bytes with the program's own loader
    def decode(self, items):
        """[(rel, bytes)] -> [snapshot | ('exc', name)]; runs load_data in a fresh process on a scratch disk."""
        todo = []
        for rel, data in items:
            key = (rel, hashlib.blake2b(data, digest_size=12).digest())
            if key not in self.decoded and key not in [t[0] for t in todo]:
                todo.append((key, rel, data))
        if todo:
            k = self.k
            keep = (k.fs, k.mono, dict(k.faults_fired), k.sig.copy(), k.sched_sig.copy(), k.nsteps, k.nswitch)
            scratch = kmod.simfs.SimFS(k)
            k.fs = scratch
            p = k.boot(12345)
            res = self.decoded

            def body():
                iC = sys.modules["initialComputations"]
                for key, rel, data in todo:
                    scratch.put(rel, data)
                    try:
                        res[key] = snap_result(iC.load_data(rel[len("initialComputations/"):]))
                    except (kmod.SimCrash, kmod.SimBudget, kmod.HarnessError):
                        raise
                    except BaseException as e:
                        res[key] = ("exc", type(e).__name__)
            k.run_phase([(p, body)], mode="none")
            (k.fs, k.mono, k.faults_fired, k.sig, k.sched_sig, k.nsteps, k.nswitch) = keep
        return [self.decoded[(rel, hashlib.blake2b(data, digest_size=12).digest())] for rel, data in items]

    def stored(self, rel, tree=None):
        data = (tree if tree is not None else self.k.fs.tree()).get(rel)
        return None if data is None else self.decode([(rel, data)])[0]

    def hash(self):
        h = hashlib.blake2b(self.k.trace_hash().encode(), digest_size=12)
        for r in self.hist:
            h.update(("%s %s %s %s;" % (r.op["op"], r.status, r.exc, r.s1)).encode())
            if isinstance(r.val, dict) and "eigvects" in r.val:
                h.update(np.ascontiguousarray(r.val["eigvects"]).tobytes())
        for t in self.trees:
            for rel in sorted(t):
                h.update(rel.encode() + t[rel])
        return h.hexdigest()


BENIGN = ("short_write", "stall", "clock_jump")     # nothing an operation may fail on


def pid_of(proc):
    return proc.id


def snap_any(o):
    if hasattr(o, "eigenstates"):
        return snap_result(o)
    return snap_data(o)


def _where(e):
    out, tb = [], e.__traceback__
    while tb is not None:
        out.append("%s:%s" % (tb.tb_frame.f_code.co_filename.rsplit("/", 1)[-1], tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out[-6:]


INPUT_OPS = {"compute", "sweep", "neel", "blocks", "ham", "plots", "diag", "probe", "save"}
