"""Running one unit of a check: generate plans, execute, judge, confirm, minimise."""
import copy
import traceback
import json
import os
import random
import time

from . import kernel as kmod
from . import world as wmod

DRY_BUDGET = 40_000_000
FORCE = os.environ.get("VERIF_FORCE_MODE")


class Check:
    """One property.  Subclasses give gen() and judge()."""
    id = None
    units = {"quick": 48, "thorough": 960}
    measure = "distinct hashes of (system calls, faults, thread switches, results) over all runs"
    text = ""

    def gen(self, rng, unit, tier):
        """Generator of plans; receives the executed World of each."""
        raise NotImplementedError

    def judge(self, W):
        """[(class, message)] for an executed plan; derives every expectation from the recorded history."""
        raise NotImplementedError

    def probes(self, W):
        """Names of rare situations this run reached."""
        return ()

    # classes that need a majority over other random starts before they count
    soft = ("lowest", "followed", "stall")
    # of these, classes whose frequency over all runs alone decides
    rate_only = ("stall",)

    def allowance(self, cls, acc):
        """How many runs with this soft class the known rate of the solver explains."""
        o = acc.get("ops", {})
        n = sum(v for k, v in o.items() if k in ("compute:ok", "diag:ok", "sweep:ok", "neel:ok", "blocks:ok"))
        return 3 + 8 * n / 19000.0


def phase(procs, threads, **kw):
    return dict({"procs": procs, "threads": threads}, **kw)


def with_modes(plan):
    if FORCE:
        for ph in plan["phases"]:
            if ph.get("mode", "none") == "none":
                ph["mode"] = FORCE
    for ph in plan["phases"]:
        ph.setdefault("mode", "none")
        ph.setdefault("budget", DRY_BUDGET)
    return plan


def execute(plan, record=False):
    return wmod.World(plan, record_calls=record).run()


def verdict(check, W):
    if W.k.over:
        return [("no_progress", "the step budget was exhausted (%s): %s" % (W.k.over, running(W)))]
    try:
        return check.judge(W)
    except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError) as e:
        # the oracles read whatever the program returned or wrote; no execution of a program that keeps its data layout ends here
        at = traceback.extract_tb(e.__traceback__)[-1]
        return [("unreadable", "a result has not the form it is documented with (%s: %s, while judging in %s)" % (type(e).__name__, str(e)[:160], at.name))]


def running(W):
    return ", ".join("%s in phase %d" % (r.op["op"], r.phase) for r in W.hist if r.status in ("running", "crash"))[:200]


def reseeded(plan, k):
    p = copy.deepcopy(plan)
    for ph in p["phases"]:
        for q in ph["procs"]:
            q["seed"] = (q["seed"] * 7919 + 104729 * (k + 1)) % (2 ** 31)
    return p


def soft_rate(check, plan, cls, n=12):
    """How many of n other random starts give the same class."""
    hits = 0
    for k in range(n):
        v = verdict(check, execute(reseeded(plan, k)))
        hits += any(c == cls for c, _ in v)
        if hits + (n - k - 1) < 9:
            break
    return hits


# ------------------------------------------------------------------ minimisation
def minimise(check, plan, cls, seconds=90):
    t0 = time.time()
    tries = [0]

    def fails(p):
        if time.time() - t0 > seconds:
            return False
        tries[0] += 1
        try:
            return any(c == cls for c, _ in verdict(check, execute(copy.deepcopy(p))))
        except (kmod.HarnessError, kmod.simfs.HarnessEscape):
            return False
    best = copy.deepcopy(plan)

    def ddmin(get, put):
        nonlocal best
        items = get(best)
        n = 2
        while len(items) >= 1 and time.time() - t0 < seconds:
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                cand = items[:i] + items[i + size:]
                p = copy.deepcopy(best)
                put(p, cand)
                if fails(p):
                    best, items = p, cand
                    n = max(n - 1, 2)
                    break
            else:
                if size == 1:
                    break
                n = min(n * 2, len(items))
    # whole phases, then threads, faults, preemptions, operations
    i = len(best["phases"]) - 1
    while i >= 0 and len(best["phases"]) > 1:
        p = copy.deepcopy(best)
        del p["phases"][i]
        if fails(p):
            best = p
        i -= 1
    for rnd in range(2):
        size0 = len(json.dumps(best))
        for i in range(len(best["phases"])):
            for key in ("faults", "schedule", "threads", "before", "power_loss"):
                v = best["phases"][i].get(key)
                if v:
                    def get(p, i=i, key=key):
                        return list(p["phases"][i].get(key) or [])

                    def put(p, c, i=i, key=key):
                        if key == "threads" and not c:
                            c = [{"proc": 0, "ops": []}]
                        p["phases"][i][key] = c
                    ddmin(get, put)
            for t in range(len(best["phases"][i]["threads"])):
                def get(p, i=i, t=t):
                    return list(p["phases"][i]["threads"][t]["ops"])

                def put(p, c, i=i, t=t):
                    p["phases"][i]["threads"][t]["ops"] = c
                ddmin(get, put)
            for key, val in (("room", None), ("late", False)):
                if best["phases"][i].get(key):
                    p = copy.deepcopy(best)
                    p["phases"][i][key] = val
                    if fails(p):
                        best = p
        if len(json.dumps(best)) == size0:
            break
    return best, tries[0]


# ------------------------------------------------------------------ one unit
class Stats:
    def __init__(self):
        self.runs = 0
        self.sim = 0.0
        self.steps = 0
        self.faults = {}
        self.hashes = set()
        self.states = set()
        self.ops = {}
        self.fsops = 0
        self.switches = 0
        self.modes = {}
        self.probes = {}
        self.nontrivial = 0

    def add(self, check, W):
        self.runs += 1
        self.sim += W.k.mono
        self.steps += W.steps_total
        self.switches += W.k.nswitch
        for f, n in W.k.faults_fired.items():
            self.faults[f] = self.faults.get(f, 0) + n
        h = W.hash()
        if h not in self.hashes:
            self.hashes.add(h)
            self.nontrivial += bool(W.k.faults_fired or W.k.nswitch or sum(1 for r in W.hist if r.status == "ok") > 1)
        for t in W.trees[-1:]:
            self.states.add(hash(tuple(sorted(t.items()))) if False else _tree_hash(t))
        for r in W.hist:
            k = "%s:%s" % (r.op["op"], r.status)
            self.ops[k] = self.ops.get(k, 0) + 1
        for d in W.phase_fs:
            self.fsops += sum(v[0] for v in d.values())
        for ph in W.plan["phases"]:
            self.modes[ph["mode"]] = self.modes.get(ph["mode"], 0) + 1
        try:
            names = list(check.probes(W))
        except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError):
            names = ["unreadable result"]
        for p in names:
            self.probes[p] = self.probes.get(p, 0) + 1

    def out(self):
        return {"runs": self.runs, "sim": self.sim, "steps": self.steps, "faults": self.faults, "hashes": sorted(self.hashes),
                "states": sorted(self.states), "ops": self.ops, "fsops": self.fsops, "switches": self.switches, "modes": self.modes,
                "probes": self.probes, "nontrivial": self.nontrivial}


def _tree_hash(t):
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    for k in sorted(t):
        h.update(k.encode() + b"\0" + t[k] + b"\0")
    return h.hexdigest()


def slim(plan):
    """Plan as shown in the evidence: without the couplings."""
    p = copy.deepcopy(plan)
    for c in p["cfgs"]:
        c["pars"] = "..."
    return p


def run_unit(check, seed, unit, tier, deadline=None):
    t_start = time.time()
    rng = random.Random("%s/%s/%s" % (seed, check.id, unit))
    st = Stats()
    out = {"unit": unit, "violation": None, "soft": [], "sample": None}
    g = check.gen(rng, unit, tier)
    W = None
    kmod.install()
    while True:
        try:
            plan = g.send(W)
        except StopIteration:
            break
        plan = with_modes(json.loads(json.dumps(plan)))
        W = execute(plan, record=plan.get("record", False))
        st.add(check, W)
        if out["sample"] is None or (W.k.faults_fired and not out["sample"]["faults"]):
            out["sample"] = {"plan": slim(plan), "faults": dict(W.k.faults_fired),
                             "history": ["%s %s%s" % (r.op["op"], r.status, " " + r.exc if r.exc else "") for r in W.hist][:12]}
        bad = verdict(check, W)
        soft = [b for b in bad if b[0] in check.soft]
        hard = [b for b in bad if b[0] not in check.soft]
        if soft and not hard:
            hits = soft_rate(check, plan, soft[0][0]) if soft[0][0] not in check.rate_only else 0
            if hits >= 9:
                hard = soft
                out["persistent"] = hits
            else:
                out["soft"].append({"plan": plan, "class": soft[0][0], "message": soft[0][1], "hits": hits})
        if hard:
            cls, msg = hard[0]
            small, tries = minimise(check, plan, cls) if cls not in check.soft else (plan, 0)
            v = verdict(check, execute(copy.deepcopy(small)))
            v = [x for x in v if x[0] == cls] or [(cls, msg)]
            out["violation"] = {"class": cls, "message": v[0][1], "plan": small, "original": plan, "tries": tries, "first": msg}
            break
        if deadline and time.time() > deadline:
            break
    out["stats"] = st.out()
    out["t"] = time.time() - t_start
    return out
