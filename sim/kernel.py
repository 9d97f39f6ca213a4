"""Deterministic simulation kernel: one process, one running task at a time.

A *plan* (plain JSON) fixes everything: which simulated processes run which operations, where the
scheduler preempts, which fault hits where, what the clocks do, which random numbers are drawn.
Executing the same plan on the same source tree gives the same execution, step for step.
"""
import errno
import hashlib
import importlib.abc
import importlib.util
import io
import os
import random as _pyrandom
import sys
import threading
import time
import types
import _thread

from . import simfs

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = 3
EPOCH = 1_700_000_000.0


class SimCrash(BaseException):
    """The simulated process has been killed; nothing it does any more has an effect."""


class SimBudget(BaseException):
    """The run used up its step budget: no progress."""


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ loading the code under test
_code_cache = {}
_codes = []


def repo_names():
    return sorted(f[:-3] for f in os.listdir(REPO) if f.endswith(".py") and f != "main.py" and f.isidentifier is not None
                  and f[:-3].isidentifier())


def load_sources():
    """Compile the repository's current sources (never cached on disk)."""
    _code_cache.clear()
    _codes.clear()
    for name in repo_names():
        path = os.path.join(REPO, name + ".py")
        with io.open(path, "rb") as f:
            src = f.read()
        code = compile(src, path, "exec", dont_inherit=True)
        _code_cache[name] = (code, path)
        _collect(code)


def _collect(code):
    _codes.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _collect(c)


class Identities:
    """The builtin id for the code under test: identities of live objects differ, and the identity of an object that has been freed is the
    first to be given out again.  (Addresses of the real allocator depend on everything the interpreter did before.)"""
    BASE = 0x7f0000000000

    def __init__(self):
        self.held = {}      # real id -> [object, identity]; each object is held until nobody else holds it
        self.free = []
        self.count = 0
        self.calls = 0

    def __call__(self, obj):
        self.calls += 1
        if len(self.held) < 4000 or self.calls % 500 == 0:
            self.sweep()
        e = self.held.get(id(obj))
        if e is None:
            if self.free:
                n = self.free.pop()
            else:
                n = self.BASE + 64 * self.count
                self.count += 1
            e = self.held[id(obj)] = [obj, n]
        return e[1]

    def sweep(self):
        again = True
        while again:
            again = False
            for k in list(self.held):
                e = self.held[k]
                if sys.getrefcount(e[0]) <= 2:
                    self.free.append(e[1])
                    del self.held[k]
                    again = True


_identities = Identities()


class _Loader(importlib.abc.Loader):
    def __init__(self, name):
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, path = _code_cache[self.name]
        module.__file__ = path
        module.__dict__["id"] = _identities
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name in _code_cache:
            return importlib.util.spec_from_loader(name, _Loader(name), origin=_code_cache[name][1])
        return None


# ------------------------------------------------------------------ simulated processes and tasks
class Proc:
    def __init__(self, pid, seed, skew=0.0):
        self.id = pid
        self.seed = seed
        self.skew = skew            # offset of this machine's wall clock
        self.dead = False
        self.death = None
        self.modules = {}
        self.np_state = None
        self.py_state = None
        self.gcf = None
        self.names = 0
        self.steps = 0
        self.fs_ops = 0
        self.fs_kinds = {}
        self.eigh = 0
        self.qr = 0
        self.draw = 0
        self.log = []               # fs ops of this process: (kind, path)


class Task:
    def __init__(self, tid, proc, ops):
        self.id = tid
        self.proc = proc
        self.ops = ops
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.ident = None
        self.done = False
        self.waiting = None
        self.npic = 0


K = None            # the active kernel


def _fs():
    k = K
    if k is None or k.passthrough or not k.inside():
        return None
    return k.fs


class Kernel:
    def __init__(self, plan=None, seed=0):
        self.seed = seed
        self.mono = 0.0
        self.wall_off = 0.0
        self.tick = 1e-7
        self.fs = None
        self.procs = {}
        self.tasks = []
        self.cur = None
        self.nsteps = 0
        self.nswitch = 0
        self.sig = hashlib.blake2b(digest_size=12)
        self.sched_sig = hashlib.blake2b(digest_size=12)
        self.faults_fired = {}
        self.budget = 10 ** 9
        self.passthrough = False
        self.harness_depth = 0
        self.mode = "none"
        self.preempt = {}
        self.next_preempt = None
        self.f_fs = {}
        self.f_step = {}
        self.f_eigh = {}
        self.f_qr = {}
        self.f_func = []
        self.over = None
        self.main_ident = _thread.get_ident()
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.events = []
        self.rec_calls = None
        self.rec_lines = None
        self.next_pid = 0
        self.escape = None
        self.drawn = []
        self.figures = {}
        self.nfig = 0
        self.fired = []             # (proc, fault, simulated time)
        self.stalls = []            # (phase, simulated time, seconds, {thread: (call stack, computations begun)})
        self.stalled = 0.0
        self.nphase = -1
        self.fs = simfs.SimFS(self)

    # ---- identity
    def inside(self):
        return True

    def current_proc(self):
        return self.cur.proc if self.cur is not None else None

    def wall(self):
        p = self.cur.proc if self.cur is not None else None
        return EPOCH + self.mono + self.wall_off + (p.skew if p is not None else 0.0)

    def count_fault(self, kind, n=1):
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + n
        if self.cur is not None:
            self.fired.append((self.cur.proc.id, kind, self.mono))

    # ---- file-system points
    def fs_point(self, kind, path, proc=None, size=None):
        t = self.cur
        if t is None or _thread.get_ident() != t.ident:
            return None
        p = t.proc
        if p.dead:
            raise SimCrash()
        p.fs_ops += 1
        self.mono += 1e-3
        base = os.path.basename(path)
        lab = kind + ":" + (base if base.endswith((".json", ".png", ".pdf")) else ("dir" if kind == "mkdir" else "tmp"))
        p.fs_kinds[kind] = p.fs_kinds.get(kind, 0) + 1
        p.log.append((kind, path))
        self.sig.update(("%d %s;" % (p.id, lab)).encode())
        act = None
        f = self.f_fs.pop((p.id, p.fs_ops), None)
        self.step("fs")
        if f is None and self.f_kind:
            for g in self.f_kind:
                if g["proc"] == p.id and g["op"] == kind and not g.get("fired") and p.fs_kinds[kind] == g["n"]:
                    g["fired"] = True
                    f = g
                    break
        if f is not None:
            act = self._apply_fs_fault(f, kind, path, size)
        return act

    def fs_after(self, kind, path):
        t = self.cur
        if t is None or _thread.get_ident() != t.ident:
            return
        f = self.pending_after
        if f is not None and f[0] is t.proc:
            self.pending_after = None
            self.kill_current("after %s" % kind, f[1])

    pending_after = None
    f_kind = ()

    def _apply_fs_fault(self, f, kind, path, size):
        typ = f["fault"]
        if typ == "kill":
            when = f.get("when", "before")
            if when == "after" and kind in ("open-w", "write", "fsync", "rename", "unlink", "mkdir"):
                self.pending_after = (self.cur.proc, bool(f.get("machine")))
                return None
            if when == "torn" and kind == "write":
                return ("torn", f.get("frac", 0.5), bool(f.get("machine")))
            self.kill_current("%s %s" % (when, kind), bool(f.get("machine")))
        elif typ == "io":
            if kind in ("stat", "readdir"):
                return None
            self.count_fault("io_error:" + f["errno"])
            no = getattr(errno, f["errno"])
            if kind == "write" and f.get("frac"):
                # part of the data reaches the file, then the error
                return ("partial_err", f["frac"], no)
            raise OSError(no, os.strerror(no), path)
        elif typ == "short":
            if kind == "write":
                self.count_fault("short_write")
                return ("short", f.get("frac", 0.5))
        elif typ == "stall":
            self.count_fault("stall")
            self.stall(f["secs"])
        elif typ == "interrupt":
            self.count_fault("interrupt:" + f["exc"])
            raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f["exc"]]()
        return None

    def kill_current(self, why, machine=False):
        p = self.cur.proc
        self.count_fault("machine_crash" if machine else "process_kill")
        self.sig.update(b"kill;")
        p.dead = True
        p.death = why
        if machine:
            self.machine_down = True
            for x in self.tasks:
                if not x.proc.dead:
                    x.proc.dead = True
                    x.proc.death = why
        raise SimCrash()

    machine_down = False

    def stall(self, secs):
        """The program makes no progress for a while: clocks advance, processor time does not."""
        at, frames = {}, sys._current_frames()
        for t in self.tasks:
            f = frames.get(t.ident) if t.ident is not None and not t.done else None
            names = []
            while f is not None:
                if f.f_globals.get("__name__") in _code_cache:
                    names.append(f.f_code.co_name)
                f = f.f_back
            at[t.id] = (names[::-1], t.npic)
        self.stalls.append((self.nphase, self.mono, secs, at))
        self.mono += secs
        self.stalled += secs

    # ---- the step function: every scheduling/fault/time point passes here
    def step(self, kind, label=None):
        t = self.cur
        if t is None or _thread.get_ident() != t.ident:
            return
        p = t.proc
        if p.dead:
            raise SimCrash()
        self.nsteps += 1
        p.steps += 1
        self.mono += self.tick
        if self.nsteps > self.budget:
            raise SimBudget()
        if self.f_step:
            f = self.f_step.pop((p.id, p.steps), None)
            if f is not None:
                self._apply_step_fault(f)
        if self.next_preempt is not None and self.nsteps >= self.next_preempt[0]:
            self._preempt()

    def _apply_step_fault(self, f):
        typ = f["fault"]
        if typ == "kill":
            self.kill_current("step", bool(f.get("machine")))
        elif typ == "interrupt":
            self.count_fault("interrupt:" + f["exc"])
            self.sig.update(b"intr;")
            raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f["exc"]]()
        elif typ == "stall":
            self.count_fault("stall")
            self.stall(f["secs"])
        elif typ == "wall_jump":
            self.count_fault("clock_jump")
            self.wall_off += f["secs"]

    def _preempt(self):
        _, r = self.next_preempt
        self.sched_pos += 1
        self.next_preempt = self.sched[self.sched_pos] if self.sched_pos < len(self.sched) else None
        others = [x for x in self.tasks if not x.done and x is not self.cur]
        if not others:
            return
        nxt = others[r % len(others)]
        self.nswitch += 1
        self.sched_sig.update(("%d>%d@%s;" % (self.cur.id, nxt.id, self._where,)).encode())
        me = self.cur
        self._switch_to(nxt)
        me.lock.acquire()
        # resumed
        if me.proc.dead:
            raise SimCrash()

    _where = ""

    def yield_to_other(self):
        others = [x for x in self.tasks if not x.done and x is not self.cur]
        if not others:
            return False
        nxt = others[(self.nswitch) % len(others)]
        self.nswitch += 1
        me = self.cur
        self._switch_to(nxt)
        me.lock.acquire()
        if me.proc.dead:
            raise SimCrash()
        return True

    # ---- context switching
    def _swap_out(self, p):
        import numpy as np
        p.np_state = np.random.get_state()
        p.py_state = _pyrandom.getstate()
        from matplotlib._pylab_helpers import Gcf
        p.gcf = Gcf.figs
        p.modules = {n: sys.modules[n] for n in list(sys.modules) if n in _code_cache}

    def _swap_in(self, p):
        import numpy as np
        from matplotlib._pylab_helpers import Gcf
        for n in list(sys.modules):
            if n in _code_cache:
                del sys.modules[n]
        sys.modules.update(p.modules)
        if p.np_state is not None:
            np.random.set_state(p.np_state)
            _pyrandom.setstate(p.py_state)
        Gcf.figs = p.gcf if p.gcf is not None else type(Gcf.figs)()

    def _switch_to(self, nxt):
        if nxt.proc is not self.cur_ctx:
            if self.cur_ctx is not None:
                self._swap_out(self.cur_ctx)
            self._swap_in(nxt.proc)
            self.cur_ctx = nxt.proc
        self.cur = nxt
        nxt.lock.release()

    cur_ctx = None
    booting = False

    # ---- running a phase
    def boot(self, seed, skew=0.0):
        """Start a simulated process: a fresh import of the code under test."""
        import numpy as np
        global _identities
        _identities = Identities()
        p = Proc(self.next_pid, seed, skew)
        self.next_pid += 1
        self.procs[p.id] = p
        if self.cur_ctx is not None:
            self._swap_out(self.cur_ctx)
        for n in list(sys.modules):
            if n in _code_cache:
                del sys.modules[n]
        self.cur_ctx = p
        from matplotlib._pylab_helpers import Gcf
        Gcf.figs = type(Gcf.figs)()
        np.random.seed(seed & 0xFFFFFFFF)
        _pyrandom.seed(seed)
        self.booting = True
        for name in ("latticeFunctions", "baseConstruction", "interactions", "hamiltonianConstruction", "davidson",
                     "initialComputations", "embedding", "postProcessing"):
            importlib.import_module(name)
        self.booting = False
        np.random.seed(seed & 0xFFFFFFFF)
        _pyrandom.seed(seed)
        return p

    def run_phase(self, threads, faults=(), schedule=(), budget=None, mode="none"):
        """threads: list of (proc, callable). Runs them under the scheduler until all are finished or dead."""
        self.tasks = [Task(i, p, fn) for i, (p, fn) in enumerate(threads)]
        self.nsteps = 0
        for p, _ in threads:
            p.steps = 0
            p.fs_ops = 0
            p.fs_kinds = {}
            p.eigh = 0
            p.qr = 0
        self.budget = budget or 10 ** 9
        self.sched = sorted([tuple(x) for x in schedule])
        self.sched_pos = 0
        self.next_preempt = self.sched[0] if self.sched else None
        self.f_fs, self.f_step, self.f_eigh, self.f_qr, self.f_kind = {}, {}, {}, {}, []
        self.f_func = []
        self.pending_after = None
        pids = [p.id for p, _ in threads]
        for f in faults:
            f = dict(f)
            f["proc"] = pids[f.get("proc", 0) % len(pids)]
            at = f["at"]
            if "fs" in at:
                self.f_fs[(f["proc"], at["fs"])] = f
            elif "fskind" in at:
                f["op"], f["n"] = at["fskind"], at["n"]
                self.f_kind.append(f)
            elif "step" in at:
                self.f_step[(f["proc"], at["step"])] = f
            elif "eigh" in at:
                self.f_eigh[(f["proc"], at["eigh"])] = f
            elif "qr" in at:
                self.f_qr[(f["proc"], at["qr"])] = f
            elif "func" in at:
                f["left"] = at.get("n", 1)
                self.f_func.append(f)
        set_mode(mode)
        outer = sys.stdout, sys.stderr
        null = _Null()
        sys.stdout = sys.stderr = null
        try:
            for t in self.tasks:
                self._start(t)
            self._switch_to(self.tasks[0])
            self.main_lock.acquire()
        finally:
            sys.stdout, sys.stderr = outer
            self.cur = None
            set_mode("none")
        if self.escape is not None:
            raise HarnessError(self.escape)

    def _start(self, t):
        ready = _thread.allocate_lock()
        ready.acquire()

        def body():
            t.ident = _thread.get_ident()
            ready.release()
            t.lock.acquire()
            try:
                if not t.proc.dead:
                    t.ops()
            except SimCrash:
                pass
            except SimBudget:
                self.over = self.over or "budget"
                self.budget = 10 ** 12
                for x in self.tasks:
                    x.proc.dead = True
            except BaseException as e:     # harness failure
                import traceback
                self.escape = "task failed: %r\n%s" % (e, traceback.format_exc())
            t.done = True
            rest = [x for x in self.tasks if not x.done]
            if rest:
                self._switch_to(rest[0])
            else:
                if self.cur_ctx is not None:
                    self._swap_out(self.cur_ctx)
                self.cur = None
                self.main_lock.release()
        threading.Thread(target=body, daemon=True).start()
        ready.acquire()

    def trace_hash(self):
        return self.sig.hexdigest() + ":" + self.sched_sig.hexdigest()


class SimLock:
    """threading.Lock / RLock of the code under test: waiting is a scheduling decision."""

    def __init__(self, reentrant=False):
        self.owner, self.n, self.re = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        k = K
        me = k.cur if k is not None else None
        spins = 0
        while self.n and not (self.re and self.owner is me):
            if not blocking or (timeout is not None and 0 <= timeout and spins > 3):
                return False
            spins += 1
            if not k.yield_to_other() and spins > 2:
                k.over = "deadlock"
                raise SimBudget()
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if not self.n:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if not self.n:
            self.owner = None

    def locked(self):
        return bool(self.n)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class _Null(io.TextIOBase):
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


# ------------------------------------------------------------------ instrumentation of the code under test
_mode = "none"


def _cb_line(code, line):
    k = K
    if k is not None and k.cur is not None:
        k._where = (code.co_name, line)
        if k.rec_lines is not None and _thread.get_ident() == k.cur.ident:
            # the first, the last and (2**i)th times of every line
            r = k.rec_lines.setdefault((k.cur.proc.id, code.co_name, line), [0])
            r[0] += 1
            if r[0] & (r[0] - 1) == 0:
                r.append(k.cur.proc.steps + 1)
            else:
                r[-1] = k.cur.proc.steps + 1
        k.step("line")


def _cb_jump(code, off, dest):
    k = K
    if k is not None and k.cur is not None:
        k.step("jump")


def _cb_start(code, off):
    k = K
    if k is None or k.cur is None:
        return
    k._where = (code.co_name, 0)
    if k.rec_calls is not None and _thread.get_ident() == k.cur.ident:
        k.rec_calls.append((k.cur.proc.id, k.cur.proc.steps + 1, code.co_name))
    if k.f_func and _thread.get_ident() == k.cur.ident:
        for f in k.f_func:
            if f["left"] > 0 and f["at"]["func"] == code.co_name and f["proc"] == k.cur.proc.id:
                f["left"] -= 1
                if f["left"] == 0:
                    k._apply_step_fault(f)
    if code.co_name == "perform_initial_computations":
        k.cur.npic += 1
    k.step("call")


def set_mode(mode):
    """none | call (calls and loop iterations) | line"""
    global _mode
    if mode == _mode:
        return
    E = sys.monitoring.events
    ev = {"none": 0, "call": E.PY_START | E.JUMP, "line": E.LINE | E.PY_START}[mode]
    for c in _codes:
        sys.monitoring.set_local_events(TOOL, c, ev)
    _mode = mode


_installed = False


def install():
    """Patch the interpreter once per worker process."""
    global _installed
    if _installed:
        return
    _installed = True
    import numpy as np
    import numpy.linalg as nl
    import scipy.linalg as sl
    import scipy.sparse  # noqa
    import scipy.interpolate  # noqa
    import scipy.integrate  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import matplotlib.figure
    import tqdm  # noqa
    import json  # noqa
    import tempfile
    import shutil  # noqa
    import warnings
    warnings.simplefilter("ignore")
    fig = plt.figure()           # warm-up of lazily loaded pieces
    fig.add_subplot(1, 1, 1).plot([1], [1])
    plt.tight_layout()
    plt.close("all")
    load_sources()
    sys.meta_path.insert(0, _Finder())
    sys.path.append(REPO)
    sys.dont_write_bytecode = True
    sys.monitoring.use_tool_id(TOOL, "vsim")
    E = sys.monitoring.events
    sys.monitoring.register_callback(TOOL, E.LINE, _cb_line)
    sys.monitoring.register_callback(TOOL, E.PY_START, _cb_start)
    sys.monitoring.register_callback(TOOL, E.JUMP, _cb_jump)

    # clocks
    real = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns",
                                          "process_time", "process_time_ns", "thread_time", "thread_time_ns", "sleep")}

    def mine():
        k = K
        return k is not None and k.cur is not None and _thread.get_ident() == k.cur.ident

    def mine_code():
        if not (mine() or (K is not None and K.booting)):
            return False
        f = sys._getframe(2)
        return f.f_globals.get("__name__") in _code_cache

    def clock(name, fn):
        def f():
            return fn(K) if mine() else real[name]()
        setattr(time, name, f)
    clock("time", lambda k: k.wall())
    clock("time_ns", lambda k: int(k.wall() * 1e9))
    for n in ("monotonic", "perf_counter"):
        clock(n, lambda k: k.mono)
    for n in ("monotonic_ns", "perf_counter_ns"):
        clock(n, lambda k: int(k.mono * 1e9))
    for n in ("process_time", "thread_time"):
        clock(n, lambda k: k.mono - k.stalled)
    for n in ("process_time_ns", "thread_time_ns"):
        clock(n, lambda k: int((k.mono - k.stalled) * 1e9))

    def p_sleep(s):
        if mine():
            K.mono += max(0.0, s)
            K.stalled += max(0.0, s)
            K.step("sleep")
        else:
            real["sleep"](s)
    time.sleep = p_sleep

    # randomness outside the seeded generators
    real_ur = os.urandom

    def p_urandom(n):
        if mine():
            p = K.cur.proc
            p.draw += 1
            return hashlib.shake_128(("%d/%d/%d" % (p.seed, p.id, p.draw)).encode()).digest(n)
        return real_ur(n)
    os.urandom = p_urandom
    _pyrandom._urandom = p_urandom
    real_rng = np.random.default_rng

    def p_default_rng(seed=None):
        if seed is None and mine():
            p = K.cur.proc
            p.draw += 1
            seed = [p.seed & 0xFFFFFFFF, p.id, p.draw]
        return real_rng(seed)
    np.random.default_rng = p_default_rng
    real_pid = os.getpid

    def p_getpid():
        return 40000 + K.cur.proc.id if mine() else real_pid()
    os.getpid = p_getpid

    class _Names:
        def __iter__(self):
            return self

        def __next__(self):
            if mine():
                p = K.cur.proc
                p.names += 1
                return "p%dn%d" % (p.id, p.names)
            return "h" + hashlib.blake2b(real_ur(8), digest_size=4).hexdigest()
    tempfile._name_sequence = _Names()
    tempfile.tempdir = "/tmp"

    # locks
    real_lock, real_rlock = threading.Lock, threading.RLock
    threading.Lock = lambda: SimLock() if mine_code() else real_lock()
    threading.RLock = lambda: SimLock(True) if mine_code() else real_rlock()

    # LAPACK failures
    real_eigh = nl.eigh

    def p_eigh(a, *args, **kw):
        if mine() and K.f_eigh is not None:
            p = K.cur.proc
            p.eigh += 1
            if K.f_eigh.pop((p.id, p.eigh), None) is not None:
                K.count_fault("lapack_failure")
                raise nl.LinAlgError("Eigenvalues did not converge")
        return real_eigh(a, *args, **kw)
    nl.eigh = p_eigh
    np.linalg.eigh = p_eigh
    real_sl = sl.eigh

    def p_sl(a, *args, **kw):
        if mine():
            p = K.cur.proc
            p.eigh += 1
            if K.f_eigh.pop((p.id, p.eigh), None) is not None:
                K.count_fault("lapack_failure")
                raise nl.LinAlgError("Eigenvalues did not converge")
        return real_sl(a, *args, **kw)
    sl.eigh = p_sl

    real_qr = nl.qr

    def p_qr(a, *args, **kw):
        if mine():
            p = K.cur.proc
            p.qr += 1
            if K.f_qr.pop((p.id, p.qr), None) is not None:
                K.count_fault("lapack_failure")
                raise nl.LinAlgError("QR factorization failed")
        return real_qr(a, *args, **kw)
    nl.qr = p_qr

    # figures: what would be rendered is recorded, a small file is written to the simulated disk
    def p_savefig(self, fname, *a, **kw):
        if K is None or not mine():
            raise HarnessError("savefig outside a simulated process")
        shot = snapshot_figure(self)
        K.nfig += 1
        body = b"FIG %08d " % K.nfig + hashlib.blake2b(repr(sorted(shot["sum"])).encode(), digest_size=8).hexdigest().encode()
        d = {"path": None, "paths": [], "proc": K.cur.proc.id, "shot": shot, "body": body}
        K.figures[body] = d
        if hasattr(fname, "write"):
            fname.write(body)       # a stream: the figure is wherever these bytes end up
        else:
            name = os.fspath(fname)
            if not os.path.splitext(name)[1]:
                name += "." + str(kw.get("format") or matplotlib.rcParams["savefig.format"])
            d["path"] = K.fs.absolute(name)
            with open(name, "wb") as f:
                f.write(body)
        K.drawn.append(d)
    matplotlib.figure.Figure.savefig = p_savefig
    matplotlib.figure.Figure.tight_layout = lambda self, *a, **kw: None     # rendering only
    simfs.install(_fs_for_thread)


def _fs_for_thread():
    k = K
    if k is None or k.cur is None or _thread.get_ident() != k.cur.ident:
        return None
    return k.fs


def snapshot_figure(fig):
    import numpy as np
    axes = []
    summ = []
    for ax in fig.axes:
        d = {"title": ax.get_title(), "lines": [], "meshes": [], "bars": [], "scatter": []}
        for ln in ax.lines:
            x, y = np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)
            d["lines"].append((x, y))
            summ.append(repr((x.tolist()[:5], y.tolist()[:5])))
        for c in ax.collections:
            nm = type(c).__name__
            if nm == "QuadMesh":
                d["meshes"].append((np.array(c.get_coordinates()), np.array(c.get_array(), float)))
            elif nm == "PathCollection":
                d["scatter"].append(np.array(c.get_offsets()))
        for cont in ax.containers:
            if type(cont).__name__ == "BarContainer":
                d["bars"].append((cont.get_label(), [float(b.get_x() + b.get_width() / 2) for b in cont], [float(b.get_height()) for b in cont]))
        summ.append(d["title"])
        axes.append(d)
    return {"axes": axes, "sum": summ, "suptitle": fig._suptitle.get_text() if fig._suptitle is not None else None}
