"""The simulation kernel: one process, real threads that run one at a time, virtual time, and
seeded decisions about every switch and every injected failure.

install() must run before numpy/pandas/joblib/... are imported, so that the locks, queues and clocks
they pick up are the simulated ones.  Outside a simulation (Kernel.current is None) everything
behaves as usual.

Seams
  thread start        threading._start_new_thread
  locks               threading.Lock/RLock/_allocate_lock (Condition, Event, Semaphore, Queue sit on top)
  thread exit / join  threading._set_sentinel
  queues              queue.SimpleQueue -> the pure Python version (on simulated locks)
  time                time.time/monotonic/perf_counter/sleep (+ _ns), threading._time, queue.time
  preemption          sys.monitoring LINE and CALL events of the bcause code objects
  failures            exceptions raised at CALL events of bcause code (never inside cleanup code)
"""
import ast
import dis
import os
import random
import sys
import _thread
import threading
import time as _time_mod
import zlib

REPO = os.environ.get("DST_REPO", "/repo")
_OP_CALL = dis.opmap["CALL"]
PKG = os.path.join(REPO, "bcause") + os.sep

_real_start = _thread.start_new_thread
_real_alloc = _thread.allocate_lock
_real_set_sentinel = _thread._set_sentinel
_real_sleep = _time_mod.sleep
_real_time = _time_mod.time
_real_monotonic = _time_mod.monotonic
_real_perf = _time_mod.perf_counter
get_ident = _thread.get_ident


# the layers whose operations can fail at any call; the engines, learners and aggregators above them are
# what has to cope
LOW = ("factors/", "util/", "models/", "conversion/")
VALUES = ("factors/", "util/")


class SimStop(BaseException):
    """unwinds the main thread when the kernel declares the run over (deadlock / no progress)"""


class NoProgress(Exception):
    pass


# ------------------------------------------------------------------------------------ locks

class SimLock:
    __slots__ = ("_real", "__weakref__")

    def __init__(self):
        self._real = _real_alloc()

    def acquire(self, blocking=True, timeout=-1):
        k = Kernel.current
        if k is None or get_ident() not in k.by_ident:
            return self._real.acquire(blocking, timeout)
        if self._real.acquire(False):
            return True
        if not blocking:
            k.point()
            return False
        deadline = None if timeout is None or timeout < 0 else k.now + timeout
        while True:
            k.block(self, deadline)
            if self._real.acquire(False):
                return True
            if deadline is not None and k.now >= deadline:
                return False

    __enter__ = acquire

    def release(self):
        self._real.release()

    def __exit__(self, *a):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def _at_fork_reinit(self):
        self._real = _real_alloc()

    def __repr__(self):
        return f"<SimLock {'locked' if self._real.locked() else 'unlocked'}>"


def _alloc():
    return SimLock()


class _Thread:
    __slots__ = ("tid", "ident", "baton", "blocked", "deadline", "done", "sentinel", "calls", "sleeps", "prio")

    def __init__(self, tid):
        self.tid = tid
        self.ident = None
        self.baton = _real_alloc()
        self.baton.acquire()
        self.blocked = None          # SimLock or "sleep"
        self.deadline = None
        self.done = False
        self.sentinel = None
        self.calls = 0
        self.sleeps = 0
        self.prio = 0


_site_cache = {}


class Kernel:
    """sched: {"mode": "none"}                                no voluntary switches
              {"mode": "random", "seed": s, "gap": g}         switch every ~g points on average
              {"mode": "pct", "seed": s, "depth": d, "est": n} priorities with d change points
              {"mode": "list", "switches": [[step, tid], ...]} explicit (replay / minimised)
       faults: [{"kind": "raise", "exc": "KeyboardInterrupt"|"MemoryError", "thread": t, "call": k}]
               [{"kind": "sleep-raise", "exc": .., "thread": 0, "sleep": k}]
               [{"kind": "clock-jump", "read": k, "delta": seconds}]
    """
    current = None
    monitoring = False

    def __init__(self, sched=None, faults=(), budget=3_000_000, on_fatal=None, clock0=1.7e9, tick=1e-6, scope=None):
        # scope: injected exceptions come only from these parts of bcause (None: from anywhere in it)
        self.scope = tuple(os.path.join(PKG, s) for s in scope) if scope is not None else None
        self.sched = sched or {"mode": "none"}
        self.mode = self.sched["mode"]
        self.rng = random.Random(self.sched.get("seed", 0))
        self.budget = budget
        self.on_fatal = on_fatal
        self.now = 0.0
        self.clock0 = clock0
        self.tick = tick
        self.reads = 0
        self.jump = 0.0
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.step = 0
        self.switches = 0
        self.forced = 0
        self.trace = []              # [step, tid] decisions that differ from the default
        self.path = 0                # running hash of (step, tid)
        self.fired = []
        self.armed = {}
        self.site_armed = {}
        self.sleep_armed = {}
        self.clock_armed = []
        for f in faults:
            self.arm(f)
        self._next = None
        self._list = None
        self.finished = False

    # ---- faults
    def arm(self, f):
        if f["kind"] == "raise" and isinstance(f["call"], (list, tuple)):
            # [n, salt, mod, deep]: the n-th call made at one of a pseudo-random 1/mod of the call sites, so that rarely
            # executed sites are hit as often as hot ones
            self.site_armed.setdefault(f.get("thread", 0), []).append([int(f["call"][0]), f["exc"], f])
        elif f["kind"] == "raise":
            self.armed.setdefault(f.get("thread", 0), []).append([f["call"], f["exc"], f])
            self.armed[f.get("thread", 0)].sort(key=lambda x: x[0])
        elif f["kind"] == "sleep-raise":
            self.sleep_armed.setdefault(f.get("thread", 0), []).append([f["sleep"], f["exc"], f])
        elif f["kind"] == "clock-jump":
            self.clock_armed.append([f["read"], f["delta"], f])
            self.clock_armed.sort(key=lambda x: x[0])

    def arm_here(self, exc, after):
        """arm an exception `after` bcause calls from now in the calling thread"""
        t = self.by_ident[get_ident()]
        f = {"kind": "raise", "exc": exc, "thread": t.tid, "call": after if isinstance(after, (list, tuple)) else t.calls + after}
        self.arm(f)
        return f

    def disarm(self, tid=None):
        if tid is None:
            tid = self.by_ident[get_ident()].tid
        self.armed.pop(tid, None)
        self.site_armed.pop(tid, None)

    def disarm_all(self):
        self.armed.clear()
        self.site_armed.clear()

    # ---- life cycle
    def __enter__(self):
        assert Kernel.current is None
        t = _Thread(0)
        t.ident = get_ident()
        self.threads.append(t)
        self.by_ident[t.ident] = t
        self.cur = t
        if self.mode == "list":
            self._list = [tuple(x) for x in self.sched["switches"]]
            self._li = 0
            self._next = self._list[0][0] if self._list else 1 << 60
        elif self.mode == "random":
            self._draw_gap()
        elif self.mode == "pct":
            est = max(10, int(self.sched.get("est", 20000)))
            self._changes = sorted(self.rng.randrange(1, est) for _ in range(self.sched.get("depth", 3)))
            self._low = -1
            t.prio = self.rng.random()
            self._next = self._changes[0] if self._changes else 1 << 60
        else:
            self._next = 1 << 60
        self._next = min(self._next, self.budget + 1)
        Kernel.current = self
        return self

    def __exit__(self, *a):
        Kernel.current = None
        self.finished = True
        return False

    def _draw_gap(self):
        g = self.sched.get("gap", 100)
        self._next = self.step + 1 + int(self.rng.expovariate(1.0 / g))

    # ---- time
    def read_clock(self):
        self.reads += 1
        self.now += self.tick
        while self.clock_armed and self.reads >= self.clock_armed[0][0]:
            _, d, f = self.clock_armed.pop(0)
            self.jump += d
            self.fired.append(f)
        return self.now

    def sleep(self, secs):
        t = self.by_ident[get_ident()]
        t.sleeps += 1
        for it in self.sleep_armed.get(t.tid, []):
            if t.sleeps >= it[0]:
                self.sleep_armed[t.tid].remove(it)
                self.fired.append(it[2])
                raise _exc(it[1])
        self.block("sleep", self.now + max(0.0, secs))

    # ---- scheduling
    def _runnable(self, t):
        if t.done:
            return False
        b = t.blocked
        if b is None:
            return True
        if t.deadline is not None and self.now >= t.deadline:
            return True
        return b != "sleep" and not b._real.locked()

    def point(self):
        """a possible preemption point of the current thread"""
        self.step += 1
        if self.step >= self._next:
            self._slow()

    def _slow(self):
        if self.step > self.budget:
            self._fatal("no-progress", f"no end of the run within {self.budget} steps")
        me = self.cur
        if get_ident() != me.ident:
            return
        target = None
        if self.mode == "random":
            self._draw_gap()
            c = [t for t in self.threads if t is not me and self._runnable(t)]
            if c:
                target = self.rng.choice(c)
        elif self.mode == "pct":
            while self._changes and self.step >= self._changes[0]:
                self._changes.pop(0)
                me.prio = self._low
                self._low -= 1
            self._next = self._changes[0] if self._changes else 1 << 60
            c = [t for t in self.threads if self._runnable(t)]
            best = max(c, key=lambda t: (t.prio, -t.tid)) if c else me
            if best is not me:
                target = best
        elif self.mode == "list":
            while self._li < len(self._list) and self._list[self._li][0] <= self.step:
                s, tid = self._list[self._li]
                self._li += 1
                if s == self.step:
                    if tid < len(self.threads) and self.threads[tid] is not me and self._runnable(self.threads[tid]):
                        target = self.threads[tid]
                    break
            self._next = self._list[self._li][0] if self._li < len(self._list) else 1 << 60
        self._next = min(self._next, self.budget + 1)
        if target is not None:
            self.switches += 1
            self._note(target, True)
            self._switch(target)

    def _note(self, t, voluntary):
        self.path = hash((self.path, self.step, t.tid)) & 0xFFFFFFFFFFFF
        self.trace.append([self.step, t.tid])

    def _pick(self):
        """next thread at a blocking point"""
        while True:
            c = [t for t in self.threads if self._runnable(t)]
            if c:
                break
            dl = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if not dl:
                self._fatal("deadlock", "every thread waits for another one")
            self.now = max(self.now, min(dl))
        if len(c) == 1:
            return c[0]
        if self.mode == "random":
            return self.rng.choice(c)
        if self.mode == "pct":
            return max(c, key=lambda t: (t.prio, -t.tid))
        if self.mode == "list":
            want = None
            while self._li < len(self._list) and self._list[self._li][0] <= self.step:
                s, tid = self._list[self._li]
                self._li += 1
                if s == self.step:
                    for t in c:
                        if t.tid == tid:
                            want = t
                    if want is not None:
                        break
            self._next = self._list[self._li][0] if self._li < len(self._list) else 1 << 60
            self._next = min(self._next, self.budget + 1)
            if want is not None:
                return want
        return min(c, key=lambda t: ((t.tid - self.cur.tid - 1) % 1000))

    def block(self, what, deadline=None):
        me = self.by_ident[get_ident()]
        self.step += 1
        if self.step > self.budget:
            self._fatal("no-progress", f"no end of the run within {self.budget} steps")
        me.blocked, me.deadline = what, deadline
        t = self._pick()
        self.forced += 1
        self._note(t, False)
        if t is not me:
            self._switch(t)
        me.blocked, me.deadline = None, None

    def _switch(self, t):
        me = self.cur
        self.cur = t
        t.baton.release()
        me.baton.acquire()

    def _fatal(self, kind, msg):
        if self.on_fatal:
            self.on_fatal(kind, msg, self)
        raise SimStop(kind)

    def spawn(self, fn, args, kwargs):
        t = _Thread(len(self.threads))
        if self.mode == "pct":
            t.prio = self.rng.random()
        self.threads.append(t)

        def body():
            t.baton.acquire()
            t.ident = get_ident()
            self.by_ident[t.ident] = t
            try:
                fn(*args, **kwargs)
            except SystemExit:
                pass
            except SimStop:
                pass
            finally:
                t.done = True
                if t.sentinel is not None and t.sentinel.locked():
                    t.sentinel.release()
                self.by_ident.pop(t.ident, None)
                if not self.finished:
                    n = self._pick()
                    self._note(n, False)
                    self.cur = n
                    n.baton.release()
        _real_start(body, ())
        self.point()
        return 100000 + t.tid

    # ---- monitoring callbacks
    def _site_hit(self, code, offset, salt, mod, deep):
        """a call site is selected together with where it was called from: the line outside the layers in scope, or the caller's.
        deep: how far below that line (scoped) or below the harness (not scoped) the site may be"""
        f = sys._getframe(3).f_back
        n = 1
        while f is not None and (not f.f_code.co_filename.startswith(PKG) or self.scope is not None and f.f_code.co_filename.startswith(self.scope)):
            n += f.f_code.co_filename.startswith(PKG)
            f = f.f_back
        if deep and self.scope is None:
            g = f
            while g is not None and n <= deep:
                n += g.f_code.co_filename.startswith(PKG)
                g = g.f_back
        if deep and n > deep:
            return False
        up = (f.f_code, f.f_lineno) if f is not None else (None, 0)
        k = (code, offset, up, salt, mod)
        r = _site_cache.get(k)
        if r is None:
            n = f"{up[0].co_filename[len(PKG):]}:{up[0].co_qualname}:{up[1]}" if up[0] else ""
            r = _site_cache[k] = zlib.crc32(f"{salt}:{code.co_filename[len(PKG):]}:{code.co_qualname}:{offset}:{n}".encode()) % mod == 0
        return r

    def on_call(self, callable_, code, offset):
        me = self.by_ident.get(get_ident())
        if me is None or me is not self.cur:
            return
        me.calls += 1
        arm = self.armed.get(me.tid)
        if arm and me.calls >= arm[0][0]:
            # (CPython 3.12 crashes when an exception leaves a CALL event of f(*args): wait for a plain call)
            if code.co_code[offset] == _OP_CALL and (self.scope is None or code.co_filename.startswith(self.scope)) and getattr(callable_, "__name__", "") not in ("__exit__", "__aexit__", "release") \
                    and not _in_cleanup():
                _, exc, f = arm.pop(0)
                f = dict(f, at=me.calls, where=_where())
                self.fired.append(f)
                raise _exc(exc)
        site = self.site_armed.get(me.tid)
        if site:
            a = site[0]
            if self._site_hit(code, offset, *a[2]["call"][1:]) and code.co_code[offset] == _OP_CALL \
                    and (self.scope is None or code.co_filename.startswith(self.scope)) \
                    and getattr(callable_, "__name__", "") not in ("__exit__", "__aexit__", "release"):
                a[0] -= 1
                if a[0] <= 0 and not _in_cleanup():
                    site.pop(0)
                    self.fired.append(dict(a[2], at=me.calls, where=_where()))
                    raise _exc(a[1])
        self.point()


def _exc(name):
    return {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError,
            "RuntimeError": RuntimeError}[name]("injected")


def _where():
    f = sys._getframe(2)
    while f is not None and not f.f_code.co_filename.startswith(PKG):
        f = f.f_back
    if f is None:
        return "?"
    return f"{os.path.relpath(f.f_code.co_filename, REPO)}:{f.f_code.co_name}:{f.f_lineno}"


_cleanup_cache = {}


def _cleanup_lines(filename):
    r = _cleanup_cache.get(filename)
    if r is None:
        r = set()
        try:
            with open(filename) as fh:
                tree = ast.parse(fh.read())
            for n in ast.walk(tree):
                if isinstance(n, ast.Try):
                    for b in list(n.finalbody) + list(n.handlers):
                        r.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
        except Exception:
            pass
        _cleanup_cache[filename] = r
    return r


def _in_cleanup():
    f = sys._getframe(2)
    while f is not None:
        c = f.f_code
        if c.co_filename.startswith(PKG):
            if c.co_name in ("__exit__", "__del__", "__aexit__") or f.f_lineno in _cleanup_lines(c.co_filename):
                return True
        elif c.co_name in ("__exit__", "__del__"):
            return True
        f = f.f_back
    return False


# ------------------------------------------------------------------------------------ installation

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert "numpy" not in sys.modules and "joblib" not in sys.modules, "install() comes first"

    def start_new_thread(fn, args, kwargs={}):
        k = Kernel.current
        if k is None or get_ident() not in k.by_ident:
            return _real_start(fn, args, kwargs)
        return k.spawn(fn, args, kwargs)

    def set_sentinel():
        k = Kernel.current
        if k is not None:
            t = k.by_ident.get(get_ident())
            if t is not None:
                t.sentinel = SimLock()
                return t.sentinel
        return _real_set_sentinel()

    threading._start_new_thread = start_new_thread
    threading._allocate_lock = _alloc
    threading.Lock = _alloc
    threading._CRLock = None
    threading.RLock = lambda *a, **k: threading._PyRLock(*a, **k)
    threading._set_sentinel = set_sentinel
    _thread.start_new_thread = start_new_thread
    _thread.allocate_lock = _alloc

    def vclock(real, base):
        def f():
            k = Kernel.current
            if k is None or get_ident() not in k.by_ident:
                return real()
            return k.read_clock() + (k.clock0 + k.jump if base else 100.0)
        return f

    def vclock_ns(real, base):
        g = vclock(real, base)

        def f():
            return int(g() * 1e9)
        return f

    def sleep(secs):
        k = Kernel.current
        if k is None or get_ident() not in k.by_ident:
            return _real_sleep(secs)
        k.sleep(secs)

    t = _time_mod
    t.time = vclock(t.time, True)
    t.monotonic = vclock(t.monotonic, False)
    t.perf_counter = vclock(t.perf_counter, False)
    t.process_time = vclock(t.process_time, False)
    t.time_ns = vclock_ns(_real_time, True)
    t.monotonic_ns = vclock_ns(_real_monotonic, False)
    t.perf_counter_ns = vclock_ns(_real_perf, False)
    t.sleep = sleep
    threading._time = t.monotonic
    import queue
    queue.time = t.monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    import logging
    logging.time.time = t.time


class _PollWait:
    """something a thread waits for that only the operating system knows about (a pipe of its own)"""
    def __init__(self, poll):
        self._poll = poll
        self._real = self

    def locked(self):
        return not self._poll()


def install_late():
    """seams of modules that may only be imported after install()"""
    import multiprocessing.connection as mc
    import multiprocessing.pool as mp
    real_wait = mc.wait

    def wait(object_list, timeout=None):
        k = Kernel.current
        if k is None or get_ident() not in k.by_ident:
            return real_wait(object_list, timeout)
        objs = list(object_list)
        deadline = None if timeout is None else k.now + timeout
        while True:
            r = real_wait(objs, 0)
            if r or (deadline is not None and k.now >= deadline):
                return r
            k.block(_PollWait(lambda: real_wait(objs, 0)), deadline)
    mc.wait = wait
    mp.wait = wait
    # pools of processes (pgmpy's BIF reader starts one) run their tasks in the calling thread, as on a one-processor machine
    import joblib._parallel_backends as pb
    pb.LokyBackend.effective_n_jobs = lambda self, n_jobs: 1
    pb.MultiprocessingBackend.effective_n_jobs = lambda self, n_jobs: 1


_TOOL = 3
_codes = None


def _collect_codes():
    import types
    import gc
    seen, out = set(), []

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        if c.co_filename.startswith(PKG):
            out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    for name, m in list(sys.modules.items()):
        if not name.startswith("bcause") or m is None:
            continue
        for o in list(vars(m).values()):
            _walk_obj(o, walk, set())
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(PKG):
            walk(o.__code__)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    return out


def _walk_obj(o, walk, seen, depth=0):
    import types
    if depth > 3 or id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, types.FunctionType):
        walk(o.__code__)
        w = getattr(o, "__wrapped__", None)
        if w is not None:
            _walk_obj(w, walk, seen, depth + 1)
    elif isinstance(o, (staticmethod, classmethod)):
        _walk_obj(o.__func__, walk, seen, depth + 1)
    elif isinstance(o, property):
        for g in (o.fget, o.fset, o.fdel):
            if g is not None:
                _walk_obj(g, walk, seen, depth + 1)
    elif isinstance(o, type) and str(getattr(o, "__module__", "")).startswith("bcause"):
        for v in list(vars(o).values()):
            _walk_obj(v, walk, seen, depth + 1)
    else:
        w = getattr(o, "__wrapped__", None) if callable(o) else None
        if isinstance(w, types.FunctionType):
            _walk_obj(w, walk, seen, depth + 1)


def prepare_codes():
    global _codes
    _codes = _collect_codes()
    return len(_codes)


def enable_monitoring():
    """turn the LINE/CALL events of every bcause code object on (in this process)"""
    if Kernel.monitoring:
        return
    mon = sys.monitoring
    E = mon.events
    mon.use_tool_id(_TOOL, "dst")

    def on_line(code, line):
        k = Kernel.current
        if k is not None and k.cur.ident == get_ident():
            k.step += 1
            if k.step >= k._next:
                k._slow()

    def on_call(code, offset, callable_, arg0):
        k = Kernel.current
        if k is not None:
            k.on_call(callable_, code, offset)

    mon.register_callback(_TOOL, E.LINE, on_line)
    mon.register_callback(_TOOL, E.CALL, on_call)
    for c in (_codes if _codes is not None else _collect_codes()):
        mon.set_local_events(_TOOL, c, E.LINE | E.CALL)
    Kernel.monitoring = True
