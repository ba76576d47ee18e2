"""Controlled scheduler: runs a few threads of real code one at a time and
switches between them exactly where a plan says so.

A *point* is a place where a thread may be preempted: every opcode, line or
call (the granularity) executed in the traced files.  Points and forced
switches (a thread ends or blocks on a lock) are numbered in the order in which
they happen.  A plan maps numbers to the thread that runs on.  Code between
points runs without interference.

Locks are cooperative: one that is taken makes the scheduler run another
thread, so that no schedule is lost or times out.  A thread that blocks in any
other way is noticed by its lack of progress.
"""
import _thread
import gc
import importlib
import os
import sys
import threading
import time
import types

_allocate = _thread.allocate_lock
get_ident = _thread.get_ident
ACTIVE = None
STALL = 1.0


class CoopLock:
    def __init__(self):
        self._l = _allocate()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s and s.ids.get(get_ident())
        if me is None:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            s.block(me, self)
        return True

    def release(self):
        self._l.release()
        if ACTIVE:
            ACTIVE.wake(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *x):
        self.release()


class CoopRLock:
    def __init__(self):
        self._b = CoopLock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *x):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self._owner == get_ident()

    def _release_save(self):
        state = self._count, self._owner
        self._count, self._owner = 0, None
        self._b.release()
        return state

    def _acquire_restore(self, state):
        self._b.acquire()
        self._count, self._owner = state


_real = threading.Lock, threading.RLock
COOPERATIVE = False


def _lock():
    return CoopLock() if COOPERATIVE else _real[0]()


def _rlock():
    return CoopRLock() if COOPERATIVE else _real[1]()


class patched:
    """Locks made inside are cooperative."""

    def __enter__(self):
        global COOPERATIVE
        COOPERATIVE = True
        threading.Lock, threading.RLock = _lock, _rlock

    def __exit__(self, *x):
        global COOPERATIVE
        COOPERATIVE = False
        threading.Lock, threading.RLock = _real


class Scheduler:
    def __init__(self, bodies, plan):
        self.bodies, self.plan = bodies, plan
        n = len(bodies)
        self.gates = [_allocate() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.state = ["ready"] * n      # ready, blocked, stuck, done
        self.waiting = [None] * n
        self.ids = {}
        self.current = None
        self.entry = None               # what the running thread logs
        self.log = []                   # kind, running, others ready
        self.places = {}
        self.results = [None] * n
        self.born = [_allocate() for _ in bodies]
        for g in self.born:
            g.acquire()
        self.done = _allocate()
        self.done.acquire()
        self.deadlock = False
        self.over = False
        self.misfits = 0

    # -- called with the baton --
    def record(self, kind, me):
        mask = 0
        for j, st in enumerate(self.state):
            if st == "ready" and j != me:
                mask |= 1 << j
        self.log.append((kind, me if me is not None else 9, mask))
        return len(self.log) - 1, mask

    def point(self, code, where, *rest):
        me = self.ids.get(get_ident())
        if me is None:
            return
        if self.current != me:
            # was taken for stuck; wait for its turn
            self.state[me] = "ready"
            self.entry = None
            self.gates[me].acquire()
        log = self.log
        n = len(log)
        entry = self.entry
        if entry is None:
            self.entry = entry = self.record(0, me) and log[-1]
        else:
            log.append(entry)
        if n not in self.plan:
            return
        target, mask = self.plan[n], entry[2]
        if not mask >> target & 1:
            self.misfits += 1       # the code is not deterministic
            return
        self.places[n] = "%s, %s (%s)" % (os.path.basename(code.co_filename), code.co_qualname, where)
        self.switch(target)
        self.gates[me].acquire()

    def switch(self, target):
        self.entry = None
        self.current = target
        self.gates[target].release()

    def forced(self, me):
        """The running thread cannot go on; returns False when none can."""
        n, mask = self.record(1, me)
        if not mask:
            return False
        target = self.plan.get(n)
        if target is None or not mask >> target & 1:
            target = (mask & -mask).bit_length() - 1
        self.switch(target)
        return True

    def block(self, me, lock):
        self.state[me], self.waiting[me] = "blocked", lock
        if not self.forced(me):
            if "stuck" not in self.state:
                self.end(True)
            else:
                self.current = None
        self.gates[me].acquire()

    def wake(self, lock):
        for j, w in enumerate(self.waiting):
            if w is lock and self.state[j] == "blocked":
                self.state[j], self.waiting[j] = "ready", None
                self.entry = None

    def end(self, deadlock):
        if not self.over:
            self.over = True
            self.deadlock = deadlock
            self.done.release()

    def finished(self, me):
        self.state[me] = "done"
        if all(s == "done" for s in self.state):
            self.end(False)
        elif not self.forced(me):
            if "stuck" in self.state:
                self.current = None
            else:
                self.end(True)

    # -- threads --
    def body(self, me):
        self.ids[get_ident()] = me
        self.born[me].release()
        self.gates[me].acquire()
        out = []
        for call in self.bodies[me]:
            try:
                r = call()
            except BaseException as e:
                r = ("raised", type(e).__name__, str(e)[:200])
            out.append(r)
        self.results[me] = out
        if self.current != me:
            self.state[me] = "ready"
            self.gates[me].acquire()
        self.finished(me)

    def run(self):
        global ACTIVE
        for i in range(len(self.bodies)):
            _thread.start_new_thread(self.body, (i,))
        for g in self.born:
            g.acquire()
        ACTIVE = self
        for e in ALL_EVENTS:
            MON.register_callback(TOOL, e, self.point)
        try:
            self.forced(None)
            self.watch()
        finally:
            ACTIVE = None

    def watch(self):
        """Waits for the end; takes threads without progress for stuck."""
        last, since = -1, time.time()
        while not self.done.acquire(timeout=0.2):
            if len(self.log) != last:
                last, since = len(self.log), time.time()
            elif time.time() - since > STALL:
                me = self.current
                if me is not None and self.state[me] == "ready":
                    self.state[me] = "stuck"
                    if not self.forced(me):
                        self.current = None
                    since = time.time()
                elif me is None:
                    ready = [j for j, s in enumerate(self.state) if s == "ready"]
                    if ready:
                        self.switch(ready[0])
                    elif time.time() - since > 4 * STALL:
                        self.end(True)


MON = sys.monitoring
TOOL = 4
EVENTS = {"opcode": MON.events.INSTRUCTION, "line": MON.events.LINE, "call": MON.events.PY_START | MON.events.PY_RESUME | MON.events.PY_RETURN | MON.events.PY_YIELD}
ALL_EVENTS = [e for e in (MON.events.INSTRUCTION, MON.events.LINE, MON.events.PY_START, MON.events.PY_RESUME, MON.events.PY_RETURN, MON.events.PY_YIELD)]
_codes = []
_instrumented = None


class recorded:
    """Remembers the code objects of modules imported from source inside."""

    def __enter__(self):
        cls = importlib._bootstrap_external.SourceLoader
        self.get_code = original = cls.get_code

        def get_code(loader, name):
            code = original(loader, name)
            todo = [code]
            while todo:
                c = todo.pop()
                _codes.append(c)
                todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
            return code
        cls.get_code = get_code

    def __exit__(self, *x):
        importlib._bootstrap_external.SourceLoader.get_code = self.get_code


def instrument(granularity, traced):
    """Makes points of the events of the granularity in the traced files."""
    global _instrumented
    if _instrumented == (granularity, traced):
        return
    if _instrumented is None:
        MON.use_tool_id(TOOL, "verif")
    for c in _codes:
        MON.set_local_events(TOOL, c, EVENTS[granularity] if traced(c.co_filename) else 0)
    _instrumented = granularity, traced


class ColdStart:
    """Puts the state of modules back to what it was when they had just been
    imported: globals, class attributes, default arguments and caches."""

    def __init__(self, modules):
        self.saved = []         # (namespace owner, name, value)
        self.containers = []    # (container, copy)
        self.caches = []
        self.owners = []
        seen = set()
        for m in modules:
            self.visit(m, m.__name__, seen)

    def visit(self, owner, prefix, seen):
        if id(owner) in seen:
            return
        seen.add(id(owner))
        d = vars(owner)
        self.owners.append((owner, dict(d)))
        for name, v in list(d.items()):
            if name.startswith("__") and name not in ("__defaults__", "__kwdefaults__"):
                continue
            self.value(v, prefix, seen)

    def value(self, v, prefix, seen):
        if isinstance(v, (dict, list, set)):
            if id(v) not in seen:
                seen.add(id(v))
                self.containers.append((v, v.copy()))
        elif isinstance(v, (staticmethod, classmethod)):
            self.value(v.__func__, prefix, seen)
        elif hasattr(v, "cache_clear"):
            self.caches.append(v)
            self.value(getattr(v, "__wrapped__", None), prefix, seen)
        elif isinstance(v, type):
            if getattr(v, "__module__", "").startswith(prefix.split(".")[0]):
                self.visit(v, prefix, seen)
        elif callable(v) and hasattr(v, "__defaults__"):
            if getattr(v, "__module__", None) and str(v.__module__).startswith(prefix.split(".")[0]) and id(v) not in seen:
                seen.add(id(v))
                if v.__dict__:
                    self.containers.append((v.__dict__, dict(v.__dict__)))
                for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                    self.value(x, prefix, seen)

    def reset(self):
        for owner, d in self.owners:
            now = vars(owner)
            if len(now) != len(d) or any(now.get(k, self) is not x for k, x in d.items()):
                for k in list(now):
                    if k not in d:
                        delattr(owner, k)
                for k, x in d.items():
                    if now.get(k, self) is not x:
                        setattr(owner, k, x)
        for c, copy in self.containers:
            if c != copy or len(c) != len(copy):
                if isinstance(c, list):
                    c[:] = copy
                else:
                    c.clear()
                    c.update(copy)
        for f in self.caches:
            f.cache_clear()


_runs = 0


def execute(make, plan, granularity, traced):
    """Runs one schedule.  make() -> (bodies, post); returns a dict."""
    global _runs
    instrument(granularity, traced)
    _runs += 1
    if _runs % 50 == 1:
        gc.collect()
    # finalizers of generators would run in the middle of the threads
    gc.disable()
    try:
        with patched():
            bodies, post = make()
            s = Scheduler(bodies, dict(plan))
            s.run()
            after = None if s.deadlock else post()
    finally:
        gc.enable()
    return dict(misfits=s.misfits, log=s.log, results=s.results, deadlock=s.deadlock, places=s.places, post=after)


def children(plan, log, bound):
    """Plans that differ from this one in one more decision, after its last."""
    start = max((s for s, _ in plan), default=-1) + 1
    cost = sum(1 for s, _ in plan if log[s][0] == 0)
    for n in range(start, len(log)):
        kind, me, mask = log[n]
        if kind == 0 and cost >= bound:
            continue
        for j in range(8):
            if mask >> j & 1:
                if kind == 1 and j == (mask & -mask).bit_length() - 1:
                    continue        # what happens by default
                yield list(plan) + [[n, j]]
