"""Threads under a seeded scheduler.

Every task of a run is a real thread, but only the one which holds the baton runs.  The
baton can change hands wherever CPython may switch threads: at the start of library
functions, after calls into C, at the end of loop bodies and also between any two lines,
where other versions of the interpreter switch (sys.monitoring, set up once and
never changed while threads run), at every file operation, and at every blocking lock.  Which thread runs next is decided by the
plan; numpy's global random state belongs to the thread (each thread draws what it would
draw alone).

A schedule is a list of decisions [place, thread]: at the n-th place of the run the baton
goes to that thread; [thread, place, other]: at the n-th place of its own work a thread
hands the baton to the other one.  A thread which ends or blocks hands over to the decided or else the
first thread that can run.
"""
import _thread
import gc
import sys
import threading
import types

import numpy as np

from .core import PKG_DIR, Violation
from .saving import EXCLUDE, STDLIB

CURRENT = None      # active scheduler
_REAL_LOCK = _thread.allocate_lock
_REAL_RLOCK = threading._CRLock or threading._PyRLock


MON = sys.monitoring
TOOL = 3
_watched = set()        # code objects with events
_library = set()        # those of the library itself


def _add(code, lib):
    if code in _watched:
        return
    if code.co_name not in EXCLUDE:
        _watched.add(code)
        if lib:
            _library.add(code)
        MON.set_local_events(TOOL, code, MON.events.PY_START | MON.events.CALL | MON.events.JUMP | MON.events.LINE)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _add(c, lib)


def watch():
    """Instrument all functions of the library (and the parts of the standard library which
    write files).  Called before threads start."""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "sim")
        MON.register_callback(TOOL, MON.events.PY_START, lambda code, off: _place(code, -1))
        MON.register_callback(TOOL, MON.events.C_RETURN, lambda code, off, fn, arg: _place(code, off))
        MON.register_callback(TOOL, MON.events.LINE, lambda code, line: _place(code, line + 100000))
        MON.register_callback(TOOL, MON.events.JUMP, lambda code, off, to: _place(code, off) if to < off else None)
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            code = o.__code__
            if code not in _watched and code.co_filename.startswith((PKG_DIR,) + tuple(STDLIB)):
                _add(code, code.co_filename.startswith(PKG_DIR))


def _place(code, off):
    s = CURRENT
    if s is None:
        return
    me = s.ids.get(_thread.get_ident())
    if me is None or s.cur != me or (code not in _library and not s.stdlib):
        return
    s.place(me, (code.co_qualname, off))


class Stop(BaseException):
    """ends the threads of an abandoned run"""


class SimLock:
    """threading.Lock which yields to the scheduler instead of blocking the process"""

    def __init__(self, real=None):
        self._real = (real or _REAL_LOCK)()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = s.me() if s is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # simulated time: a timeout passes when nothing else can run
                if not s.block(me, self, may_fail=True):
                    return False
            else:
                s.block(me, self)
        return True

    def release(self):
        self._real.release()
        s = CURRENT
        if s is not None:
            s.unblock(self)

    def locked(self):
        if hasattr(self._real, "locked"):
            return self._real.locked()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real._at_fork_reinit()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__(_REAL_RLOCK)

    # used by threading.Condition
    def _is_owned(self):
        return self._real._is_owned()

    def _release_save(self):
        r = self._real._release_save()
        s = CURRENT
        if s is not None:
            s.unblock(self)
        return r

    def _acquire_restore(self, state):
        s = CURRENT
        me = s.me() if s is not None else None
        if me is not None:
            while not self._real.acquire(False):
                s.block(me, self)
            self._real.release()
        self._real._acquire_restore(state)


def install():
    """locks created from now on belong to the simulator"""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = _REAL_LOCK


class Task:
    def __init__(self, fn, fail_at=None):
        self.fn = fn
        self.fail_at = fail_at
        self.state = "ready"        # ready, blocked, done
        self.result = None
        self.error = None
        self.places = 0
        self.failed = None


class Scheduler:
    def __init__(self, tasks, decisions=(), start=0, seed=0, stdlib=False, record=None, limit=400000):
        self.tasks = tasks
        self.decisions = {int(d[0]): int(d[1]) for d in decisions if len(d) == 2}
        self.targets = {(int(d[0]), int(d[1])): int(d[2]) for d in decisions if len(d) == 3}
        self.start = start
        self.n = 0
        self.cur = None
        self.switches = []          # (place, from, to, code place)
        self.sems = [_REAL_LOCK() for _ in tasks]
        self.done = _REAL_LOCK()
        self.ids = {}
        self.stop = False
        self.deadlock = None
        self.waits = {}
        self.stdlib = stdlib
        self.record = record
        self.limit = limit
        self.rng_states = [np.random.RandomState(seed + i).get_state() for i in range(len(tasks))]
        for s in self.sems:
            s.acquire()
        self.done.acquire()

    def me(self):
        return self.ids.get(_thread.get_ident())

    # -- the baton
    def _give(self, me, to, where):
        self.switches.append((self.n, me, to, where))
        if me is not None:
            self.rng_states[me] = np.random.get_state()
        np.random.set_state(self.rng_states[to])
        self.cur = to
        self.sems[to].release()

    def _wait(self, me):
        self.sems[me].acquire()
        if self.stop:
            raise Stop()

    def place(self, me, where):
        t = self.tasks[me]
        t.places += 1
        if t.fail_at is not None and t.places == t.fail_at + 1:
            t.failed = where
            raise MemoryError("simulated allocation failure")
        if self.record is not None:
            self.record.append(where)
        self.point(me, where, self.targets.get((me, t.places)))

    def point(self, me, where, to=None):
        """a place where threads may be switched"""
        if self.stop:
            raise Stop()
        if self.cur != me:
            return
        self.n += 1
        if to is None:
            to = self.decisions.get(self.n)
        if to is None or to == me or self.n > self.limit:
            return
        to %= len(self.tasks)
        if to == me or self.tasks[to].state != "ready":
            return
        self._give(me, to, where)
        self._wait(me)

    def _other(self, me):
        """who runs when the current thread can't"""
        n = len(self.tasks)
        to = self.decisions.get(self.n)
        if to is not None and to % n != me and self.tasks[to % n].state == "ready":
            return to % n
        for d in range(1, n):
            if self.tasks[(me + d) % n].state == "ready":
                return (me + d) % n
        return None

    def block(self, me, lock, may_fail=False):
        self.n += 1
        t = self.tasks[me]
        t.state = "blocked"
        self.waits[me] = lock
        to = self._other(me)
        if to is None:
            t.state = "ready"
            self.waits.pop(me, None)
            if may_fail:
                return False
            self.deadlock = sorted(set(self.waits) | {me})
            self.stop = True
            for i, s in enumerate(self.sems):
                if i != me and self.tasks[i].state != "done":
                    s.release()
            raise Stop()
        self._give(me, to, "lock")
        self._wait(me)
        return True

    def unblock(self, lock):
        for i, l in list(self.waits.items()):
            if l is lock:
                del self.waits[i]
                self.tasks[i].state = "ready"

    # -- one thread
    def _thread(self, i):
        t = self.tasks[i]
        self.ids[_thread.get_ident()] = i
        self.sems[i].acquire()
        try:
            if not self.stop:
                t.result = t.fn()
        except Stop:
            pass
        except BaseException as e:
            t.error = e
            e.__traceback__ = None if not isinstance(e, Violation) else e.__traceback__
        finally:
            t.state = "done"
            if not self.stop:
                to = self._other(i)
                if to is not None:
                    self._give(i, to, "end")
                elif any(x.state == "blocked" for x in self.tasks):
                    # the lock went away with the thread
                    self.deadlock = [k for k, x in enumerate(self.tasks) if x.state == "blocked"]
                    self.stop = True
            if self.stop:
                for k, s in enumerate(self.sems):
                    if k != i and self.tasks[k].state != "done":
                        try:
                            s.release()
                        except RuntimeError:
                            pass
            if all(x.state == "done" for x in self.tasks):
                self.done.release()

    def run(self):
        global CURRENT
        saved = np.random.get_state()
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.tasks))]
        old = sys.getswitchinterval()
        CURRENT = self
        try:
            sys.setswitchinterval(100.0)
            for th in threads:
                th.start()
            self._give(None, self.start % len(self.tasks), "begin")
            self.done.acquire()
            for th in threads:
                th.join()
        finally:
            CURRENT = None
            sys.setswitchinterval(old)
            np.random.set_state(saved)
        return self


def gen_schedule(rng, total, n, paths=None):
    """decisions for a run which passes about `total` places; `paths`: the places which each
    thread passes when it is alone"""
    if n < 2 or total < 1:
        return []
    kind = rng.choice(["few", "walk", "burst", "dense", "starve", "target", "target", "target"])
    out = {}
    if kind == "target" and paths:
        # rare places get as much weight as frequent ones
        r = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 5, 8])):
            t = rng.randrange(n)
            by = {}
            for i, p in enumerate(paths[t]):
                by.setdefault(p, []).append(i + 1)
            if not by:
                continue
            occ = by[rng.choice(sorted(by))]
            for at in [rng.choice(occ)] if rng.random() < 0.5 else rng.sample(occ, min(len(occ), 6)):
                r.append([t, at, (t + rng.randrange(1, n)) % n])
        return r
    if kind == "few":
        for _ in range(rng.randint(1, 6)):
            out[rng.randint(1, total)] = rng.randrange(n)
    elif kind == "walk":
        p = rng.choice([0.003, 0.02, 0.1])
        at = 0
        while len(out) < 3000:
            at += 1 + int(rng.expovariate(p))
            if at > total:
                break
            out[at] = rng.randrange(n)
    elif kind == "burst":
        # switch at every place for a while
        at = rng.randint(1, total)
        for k in range(rng.randint(10, 300)):
            out[at + k] = rng.randrange(n)
    elif kind == "dense":
        a = rng.randint(1, 3)
        for k in range(1, min(total, 4000 * a), a):
            out[k] = (k // a) % n
    else:
        # one thread is stalled in the middle of its work until the others are done
        out[rng.randint(1, max(1, total // n))] = rng.randrange(n)
    return sorted(out.items())
