"""Asynchronous interrupts and allocation failures at instruction granularity.

A Ctrl-C becomes a KeyboardInterrupt only where the interpreter looks for it: after a call
into C returned, at the start of a function, at the end of a loop body.  Only those places
are used.  A MemoryError can come from any instruction which allocates: calls and binary
operators; it is raised before the instruction has any effect.

The places are counted in a dry run and numbered; an injected run raises at one of them.
Nothing depends on source text: places are (function, occurrence) pairs of the bytecode
which happens to be there.
"""
import dis
import sys

import numpy as np

from .core import PKG_DIR

CALLS = {"CALL", "CALL_FUNCTION_EX"}
ALLOCS = {"CALL", "CALL_FUNCTION_EX", "BINARY_OP", "BUILD_LIST", "BUILD_MAP", "BUILD_TUPLE", "BINARY_SUBSCR",
          "BINARY_SLICE", "UNARY_NEGATIVE"}
INPLACE_ARG_MIN = 13  # BINARY_OP argument: 13.. are the in-place forms
JUMPS = {"JUMP_BACKWARD"}

_code_cache = {}

# CPython 3.12 instruments instructions only if some frame asked for it before settrace
sys._getframe().f_trace_opcodes = True


def code_info(code):
    info = _code_cache.get(code)
    if info is None:
        call, jump, alloc = set(), set(), set()
        for ins in dis.get_instructions(code):
            if ins.opname in CALLS:
                call.add(ins.offset)
            if ins.opname in JUMPS:
                jump.add(ins.offset)
            if ins.opname in ALLOCS and not (ins.opname == "BINARY_OP" and ins.arg >= INPLACE_ARG_MIN):
                alloc.add(ins.offset)
        info = (call, jump, alloc)
        _code_cache[code] = info
    return info


_dispatched = None


def dispatched_codes():
    """implementations numpy calls from C: after them the interpreter looks for signals"""
    global _dispatched
    if _dispatched is None:
        s = set()
        for mod in (np, np.linalg, np.fft):
            for v in vars(mod).values():
                impl = getattr(v, "_implementation", None)
                c = getattr(impl, "__code__", None)
                if c is not None:
                    s.add(c)
        _dispatched = s
    return _dispatched


class StepBudget(BaseException):
    pass


class Tracer:
    """with Tracer(kind, at): ...

    kind: 'KI' | 'ME' | None (only count); at: number of the place, or None.
    `points` lists (code qualname, offset) of each place passed, in order.
    `hook`, if given, is called with (tracer, index) at each place (used by the scheduler).
    """

    def __init__(self, kind="KI", at=None, prefixes=(), budget=None, exclude=(), at2=None, hook=None, exc=None,
                 record=True):
        self.kind = kind
        self.at = at
        self.at2 = at2
        self.prefixes = (PKG_DIR,) + tuple(prefixes)
        self.exclude = exclude
        self.n = 0
        self.points = []
        self.fired = None
        self.frames = {}
        self.steps = 0
        self.budget = budget
        self.enabled = True
        self.hook = hook
        self.exc = exc
        self.record = record
        self.disp = dispatched_codes()
        self.file_ok = {}
        self.last = None

    def _ok(self, code):
        r = self.file_ok.get(code)
        if r is None:
            fn = code.co_filename
            r = fn.startswith(self.prefixes) and code.co_name not in self.exclude
            self.file_ok[code] = r
        return r

    def _place(self, code, off):
        i = self.n
        self.n += 1
        self.last = (code, off)
        if self.record:
            self.points.append((code.co_qualname, off))
        if self.hook is not None:
            self.hook(self, i)
            return
        if i == self.at or i == self.at2:
            self.fired = (code.co_qualname, off, i)
            if self.exc is not None:
                raise self.exc()
            if self.kind == "KI":
                raise KeyboardInterrupt()
            raise MemoryError("simulated allocation failure")

    def _global(self, frame, event, arg):
        if event != "call" or not self.enabled:
            return None
        code = frame.f_code
        if not self._ok(code):
            if code not in self.disp:
                st = self.frames.get(id(frame.f_back))
                if st is not None:
                    st.pycall = True
            return None
        st = self.frames.get(id(frame.f_back))
        if st is not None:
            st.pycall = True
        st = _Frame(self, frame)
        self.frames[id(frame)] = st
        frame.f_trace_lines = False
        frame.f_trace_opcodes = True
        frame.f_trace = st.local
        if self.kind != "ME":
            self._place(code, -1)
        return st.local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def rearm(self):
        """tracing switches itself off when the callback raises"""
        sys.settrace(self._global)

    def __exit__(self, *a):
        sys.settrace(self._old)
        self.frames.clear()
        return False


class _Frame:
    __slots__ = ("t", "prev", "pycall", "info", "code", "fid")

    def __init__(self, t, frame):
        self.t = t
        self.prev = -1
        self.pycall = False
        self.code = frame.f_code
        self.info = code_info(frame.f_code)
        self.fid = id(frame)

    def local(self, frame, event, arg):
        t = self.t
        if event == "opcode":
            off = frame.f_lasti
            call, jump, alloc = self.info
            prev = self.prev
            self.prev = off
            t.steps += 1
            if t.budget is not None and t.steps > t.budget:
                raise StepBudget()
            if t.kind == "ME":
                if off in alloc:
                    t._place(self.code, off)
            else:
                if prev in call:
                    if not self.pycall:
                        t._place(self.code, off)
                elif prev in jump:
                    t._place(self.code, off)
            if off in call:
                self.pycall = False
        elif event == "return":
            t.frames.pop(self.fid, None)
        elif event == "exception":
            # the instruction did not complete: no signal check after it
            self.prev = -1
        return self.local


def stratify(points, rng, limit):
    """Choose at most `limit` place numbers: every distinct (function, offset) first
    (one of its occurrences at random), then more occurrences at random."""
    by = {}
    for i, p in enumerate(points):
        by.setdefault(tuple(p), []).append(i)
    keys = sorted(by)
    rng.shuffle(keys)
    out = []
    for k in keys:
        occ = by[k]
        out.append(rng.choice([occ[0], occ[-1], rng.choice(occ)]))
    if len(out) > limit:
        out = out[:limit]
    else:
        rest = sorted(set(range(len(points))) - set(out))
        rng.shuffle(rest)
        out += rest[:limit - len(out)]
    return out
