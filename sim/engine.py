"""
The deterministic simulator.

Real Python threads, but exactly one of them runs at a time: the one that
holds the baton.  Who gets the baton, and where a fault is injected, is decided
by a *plan* that was completely derived from one integer seed before the run
started.  The positions a plan can name are "points" inside the real code of
HamiltonianPy; they are observed with PEP 669 instruction events, so nothing in
/repo has to be edited and the positions do not depend on how the code is
written, only on what it executes.

A point is
    P  a place where CPython may switch threads (function entry, loop back
       edge, directly after a call or an operator that can run foreign code or
       release the GIL): a preemption may be placed here;
    I  a place where CPython delivers asynchronous exceptions (function
       entry, loop back edge, directly after a call): a KeyboardInterrupt may
       be placed here;
    C  a call that is about to happen: an allocation failure (MemoryError) may
       be placed here.
Stand-ins (the user's operator, the simulated disk, the simulated terminal)
add their own points with `Engine.point`.
"""

import dis
import os
import sys
import threading
import types
import _thread

PREEMPT, INTERRUPT, CALLPOINT = 1, 2, 4
DEVICE = 8  # a point inside a stand-in: everything is allowed
WROTE = 16  # the first preemption point after a write to an object
TORN = 32   # the first place for a fault after a write to an object

_POST_I = {
    "CALL", "CALL_FUNCTION_EX", "CALL_INTRINSIC_1", "CALL_INTRINSIC_2",
    "RESUME", "JUMP_BACKWARD",
}
_POST_P = _POST_I | {
    "BINARY_OP", "BINARY_SUBSCR", "STORE_SUBSCR", "COMPARE_OP",
    "BINARY_SLICE", "STORE_SLICE", "DELETE_SUBSCR", "CONTAINS_OP",
}
_PRE_C = {"CALL", "CALL_FUNCTION_EX"}
# Instructions and methods that (may) change an object others can see.  They
# only make the search look more often at the points that follow them.
_WRITES = {
    "STORE_SUBSCR", "STORE_SLICE", "STORE_ATTR", "STORE_GLOBAL",
    "STORE_DEREF", "DELETE_SUBSCR", "DELETE_ATTR", "DELETE_GLOBAL",
    "DELETE_DEREF",
}
_MUTATORS = {
    "append", "extend", "insert", "add", "update", "setdefault", "pop",
    "popitem", "remove", "discard", "clear", "sort", "reverse", "fill",
    "put", "setflags", "resize", "write", "flush", "close", "__setattr__",
}

_real_allocate = _thread.allocate_lock
_real_RLock = threading.RLock
_real_get_ident = _thread.get_ident


class SimInterrupt(KeyboardInterrupt):
    """The simulated Ctrl-C."""


class SimMemoryError(MemoryError):
    """The simulated allocation failure."""


class SimAbort(BaseException):
    """Tears the simulation down (deadlock, runaway operation)."""


FAULTS = {"interrupt": SimInterrupt, "memory": SimMemoryError}
FAULT_FLAG = {"interrupt": INTERRUPT, "memory": CALLPOINT}


def _flags_of(code):
    out = {}
    prev = None
    wrote = torn = mutator = release = False
    nones = 0
    table = dis._parse_exception_table(code)

    def region(offset):
        for entry in table:
            if entry.start <= offset < entry.end:
                return entry.target
        return None

    last = 0
    for ins in dis.get_instructions(code):
        name = ins.opname
        if name == "CACHE":
            continue
        fl = 0
        if prev in _POST_P:
            fl |= PREEMPT
        # CPython counts a Ctrl-C that arrives during a call to the call, so
        # the handler of the call gets it; here it would be raised by the next
        # instruction, which is only the same inside one block.
        if prev in _POST_I and (prev == "RESUME"
                                or region(last) == region(ins.offset)):
            fl |= INTERRUPT
        # Leaving a `with` block and releasing a lock allocate nothing that
        # could fail.  (`with` calls the exit with three `None`s.)
        if name in _PRE_C and not release and not (
                nones == 3 and ins.arg == 2):
            fl |= CALLPOINT
        if fl and name != "RESUME":
            if wrote and fl & PREEMPT:
                fl |= WROTE
                wrote = False
            if torn and fl & (INTERRUPT | CALLPOINT):
                fl |= TORN
                torn = False
            out[ins.offset] = fl
        nones = nones + 1 if name == "LOAD_CONST" and ins.argval is None \
            else 0
        if name == "LOAD_ATTR" and ins.argval == "release":
            release = True
        elif name in _PRE_C:
            release = False
        if name == "LOAD_ATTR" and ins.argval in _MUTATORS:
            mutator = True
        if name in _WRITES or (name == "BINARY_OP" and ins.arg >= 13):
            wrote = torn = True
        elif mutator and name in _PRE_C:
            wrote = torn = True
            mutator = False
        prev, last = name, ins.offset
    return out


class Engine:
    TOOL = 3

    def __init__(self, root):
        self.root = os.path.join(os.path.realpath(root), "")
        self.flags = {}
        self.active = False
        self.cur_ident = None
        self.threads = {}
        self.trace = []
        self.record = False
        self.fired = {}
        self.limit = 3_000_000
        self.deadlock = None
        self.runaway = None
        self.seq = 0
        self.now = 0.0           # simulated clock, advanced by stand-ins
        self.masked = 0
        self.broken = None

    # -- discovery of the code under simulation ----------------------------
    def install(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "hamsim")
        mon.register_callback(self.TOOL, mon.events.PY_START, self._on_start)
        mon.register_callback(
            self.TOOL, mon.events.INSTRUCTION, self._on_instruction
        )
        mon.set_events(self.TOOL, mon.events.PY_START)
        self._patch_locks()

    def _on_start(self, code, offset):
        if code not in self.flags and code.co_filename.startswith(self.root):
            self._register(code)
        return sys.monitoring.DISABLE

    def _register(self, code):
        if code in self.flags:
            return
        mon = sys.monitoring
        # Class and module bodies run at import, before any simulated run
        # starts; only their nested code matters.
        self.flags[code] = _flags_of(code)
        mon.set_local_events(self.TOOL, code, mon.events.INSTRUCTION)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                self._register(const)

    def _on_instruction(self, code, offset):
        fl = self.flags[code].get(offset)
        if fl is None:
            return sys.monitoring.DISABLE
        if not self.active or self.masked:
            return None
        if _real_get_ident() != self.cur_ident:
            return None
        self._event(code, offset, fl)

    def point(self, tag, flags=PREEMPT | INTERRUPT | CALLPOINT | DEVICE):
        """A point inside a stand-in."""
        if not self.active or self.masked:
            return
        if _real_get_ident() != self.cur_ident:
            return
        self._event(tag, 0, flags)

    def device_fault(self, kind):
        """Ask whether the plan wants device fault `kind` at this point."""
        if not self.active:
            return None
        th = self.cur
        n = th.dev.get(kind, 0)
        th.dev[kind] = n + 1
        act = th.actions.get(("dev", kind, n))
        if self.record:
            th.rec_dev[kind] = th.dev[kind]
        if act is not None:
            self.fired[act["kind"]] = self.fired.get(act["kind"], 0) + 1
            th.injected = True
            self.trace.append((th.tid, th.opid, "dev", kind, n, act["kind"]))
        return act

    def _site(self, code, offset):
        if isinstance(code, types.CodeType):
            return "%s:%s:%d" % (
                code.co_filename[len(self.root):], code.co_qualname, offset
            )
        return "stub:" + str(code)

    def _event(self, code, offset, fl):
        th = self.cur
        k = th.k
        th.k = k + 1
        self.seq += 1
        if self.record:
            if k < 20000:
                th.rec.append((self._site(code, offset), fl))
        if k > self.limit:
            self.runaway = (th.tid, th.opid)
            self.abort = True
            raise SimAbort("operation does not terminate")
        act = th.actions.get(k)
        if act is None:
            return
        for a in act:
            if a["type"] == "preempt":
                self.trace.append(
                    (th.tid, th.opid, "switch", self._site(code, offset),
                     a["to"])
                )
                if self._switch(th, a["to"]):
                    self.fired["preempt"] = self.fired.get("preempt", 0) + 1
            else:
                kind = a["kind"]
                if fl & FAULT_FLAG[kind]:
                    self.trace.append(
                        (th.tid, th.opid, "fault", self._site(code, offset),
                         kind)
                    )
                    self.fired[kind] = self.fired.get(kind, 0) + 1
                    th.injected = True
                    exc = FAULTS[kind]("simulated")
                    th.injected_exc = exc
                    raise exc

    # -- baton -------------------------------------------------------------
    def _runnable(self):
        return [
            t for t in self.threads.values() if not t.done and t.wait is None
        ]

    def _switch(self, th, to):
        nxt = self.threads.get(to)
        if nxt is None or nxt.done or nxt.wait is not None or nxt is th:
            others = [t for t in self._runnable() if t is not th]
            if not others:
                return False
            nxt = others[0]
        self._handover(th, nxt)
        return True

    def _handover(self, th, nxt):
        self.cur = nxt
        self.cur_ident = nxt.ident
        nxt.baton.release()
        th.baton.acquire()
        self.cur = th
        self.cur_ident = th.ident
        self.masked = 0
        if self.abort:
            raise SimAbort("simulation aborted")

    def _finish(self, th):
        th.done = True
        alive = [t for t in self.threads.values() if not t.done]
        if not alive:
            self.all_done.release()
            return
        run = [t for t in alive if t.wait is None]
        if self.abort:
            run = alive
        if not run:
            self.deadlock = [(t.tid, t.opid) for t in alive]
            self.abort = True
            run = alive
        nxt = run[0]
        self.cur = nxt
        self.cur_ident = nxt.ident
        nxt.baton.release()

    def run_threads(self, programs, actions, call, record=False,
                    switch_to=None):
        """
        Run `programs` ({tid: [op, ...]}) under `actions`
        ({opid: {k: [action, ...]}}) and return the history.
        `call(op)` performs one operation and returns its outcome value.
        """
        self.threads = {}
        self.abort = False
        self.record = record
        self.all_done = _real_allocate()
        self.all_done.acquire()
        history = []
        for tid, ops in programs.items():
            self.threads[tid] = _SimThread(
                self, tid, ops, actions, call, history
            )
        for th in self.threads.values():
            th.start()
        if not self.threads:
            return history
        first = next(iter(self.threads.values()))
        self.cur = first
        self.cur_ident = first.ident
        self.active = True
        first.baton.release()
        self.all_done.acquire()
        self.active = False
        self.cur_ident = None
        for th in self.threads.values():
            th.ended.acquire()
        if self.broken:
            raise RuntimeError("harness thread failed: " + self.broken)
        return history

    # -- locks made by the code under simulation ---------------------------
    def _from_repo(self):
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return False
            fn = f.f_code.co_filename
            if fn.startswith(self.root):
                return True
            if os.path.basename(fn) not in ("threading.py", "queue.py"):
                return False
            f = f.f_back
        return False

    def _patch_locks(self):
        eng = self

        def Lock():
            return SimLock(eng) if eng._from_repo() else _real_allocate()

        def RLock(*a, **k):
            return SimRLock(eng) if eng._from_repo() else _real_RLock()

        threading.Lock = Lock
        threading.RLock = RLock
        threading._allocate_lock = Lock


class _SimThread:
    def __init__(self, eng, tid, ops, actions, call, history):
        self.eng = eng
        self.tid = tid
        self.ops = ops
        self.all_actions = actions
        self.call = call
        self.history = history
        self.baton = _real_allocate()
        self.baton.acquire()
        self.ended = _real_allocate()
        self.ended.acquire()
        self.ready = _real_allocate()
        self.ready.acquire()
        self.done = False
        self.wait = None
        self.k = 0
        self.dev = {}
        self.rec = []
        self.rec_dev = {}
        self.actions = {}
        self.opid = None
        self.op_failed = ()      # the operation in which a user object failed
        self.injected = False
        self.injected_exc = None
        self.ident = None

    def start(self):
        _thread.start_new_thread(self._main, ())
        self.ready.acquire()

    def _main(self):
        self.ident = _real_get_ident()
        self.ready.release()
        self.baton.acquire()
        eng = self.eng
        try:
            if not eng.abort:
                for op in self.ops:
                    self._do(op)
                    if eng.abort:
                        break
        except SimAbort:
            pass
        except BaseException:
            import traceback
            eng.broken = traceback.format_exc()
            eng.abort = True
        finally:
            eng._finish(self)
            self.ended.release()

    def _do(self, op):
        eng = self.eng
        self.opid = op["id"]
        self.k = 0
        self.dev = {}
        self.rec = []
        self.rec_dev = {}
        self.injected = False
        self.injected_exc = None
        self.actions = self.all_actions.get(op["id"], {})
        rec = {"tid": self.tid, "op": op, "invoke": eng.seq}
        self.history.append(rec)
        eng.seq += 1
        # Position 0: between operations.
        for a in self.actions.get(-1, ()):
            if a["type"] == "preempt":
                eng.trace.append(
                    (self.tid, self.opid, "switch", "between", a["to"])
                )
                if eng._switch(self, a["to"]):
                    eng.fired["preempt"] = eng.fired.get("preempt", 0) + 1
        rec["invoke"] = eng.seq
        eng.seq += 1
        eng.masked = 0
        try:
            rec["value"] = self.call(op)
            eng.masked = 1
            rec["exc"] = None
        except SimAbort:
            eng.masked = 1
            rec["exc"] = ("SimAbort", "")
            raise
        except BaseException as e:
            eng.masked = 1
            rec["value"] = None
            rec["exc"] = (type(e).__name__, _text(e))
        rec["return"] = eng.seq
        eng.seq += 1
        rec["injected"] = self.injected
        # A failure of a user's object, or a Ctrl-C, that nobody was told of
        rec["swallowed"] = rec["exc"] is None and (
            self.op_failed == self.opid
            or isinstance(self.injected_exc, KeyboardInterrupt))
        rec["points"] = self.k
        if eng.record:
            rec["rec"] = self.rec
            rec["rec_dev"] = self.rec_dev


def _text(e):
    try:
        return str(e)[:300]
    except Exception:
        return "?"


class SimLock:
    def __init__(self, eng):
        self.eng = eng
        self.owner = None

    def _me(self):
        eng = self.eng
        if eng.active and _real_get_ident() == eng.cur_ident:
            return eng.cur
        return "outside"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        eng = self.eng
        while self.owner is not None:
            if not blocking:
                return False
            if me == "outside":
                raise RuntimeError("simulated lock contended outside a run")
            me.wait = self
            run = eng._runnable()
            if not run:
                me.wait = None
                if timeout is not None and timeout >= 0:
                    eng.now += timeout
                    return False
                eng.deadlock = [
                    (t.tid, t.opid) for t in eng.threads.values() if not t.done
                ]
                eng.abort = True
                raise SimAbort("deadlock")
            eng._handover(me, run[0])
            me.wait = None
        self.owner = me
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        for t in self.eng.threads.values():
            if t.wait is self:
                t.wait = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class SimRLock(SimLock):
    def __init__(self, eng):
        super().__init__(eng)
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.owner is not None and self.owner == me:
            self.count += 1
            return True
        ok = super().acquire(blocking, timeout)
        if ok:
            self.count = 1
        return ok

    def release(self):
        if self.owner is None or self.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            super().release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner is not None and self.owner == self._me()

    def _release_save(self):
        n, self.count = self.count, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def __enter__(self):
        return self.acquire()
