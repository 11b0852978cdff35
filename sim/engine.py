"""Deterministic simulator for asyncapi3.

One run executes one plan (plain JSON) inside a forked child of a warm process, so every
run starts from the same pristine state.  The simulator owns
  * every preemption: clients are real threads, but only the holder of the baton runs and
    it is handed over only at events chosen by the plan (sys.monitoring LINE and INSTRUCTION
    events inside the library, and explicit yields of simulated processors);
  * every interruption: at the k-th such event it raises KeyboardInterrupt, MemoryError,
    RecursionError or a bare BaseException;
  * the depth of the call stack that an operation may use.
"""
import _thread
import dis
import functools
import gc
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import threading
import time
import traceback
import types

REPO = os.environ.get("SIM_REPO", "/repo")
PREFIX = os.path.realpath(os.path.join(REPO, "asyncapi3")) + os.sep
TOOL = 4
EV = sys.monitoring.events
BUDGET = 4_000_000
HOT = 1000  # events per place and run
CPU = 40  # seconds of processor time that no legitimate run comes near


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg


class EndRun(Exception):
    """Something another property's check judges went wrong: stop without a verdict."""


class Cut(BaseException):
    """A bare interruption."""


class Budget(BaseException):
    """An operation used far more steps than any legitimate one."""


KINDS = {"kbd": KeyboardInterrupt, "mem": MemoryError, "rec": RecursionError, "cut": Cut}
FAULTS = tuple(KINDS.values())


# ------------------------------------------------------------------ simulated locks
class SimLock:
    """Stand-in for locks made by the library: waiting hands the baton over."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        while True:
            me = MON.cur
            if self.owner is None or (self.reentrant and self.owner is me):
                self.owner = me if me is not None else self
                self.depth += 1
                return True
            if not blocking or timeout > 0:
                return False
            if MON.sched is None:
                raise Budget("deadlock: lock is held and nobody can release it")
            MON.sched.block(me)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def mine():
        return sys._getframe(2).f_globals.get("__name__", "").startswith("asyncapi3")

    def lock():
        return SimLock() if mine() else real_lock()

    def rlock(*a, **k):
        return SimLock(True) if mine() else real_rlock(*a, **k)

    threading.Lock, threading.RLock = lock, rlock


# ------------------------------------------------------------------ where an interruption can land
# instructions during which nothing can go wrong and after which no signal is looked at
INERT = {"NOP", "POP_TOP", "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "LOAD_CONST", "LOAD_GLOBAL", "STORE_FAST",
         "SWAP", "COPY", "PUSH_NULL", "POP_EXCEPT", "LOAD_DEREF", "STORE_DEREF", "LOAD_CLOSURE", "KW_NAMES", "JUMP_FORWARD",
         "POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "RETURN_VALUE", "RETURN_CONST",
         "RERAISE", "END_FOR", "IS_OP", "COPY_FREE_VARS", "CHECK_EXC_MATCH", "DELETE_FAST", "EXTENDED_ARG"}
BRANCH = {"JUMP_FORWARD", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "RETURN_VALUE",
          "RETURN_CONST", "RERAISE"}


@functools.cache
def landings(code):
    """Offsets at which raising is the same as an interruption CPython can really deliver: the one an instruction
    that allocates, calls or looks at signals would raise, reaching the same exception handler."""
    ins = list(dis.get_instructions(code))
    table = dis._parse_exception_table(code)

    def handler(o):
        return next((e.target for e in table if e.start <= o < e.end), None)
    out = set()
    for i, x in enumerate(ins):
        if x.opname == "PUSH_EXC_INFO":
            continue  # an exception is already on its way
        h = handler(x.offset)
        if i and ins[i - 1].opname in ("CALL", "CALL_FUNCTION_EX") and handler(ins[i - 1].offset) == h:
            out.add(x.offset)
            continue
        for y in ins[i:]:
            if y.opname not in INERT:
                if handler(y.offset) == h:
                    out.add(x.offset)
                break
            if y.opname in BRANCH:
                break
    return frozenset(out)


def can_land(code):
    f = sys._getframe(2)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f is None or f.f_lasti in landings(code)


# ------------------------------------------------------------------ event monitor
class Task:
    __slots__ = ("n", "fire_at", "exc", "act", "fired", "budget", "seen")

    def __init__(self, fault=None):
        self.n = 0
        self.fire_at = fault[1] if fault else 0
        # a third item: count the places the operation comes to, each once, instead of the events
        self.seen = set() if fault and len(fault) > 2 else None
        self.exc = self.act = None
        if fault and fault[0].startswith("act:"):
            from .surround import ACTS
            self.act = ACTS[fault[0][4:]]
        elif fault:
            self.exc = KINDS[fault[0]]
        self.fired = None
        self.budget = BUDGET


class Client:
    def __init__(self, idx=0, fn=None):
        self.idx = idx
        self.fn = fn
        self.task = None
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False


class Monitor:
    def __init__(self):
        self.cur = None
        self.sched = None
        self.steps = 0
        self.on = False
        self.hits = {}

    def install(self):
        sys.monitoring.use_tool_id(TOOL, "sim")
        sys.monitoring.register_callback(TOOL, EV.LINE, self.line)
        sys.monitoring.register_callback(TOOL, EV.INSTRUCTION, self.instr)
        sys.monitoring.set_events(TOOL, EV.LINE)
        self.on = True

    def fine(self):
        """Also count every bytecode instruction of the library as an event."""
        seen = set()
        todo = [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType
                and f.__code__.co_filename.startswith(PREFIX)]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            sys.monitoring.set_local_events(TOOL, c, EV.INSTRUCTION)
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]

    def line(self, code, where):
        if not code.co_filename.startswith(PREFIX):
            return sys.monitoring.DISABLE
        return self.event(code, where) or self.hot(code, where)

    def instr(self, code, where):
        return self.event(code, ~where) or self.hot(code, ~where)

    def hot(self, code, where):
        """After HOT events at one place in one run, later passes there go unobserved."""
        if self.cur is None or self.cur.task is None:
            return None
        k = (code, where)
        n = self.hits.get(k, 0) + 1
        self.hits[k] = n
        return sys.monitoring.DISABLE if n >= HOT else None

    def event(self, code, where=None):
        c = self.cur
        if c is None:
            return None
        t = c.task
        if t is None:
            return None
        t.n += 1
        self.steps += 1
        if t.n > t.budget:
            t.budget += 1000
            raise Budget("no progress: step budget exhausted")
        n = t.n
        if t.seen is not None:
            t.seen.add((code, where))
            n = len(t.seen)
        if t.fire_at and n >= t.fire_at and t.fired is None and sys.exception() is None \
                and (code is None or t.act is not None or can_land(code)):
            if t.act is not None:
                # a change of surroundings, not an interruption
                t.fire_at = 0
                c.task = None
                try:
                    t.act()
                finally:
                    c.task = t
                t.act = True
                return None
            t.fired = code.co_name if code is not None else "processor"
            raise t.exc()
        if self.sched is not None:
            self.sched.event(c, code)
        return None

    def pause(self):
        sys.monitoring.set_events(TOOL, 0)

    def resume(self):
        sys.monitoring.set_events(TOOL, EV.LINE)


MON = Monitor()


class Scheduler:
    """Hands the baton between clients exactly where the plan says."""

    def __init__(self, run, clients, sched):
        self.run = run
        self.clients = clients
        self.q = [list(x) for x in sched]
        self.gap = self.q[0][0] if self.q else None
        self.end = _thread.allocate_lock()
        self.end.acquire()
        self.error = None
        self.trace = []

    def others(self, c):
        return [x for x in self.clients if not x.done and x is not c]

    def event(self, c, code):
        if self.gap is None:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        _, to = self.q.pop(0)
        self.gap = self.q[0][0] if self.q else None
        o = self.others(c)
        if o:
            self.trace.append((c.idx, code.co_name if code is not None else "yield"))
            self.run.count("preemption")
            self.hand(c, o[to % len(o)])

    def hand(self, c, to):
        MON.cur = to
        to.gate.release()
        c.gate.acquire()
        if self.error is not None:
            _thread.exit()

    def block(self, c):
        o = self.others(c)
        self.spin = getattr(self, "spin", 0) + 1
        if not o or self.spin > 10000:
            raise Budget("deadlock: every client waits for a lock")
        self.hand(c, o[0] if len(o) == 1 else o[self.spin % len(o)])

    def body(self, c):
        c.gate.acquire()
        try:
            c.fn()
        except BaseException as e:  # noqa: BLE001
            if self.error is None:
                self.error = e
            MON.cur = None
            c.done = True
            self.end.release()
            return
        c.done = True
        o = self.others(c)
        if o:
            MON.cur = o[0]
            o[0].gate.release()
        else:
            MON.cur = None
            self.end.release()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(c,), daemon=True) for c in self.clients]
        for t in ts:
            t.start()
        MON.sched = self
        MON.cur = self.clients[0]
        self.clients[0].gate.release()
        self.end.acquire()
        MON.sched = None
        MON.cur = MAIN
        if self.error is not None:
            raise self.error


MAIN = Client()
MON.cur = MAIN


def yield_point():
    """Explicit event, for simulated processors and log sinks."""
    MON.event(None)


# ------------------------------------------------------------------ one run
class Run:
    def __init__(self, plan):
        self.plan = plan
        self.stats = {}
        self.states = set()
        self.h = hashlib.blake2b(digest_size=8)
        self.inter = None
        self.ops = 0
        self.carry = None
        self.text = []
        self.verbose = False

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def log(self, *a):
        s = json.dumps(a, sort_keys=True, default=str)
        self.h.update(s.encode("utf-8", "surrogatepass") + b"\n")
        if self.verbose:
            self.text.append(s)

    def state(self, s):
        self.states.add(hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=6).hexdigest())

    def op(self, fn, fault=None):
        """Run one library operation under the simulator: (kind, value, task)."""
        c = MON.cur
        t = Task(fault)
        self.ops += 1
        c.task = t
        try:
            try:
                v = fn()
                k = "ok"
            finally:
                c.task = None
        except Budget as e:
            raise Violation("progress", str(e)) from None
        except _REAL.ValidationError as e:
            k, v = "invalid", e
        except Exception as e:  # noqa: BLE001
            k, v = "error", e
        except BaseException as e:  # noqa: BLE001
            k, v = "base", e
        if t.act is True:
            self.count("fault:" + fault[0])
        if t.fired is not None:
            self.count("fault:" + fault[0])
            self.count("fault fired in " + t.fired)
        return k, v, t

    def squeeze(self, fn, room):
        """Run one operation with only `room` call-stack frames left."""
        d = 0
        f = sys._getframe()
        while f is not None:
            d += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        self.ops += 1
        MON.pause()
        try:
            try:
                sys.setrecursionlimit(d + 3 + room)
                v = fn()
                k = "ok"
            finally:
                sys.setrecursionlimit(old)
        except _REAL.ValidationError as e:
            k, v = "invalid", e
        except Exception as e:  # noqa: BLE001
            k, v = "error", e
        except BaseException as e:  # noqa: BLE001
            k, v = "base", e
        MON.resume()
        if isinstance(v, RecursionError):
            self.count("fault:stack")
        return k, v

    def fork(self, fn):
        """Evaluate fn in a forked copy of this very state and return its JSON result."""
        r = forked(fn, 60)
        if "harness" in r:
            raise RuntimeError(r["harness"])
        if "viol" in r:
            raise Violation(*r["viol"])
        if "end" in r:
            raise EndRun(r["end"])
        if "v" not in r:
            raise RuntimeError(f"fork gave {r}")
        return r["v"]

    def clients(self, fns, sched):
        cs = [Client(i, f) for i, f in enumerate(fns)]
        s = Scheduler(self, cs, sched)
        s.go()
        self.inter = hashlib.blake2b(repr(s.trace).encode(), digest_size=6).hexdigest()
        self.log("schedule", s.trace)


def forked(fn, timeout):
    """Run fn in a forked child; its result comes back as {"v": ...}."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            try:
                out = {"v": fn()}
            except Violation as e:
                out = {"viol": [e.kind, e.msg]}
            except EndRun as e:
                out = {"end": str(e)}
            except BaseException as e:  # noqa: BLE001
                out = {"harness": traceback.format_exc()}
                t = e.__traceback__
                while t is not None and t.tb_next is not None:
                    t = t.tb_next
                f = t.tb_frame.f_code.co_filename if t is not None else ""
                if isinstance(e, Exception) and (f.startswith(PREFIX) or "/pydantic/" in f):
                    # the library itself failed where the check did not expect any failure
                    out = {"viol": ["unexpected", f"{type(e).__name__}: {e} in {t.tb_frame.f_code.co_name}"[:500]]}
            data = json.dumps(out, default=str).encode()
            while data:
                n = os.write(wfd, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(wfd)
    buf = []
    deadline = time.monotonic() + timeout
    killed = False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([rfd], [], [], left)[0]:
                killed = True
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            buf.append(b)
    finally:
        os.close(rfd)
        _, st = os.waitpid(pid, 0)
    if killed:
        return {"timeout": timeout}
    if os.WIFSIGNALED(st):
        return {"signal": os.WTERMSIG(st)}
    if not buf:
        return {"harness": f"child ended with status {st} and no result"}
    return json.loads(b"".join(buf))


def child(check, plan, phase, carry, verbose=False):
    """Body of one forked run phase."""
    def body():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.setitimer(signal.ITIMER_PROF, CPU)
        sys.unraisablehook = bool  # builtin: needs no stack frame
        gc.disable()
        run = Run(plan)
        run.verbose = verbose
        out = {}
        try:
            if plan.get("fine"):
                MON.fine()
            check.run(run, phase, carry)
        except EndRun as e:
            run.count("ended early: " + str(e))
        except Violation as e:
            out["viol"] = [e.kind, e.msg]
            run.log("violation", e.kind, e.msg)
        out.update(stats=run.stats, states=sorted(run.states), log=run.h.hexdigest(),
                   inter=run.inter, steps=MON.steps, ops=run.ops, carry=run.carry)
        if verbose:
            out["text"] = run.text
        return out
    return body


def execute(check, plan, timeout=60, verbose=False):
    """Run every phase of a plan; returns the merged result."""
    carry = None
    if hasattr(check, "ready"):
        check.ready()
    tot = {"stats": {}, "states": [], "log": "", "inter": None, "steps": 0, "ops": 0, "viol": None,
           "text": []}
    for ph in range(check.PHASES):
        r = forked(child(check, plan, ph, carry, verbose), timeout)
        if "timeout" in r:
            tot["timeout"] = True
            return tot
        if "signal" in r:
            if r["signal"] in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
                tot["viol"] = ["crash", f"the process died on signal {r['signal']}"]
                return tot
            if r["signal"] == signal.SIGPROF:
                tot["viol"] = ["progress", f"no end in sight after {CPU} s of processor time"]
                return tot
            tot["harness"] = f"run killed by signal {r['signal']}"
            return tot
        if "viol" in r:
            tot["viol"] = r["viol"]
            return tot
        if "harness" in r:
            tot["harness"] = r["harness"]
            return tot
        v = r["v"]
        for k, n in v["stats"].items():
            tot["stats"][k] = tot["stats"].get(k, 0) + n
        tot["states"] += v["states"]
        tot["log"] += v["log"]
        tot["inter"] = v["inter"] or tot["inter"]
        tot["steps"] += v["steps"]
        tot["ops"] += v["ops"]
        tot["text"] += v.get("text", [])
        carry = v["carry"]
        if v.get("viol"):
            tot["viol"] = v["viol"]
            return tot
    return tot


_REAL = None


def boot():
    """Import the library from the tree under test and install every seam."""
    global _REAL
    sys.path.insert(0, REPO)
    install_locks()
    from . import real
    import asyncapi3
    assert os.path.realpath(asyncapi3.__file__).startswith(PREFIX), asyncapi3.__file__
    _REAL = real
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    MON.install()
    return real


def rng_for(seed, check, i):
    return random.Random(f"{seed}:{check}:{i}")
