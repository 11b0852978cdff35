"""The surroundings of a run: process configurations, settings changed before a run, and
surroundings faults in the middle of one."""
import asyncio
import builtins
import ctypes
import functools
import gc
import hashlib
import json
import locale
import logging
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import types
import warnings

from .engine import MON

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# process configurations: only a new process can have them
CONFIGS = [
    {"hash": "0", "env": {"TZ": "UTC", "LC_ALL": "C.UTF-8", "HOME": "/root"}, "cwd": "/"},
    {"hash": "1", "env": {"TZ": "Asia/Kathmandu", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
     "cwd": "decoy", "clock": True, "uid": 65534, "argv": ["/usr/local/bin/pytest", "-q"]},
    {"hash": "4242", "env": {"TZ": "America/St_Johns", "LANG": "tr_TR.UTF-8", "LC_ALL": "POSIX", "COLUMNS": "7",
                             "PYTHONASYNCIODEBUG": "1", "http_proxy": "http://127.0.0.1:1", "NO_COLOR": "1", "DEBUG": "1",
                             "ASYNCAPI_VERSION": "2.6.0", "ASYNCAPI3_STRICT": "1", "ENV": "prod", "CI": "true",
                             "LOG_LEVEL": "DEBUG", "PYTEST_CURRENT_TEST": "t.py::t (call)"}, "cwd": "gone",
     "modules": ["pytest", "_pytest", "unittest", "hypothesis", "yaml", "ruamel", "ruamel.yaml", "orjson", "IPython", "sphinx",
                 "coverage", "mypy", "fastapi", "faststream"]},
    {"hash": "987654321", "env": {"PYTHONMALLOC": "malloc", "TZ": ":bad", "LC_ALL": "xx_XX"}, "cwd": "/proc", "clock": True,
     "asked": "1", "ps1": True},
    {"hash": "77", "flags": ["-OO"], "env": {"PYTHONUNBUFFERED": "1", "LC_ALL": "C.UTF-8"}, "cwd": "/usr/share"},
]


# a library put in front of libc: the clock of the whole process starts elsewhere, and jumps at readings while told to
CLOCK = r"""
#define _GNU_SOURCE
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
volatile long sim_offset = 0, sim_jump = 0;
int clock_gettime(clockid_t id, struct timespec *t) {
    long r = syscall(SYS_clock_gettime, id, t);
    if (r == 0 && sim_jump && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC)) {
        sim_jump = (sim_jump * 1103515245L + 12345L) & 0x7fffffffL;
        static const long by[8] = {0, 1, 60, 3600, 86400, 31536000L, 0, 315360000L};
        sim_offset += by[(sim_jump >> 16) & 7];
        if (id == CLOCK_REALTIME && (sim_jump >> 20 & 7) == 0) t->tv_sec -= 1000000;
    }
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC)) t->tv_sec += sim_offset;
    return (int)r;
}
"""


@functools.cache
def clock_library():
    """Path of the compiled clock, or None where there is no compiler."""
    d = os.path.join(HERE, "evidence", ".build")
    so = os.path.join(d, f"clock-{hashlib.blake2b(CLOCK.encode(), digest_size=6).hexdigest()}.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = f"{so}.{os.getpid()}"
        try:
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-x", "c", "-o", tmp, "-"], input=CLOCK.encode(), check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.rename(tmp, so)
        except (OSError, subprocess.CalledProcessError):
            return None
    return so


def dress(k):
    """Inside the zygote, before the library is imported: what only the start of a process can change."""
    c = CONFIGS[k]
    for m in c.get("modules", []):
        sys.modules.setdefault(m, types.ModuleType(m))
    if "argv" in c:
        sys.argv = list(c["argv"])
    if c.get("ps1"):
        sys.ps1 = ">>> "
    ASKED.value = c.get("asked")
    os.environ.__class__ = Environ


class ASKED:
    """What the library is told when it asks for an environment variable that is not there (None: the truth)."""
    value = None


class Environ(type(os.environ)):
    def __getitem__(self, key):
        try:
            return super().__getitem__(key)
        except KeyError:
            if ASKED.value is not None and asked_by_library():
                return ASKED.value
            raise

    def __contains__(self, key):
        return super().__contains__(key) or (ASKED.value is not None and asked_by_library())


def asked_by_library():
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") in ("os", "collections.abc", "_collections_abc", __name__):
        f = f.f_back
    return f is not None and f.f_globals.get("__name__", "").startswith("asyncapi3")


def spawn(k):
    c = CONFIGS[k]
    env = {"PATH": "/usr/bin:/bin", "PYTHONHASHSEED": c["hash"], "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONPYCACHEPREFIX": "/nonexistent/sim", "SIM_REPO": os.environ.get("SIM_REPO", "/repo")}
    env.update(c["env"])
    if c.get("clock") and clock_library():
        env["LD_PRELOAD"] = clock_library()
    return subprocess.Popen([sys.executable, "-B", *c.get("flags", []), os.path.join(HERE, "sim", "zygote.py"), str(k)], env=env, cwd="/",
                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)


def settle(k):
    """Inside the zygote: move to the configured directory."""
    cwd = CONFIGS[k]["cwd"]
    if cwd in ("decoy", "gone"):
        d = tempfile.mkdtemp(prefix="sim-")
        os.chdir(d)
        shutil.rmtree(d)
        if cwd == "decoy":
            os.chdir("/usr/share")
    else:
        os.chdir(cwd)
    if "uid" in CONFIGS[k] and os.getuid() == 0:
        os.setgroups([])
        os.setgid(CONFIGS[k]["uid"])
        os.setuid(CONFIGS[k]["uid"])


class Refused(OSError):
    pass


class World:
    """What the simulator put in place of the real clock, file system and network."""

    def __init__(self):
        self.on = False
        self.denied = []
        self.clock = None
        self.keep = []

    def audit(self, event, args):
        if not self.on or MON.cur is None or MON.cur.task is None:
            return  # only library operations are cut off
        if event == "open" or event.startswith(("socket.", "os.listdir", "os.scandir", "subprocess.", "os.system", "os.exec",
                                                "os.spawn", "os.posix_spawn", "shutil.", "tempfile.", "urllib.", "glob.",
                                                "os.remove", "os.rename", "os.mkdir", "ctypes.dlopen", "sqlite3.", "mmap.")):
            f = sys._getframe()
            while f is not None:
                if "importlib" in f.f_code.co_filename:
                    return
                f = f.f_back
            self.denied.append(event)
            raise Refused(5, f"{event}: nothing outside the process works in this run")

    def install(self):
        sys.addaudithook(self.audit)


WORLD = World()


def at_work():
    """Whether a library operation is under way (and not the interpreter loading a module)."""
    if MON.cur is None or MON.cur.task is None:
        return False
    f = sys._getframe(1)
    while f is not None:
        if "importlib" in f.f_code.co_filename:
            return False
        f = f.f_back
    return True


def files(how):
    """What the library finds when it asks about files: "deny": nothing can be asked, "all": every file is there
    and is a small JSON document, "none": there is nothing anywhere."""
    import io

    def wrap(mod, name, there):
        real = getattr(mod, name)

        def f(*a, **kw):
            if not at_work():
                return real(*a, **kw)
            if how == "deny":
                raise Refused(5, name + ": nothing outside the process works in this run")
            if how == "none":
                raise FileNotFoundError(2, "nothing is there")
            return there(*a, **kw)
        setattr(mod, name, f)
    known = os.stat(__file__)
    for n in ("stat", "lstat"):
        wrap(os, n, lambda *a, **kw: known)
    wrap(os, "access", lambda *a, **kw: True)
    text = '{"info": {"title": "x", "version": "1"}, "a": {"name": "a"}}'
    for m in (builtins, io):
        wrap(m, "open", lambda f, mode="r", *a, **kw: io.BytesIO(text.encode()) if "b" in mode else io.StringIO(text))


def facts(rng):
    """What the process tells about the machine, the user and itself."""
    import decimal
    import getpass
    import platform
    import socket
    import uuid
    n = rng.choice([0, 1, 4095])

    def say(mod, name, x):
        if hasattr(mod, name):
            real = getattr(mod, name)
            setattr(mod, name, lambda *a, **kw: x if at_work() else real(*a, **kw))
    for name, x in (("cpu_count", n or None), ("process_cpu_count", n or None), ("getppid", n), ("getloadavg", (float(n),) * 3),
                    ("getlogin", "nobody"), ("urandom", b"\0" * 16), ("isatty", bool(n))):
        say(os, name, x)
    for name, x in (("system", "Windows"), ("machine", "pdp11"), ("node", "host" * n), ("python_version", "3.99.0"),
                    ("python_implementation", "PyPy"), ("release", ""), ("platform", "x")):
        say(platform, name, x)
    say(socket, "gethostname", "prod-1" if n else "")
    say(socket, "getfqdn", "localhost")
    say(getpass, "getuser", "root" if n else "nobody")
    say(uuid, "uuid4", uuid.UUID(int=n))
    say(uuid, "uuid1", uuid.UUID(int=n))
    say(uuid, "getnode", n)
    say(threading, "active_count", n + 1)
    say(gc, "isenabled", bool(n))
    say(gc, "get_count", (n, n, n))
    say(sys, "getrecursionlimit", rng.choice([100, 10 ** 6]))
    decimal.getcontext().prec = rng.choice([1, 3, 60])
    sys.platform = rng.choice(["win32", "darwin", "linux"])
    sys.argv = rng.choice([[""], ["-c"], ["x", "--strict"]])
    threading.current_thread().name = rng.choice(["MainThread", "worker-1", "asyncio_0"])
    sys.int_info and sys.set_int_max_str_digits(rng.choice([0, 640]))


def lib_caller():
    f = sys._getframe(2)
    return f.f_globals.get("__name__", "").startswith("asyncapi3")


def fake_clock(rng):
    """A clock that jumps at every reading, and fails when the library itself reads it."""
    t = [rng.choice([0.0, -1e9, 4e9, 1e9])]

    def secs():
        if lib_caller():
            raise Refused(5, "the clock is broken")
        t[0] += rng.choice([0, 1e-6, 1.0, -1.0, 86400.0, -86400.0 * 365])
        return t[0]
    names = {}
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        names[n] = secs
        names[n + "_ns"] = lambda: int(secs() * 1e9)
    for n, f in names.items():
        setattr(time, n, f)


def jumping(rng):
    """Let the clock of the process jump, where it is a simulated one."""
    if "LD_PRELOAD" in os.environ:
        ctypes.c_long.in_dll(ctypes.CDLL(None), "sim_offset").value = rng.choice([0, 4 * 10 ** 9, 10 ** 8])
        ctypes.c_long.in_dll(ctypes.CDLL(None), "sim_jump").value = rng.randrange(1, 1 << 30)


# ------------------------------------------------------------------ before a run
def gen_env(rng):
    """Surroundings of one execution."""
    e = {"z": rng.randrange(len(CONFIGS)), "seed": rng.randrange(1 << 30)}
    for k, p in (("deny", 0.5), ("clock", 0.3), ("random", 0.3), ("gc", 0.35), ("litter", 0.3), ("logging", 0.5),
                 ("environ", 0.25), ("thread", 0.15), ("loop", 0.1), ("past", 0.35), ("reclimit", 0.15), ("streams", 0.2), ("files", 0.35), ("tracer", 0.15), ("asked", 0.3), ("warn", 0.2),
                 ("facts", 0.2), ("order", 0.0)):
        if rng.random() < p:
            e[k] = 1
    if "gc" in e:
        e["gc"] = rng.choice(["1", "off", "collect", "default", "debug"])
    if "files" in e:
        e["files"] = rng.choice(["deny", "all", "all", "none"])
    if "asked" in e:
        e["asked"] = rng.choice(["1", "0", "", "true", "/nonexistent", "strict", "off"])
    if "streams" in e:
        e["streams"] = rng.choice(["none", "full"])
    if "warn" in e:
        e["warn"] = rng.choice(["always", "ignore"])
    if "logging" in e:
        e["logging"] = rng.choice(["user", "debug", "critical", "disable", "nohandlers", "file-like", "slow", "raise-off", "propagate"])
    return e


class Full:
    """A stream on a full disk."""
    encoding = "ascii"

    def write(self, text):
        raise OSError(28, "No space left on device")

    flush = isatty = lambda self: False


class User(logging.Handler):
    """A log handler that uses the library itself."""

    def createLock(self):
        self.lock = None

    def emit(self, record):
        record.getMessage()
        reenter()


class Slow(logging.Handler):
    def createLock(self):
        self.lock = None

    def emit(self, record):
        from .engine import yield_point
        record.getMessage()
        yield_point()


def arrange(e):
    """Put the surroundings of a run in place (in a forked child: nothing is put back)."""
    rng = random.Random(e["seed"])
    if "random" in e:
        random.seed(e["seed"])
    if "environ" in e:
        os.environ.clear()
        os.environ.update({"TZ": "Pacific/Chatham", "X": "1"})
        time.tzset()
    if "litter" in e:
        for _ in range(200):
            WORLD.keep.append([bytearray(rng.randrange(1, 5000)), {str(rng.random()): object()}])
            if rng.random() < 0.4:
                WORLD.keep.pop(rng.randrange(len(WORLD.keep)))
    if "reclimit" in e:
        sys.setrecursionlimit(5000)
        sys.setswitchinterval(1e-5)
    how = e.get("streams")
    if how == "full":
        sys.stdout, sys.stderr = Full(), Full()
    elif how:
        sys.stdout = sys.stderr = None
    if "warn" in e:
        warnings.simplefilter(e["warn"])
    if "asked" in e:
        ASKED.value = e["asked"]
    root = logging.getLogger()
    how = e.get("logging")
    if how == "debug":
        root.setLevel(1)
        logging.getLogger("asyncapi3").setLevel(1)
    elif how == "critical":
        root.setLevel(logging.CRITICAL)
    elif how == "disable":
        logging.disable(logging.CRITICAL)
    elif how == "nohandlers":
        root.handlers.clear()
        sys.stderr = open(os.devnull, "w")
    elif how == "file-like":
        import io
        h = logging.StreamHandler(io.StringIO())
        h.lock = None
        h.setFormatter(logging.Formatter("%(asctime)s %(pathname)s:%(lineno)d %(message)s"))
        root.addHandler(h)
    elif how == "slow":
        root.addHandler(Slow())
    elif how == "user":
        root.setLevel(1)
        root.addHandler(User())
    elif how == "raise-off":
        logging.raiseExceptions = False
        root.setLevel(0)
    elif how == "propagate":
        logging.getLogger("asyncapi3").propagate = False
    if "clock" in e:
        fake_clock(rng)
        jumping(rng)
    g = e.get("gc")
    if g and g != "off":
        gc.freeze()  # collect the objects of this run, not the whole process
    if g == "1":
        gc.enable()
        gc.set_threshold(1, 1, 1)
    elif g == "off":
        gc.disable()
    elif g == "collect":
        gc.enable()
        gc.set_threshold(50, 2, 2)
    elif g == "default":
        gc.enable()
    elif g == "debug":
        gc.enable()
        gc.callbacks.append(lambda *a: None)
        gc.set_threshold(7, 1, 1)
    if "tracer" in e:
        sys.settrace(lambda *a: None)
        threading.settrace(lambda *a: None)
    if "facts" in e:
        facts(rng)
    if "deny" in e:
        WORLD.on = True
    if "files" in e:
        files(e["files"])


# ------------------------------------------------------------------ in the middle of an operation
def act_gc():
    gc.collect()


def act_environ():
    os.environ["TZ"] = "Asia/Tokyo"
    os.environ.pop("PATH", None)
    time.tzset()


def act_chdir():
    os.chdir("/tmp" if len(WORLD.keep) % 2 else "/usr")
    WORLD.keep.append(0)


def act_clock():
    fake_clock(random.Random(1))
    jumping(random.Random(2))


def act_random():
    random.seed(0)


def act_locale():
    locale.setlocale(locale.LC_ALL, random.Random(len(WORLD.keep)).choice(["C", "C.UTF-8", "POSIX"]))
    WORLD.keep.append(0)


def act_deny():
    WORLD.on = True


def act_log():
    logging.getLogger().setLevel(random.Random(len(WORLD.keep)).choice([1, 30, 50]))
    WORLD.keep.append(0)


def act_litter():
    WORLD.keep.append([object() for _ in range(50)] + [bytearray(64) for _ in range(50)])


def act_threads():
    t = threading.Thread(target=lambda: None)
    t.start()
    t.join()


BUSY = []


def reenter():
    """Use the library on another document in the middle of an operation, as a signal handler, a finaliser or a log
    handler might."""
    if BUSY:
        return
    from . import real
    from .engine import Budget
    BUSY.append(1)
    c = MON.cur
    t = c.task if c is not None else None
    try:
        if c is not None:
            c.task = None
        V = real.asyncapi3.validators
        good = {"asyncapi": "3.0.0", "info": {"title": "other", "version": "1", "tags": [{"$ref": "#/components/tags/b"}]},
                "channels": {"b": {"messages": {"b": {"$ref": "#/components/messages/b"}}}},
                "components": {"tags": {"b": {"name": "b"}}, "messages": {"b": {"payload": {"$ref": "#/components/schemas/b"}}},
                               "schemas": {"b": {"type": "object"}}},
                "extra_validators": [V.UnifiedReferencesValidator, V.TagsRefValidator]}
        n = len(WORLD.keep) % 3
        WORLD.keep.append(0)
        if n == 0:
            good["channels"]["b"]["messages"]["b"]["$ref"] = "#/components/messages/none"
        try:
            d = real.CLS["AsyncAPI3"].model_validate(good)
            d.channels["c"] = {"address": "x", "x-a": 1}
            d.model_dump_json()
            if n == 1:
                d.id = "not a url"
        except (ValueError, Budget):
            pass
    finally:
        BUSY.clear()
        if c is not None:
            c.task = t


def act_reenter():
    reenter()


def act_purge():
    import re
    import linecache
    re.purge()
    linecache.clearcache()


def act_signal():
    import signal
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGUSR1, lambda *a: reenter())
        signal.raise_signal(signal.SIGUSR1)


def act_tracer():
    sys.settrace(lambda *a: None)


ACTS = {"reenter": act_reenter, "purge": act_purge, "signal": act_signal, "tracer": act_tracer, "gc": act_gc, "environ": act_environ, "chdir": act_chdir, "clock": act_clock, "random": act_random,
        "locale": act_locale, "deny": act_deny, "log": act_log, "litter": act_litter, "threads": act_threads}
__all__ = ["CONFIGS", "spawn", "gen_env", "arrange", "ACTS", "WORLD", "asyncio", "builtins", "json"]
