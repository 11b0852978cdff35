"""Simulated processors: recording, failing, mutating and preemptible."""
from . import real
from .engine import Cut, MON, Violation, yield_point

NAMES = ["P0", "P1", "P2", "P3", "P4"]
RAISES = {"ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError, "RuntimeError": RuntimeError,
          "AttributeError": AttributeError, "OSError": OSError, "StopIteration": StopIteration,
          "LookupError": LookupError, "Cut": Cut, "KeyboardInterrupt": KeyboardInterrupt,
          "UnicodeError": UnicodeDecodeError, "MemoryError": MemoryError, "ArithmeticError": ArithmeticError,
          "RecursionError": RecursionError, "NotImplementedError": NotImplementedError}
IS_VALUE_ERROR = {"ValueError", "UnicodeError"}


def make_exc(kind):
    if kind == "UnicodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "scripted failure")
    return RAISES[kind]("scripted failure")


def gen_lists(rng, fail=0.0):
    def one():
        x = rng.random()
        if x < 0.15:
            return None
        if x < 0.25:
            return []
        k = rng.choice([1, 1, 2, 3])
        return [rng.choice(NAMES) for _ in range(k)] if rng.random() < 0.2 else rng.sample(NAMES, k)
    out = {"conv": one(), "val": one()}
    if fail and rng.random() < fail:
        out["val"] = (out["val"] or []) + ["U"]
    return out


def gen_script(rng):
    """Behaviour of the processors during one operation."""
    s = {}
    for n in NAMES:
        x = rng.random()
        if x < 0.25:
            s[n] = ["raise", rng.choice(sorted(RAISES))]
        elif x < 0.32:
            s[n] = ["ctor", rng.choice(sorted(RAISES))]
        elif x < 0.45:
            s[n] = ["ret", rng.choice(["none", "self", "junk"])]
    return s


class Pipeline:
    """The processors of one client, and what they saw."""

    def __init__(self, run, lists):
        self.run = run
        self.lists = lists
        self.now = {}
        self.calls = []
        self.keep = []
        self.cls = {n: self.make(n) for n in NAMES}
        self.cls["U"] = real.asyncapi3.validators.UnifiedReferencesValidator

    def make(self, name):
        pl = self

        def __init__(me):
            pl.keep.append(me)
            b = pl.now.get(name)
            if b and b[0] == "ctor":
                pl.calls.append(("ctor", name, me, None, None))
                raise make_exc(b[1])

        def __call__(me, spec):
            yield_point()
            pl.calls.append(("call", name, me, spec, real.sig(real.observe(spec))))
            b = pl.now.get(name)
            yield_point()
            if b:
                if b[0] == "raise":
                    raise make_exc(b[1])
                if b[0] == "mutate":
                    spec.info.description = b[1]
                if b[0] == "ret":
                    return {"none": None, "self": me, "junk": 5}[b[1]]
            return spec
        return type(name, (), {"__init__": __init__, "__call__": __call__})

    def live(self, names):
        return None if names is None else [self.cls[n] for n in names]

    def kwargs(self):
        out = {}
        if self.lists["conv"] is not None:
            out["extra_converters"] = self.live(self.lists["conv"])
        if self.lists["val"] is not None:
            out["extra_validators"] = self.live(self.lists["val"])
        return out

    def script(self, s):
        self.now = s or {}
        self.calls = []

    def check_quiet(self):
        self.now = {}


__all__ = ["Pipeline", "gen_lists", "gen_script", "MON", "Violation"]
