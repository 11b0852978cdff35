"""A set of documents and one vocabulary of library operations on them, with comparable
answers: shared by the checks that ask whether the same operation has the same outcome."""
import json
import logging
import random
import re

from . import real
from .docs import HOMES, LOCATIONS, PARTS, canon, canon_live, home_ref
from .engine import Cut, MON, yield_point
from .model import BAD_EXT, Gen, NONE, OBJS, SHAPE, clone, dump, fields, get, node_ok, walk
from .procs import RAISES, make_exc
from .world import FOCUS, break_inside, focus_node, gen_edit, perform, predict, prepare

VALS = ["Unified", "Tags", "ExternalDocs", "Servers"]
PROCS = ["A", "B", "C"]
ADDR = re.compile(r"0x[0-9a-f]+")


class Noisy(logging.Handler):
    """A log sink that the simulator can make slow or failing."""

    def __init__(self):
        super().__init__()
        self.n = {}
        self.fail = {}
        self.raising = (OSError(28, "No space left on device"), BrokenPipeError(32, "Broken pipe"), ValueError("closed file"))

    def createLock(self):
        self.lock = None  # a thread preempted while logging must not hold a real lock

    def emit(self, record):
        who = MON.cur.idx if MON.cur is not None else 0
        yield_point()
        self.n[who] = self.n.get(who, 0) + 1
        f = self.fail.get(who)
        if f and self.n[who] >= f[0]:
            self.fail[who] = None
            raise self.raising[f[1]]


SINK = Noisy()
SCRIPT = {}




def make_proc(name):
    def __init__(me):
        b = now(name)
        yield_point()
        if b and b[0] == "ctor":
            raise make_exc(b[1])

    def __call__(me, spec):
        b = now(name)
        yield_point()
        if b:
            if b[0] == "raise":
                raise make_exc(b[1])
            if b[0] == "nest":
                # a processor that itself uses the library, on another document or on this one
                other = SCRIPT[who()]["bench"].build(b[1], "inst", ["Unified"], b[2])
                del other
            if b[0] == "resolve":
                from asyncapi3.validators.utils import resolve_reference
                resolve_reference(ref=b[1], spec=spec)
            if b[0] == "validate":
                getattr(real.asyncapi3.validators, "UnifiedReferencesValidator")()(spec)
        return spec
    return type("Proc" + name, (), {"__init__": __init__, "__call__": __call__})


def who():
    return MON.cur.idx if MON.cur is not None else 0


def now(name):
    return SCRIPT.get(who(), {}).get("s", {}).get(name)


PCLS = {n: make_proc(n) for n in PROCS}


def validators(names):
    out = []
    for n in names:
        if n in PCLS:
            out.append(PCLS[n])
        else:
            out.append(getattr(real.asyncapi3.validators,
                               n + ("ReferencesValidator" if n == "Unified" else "RefValidator")))
    return out


def gen_names(rng):
    x = rng.random()
    if x < 0.35:
        return ["Unified"]
    if x < 0.45:
        return []
    return rng.sample(VALS + PROCS * 2, rng.choice([1, 2, 2, 3]))


def gen_script(rng, ndocs, fail=0.5):
    s = {}
    for n in PROCS:
        x = rng.random()
        if x < fail * 0.5:
            s[n] = [rng.choice(["raise", "raise", "ctor"]), rng.choice(sorted(RAISES))]
        elif x < fail * 0.5 + 0.2:
            s[n] = ["nest", rng.randrange(ndocs), rng.random() < 0.5]
        elif x < fail * 0.5 + 0.3:
            s[n] = ["resolve", rng.choice(["#/channels/none", "#/info", "#/components/schemas/a", "x"])]
        elif x < fail * 0.5 + 0.4:
            s[n] = ["validate"]
    return s


def gen_docs(rng, k):
    """Nodes sharing keys and reference strings; the first is always a whole document."""
    from .checks.c04 import C04
    from .checks.c10 import C10, FOCUS as PLACES
    docs = []
    for j in range(k):
        x = rng.random()
        if x < 0.55 or j == 0:
            n, _ = C04().document(rng, rng.randrange(len(LOCATIONS)), rng.choice([1, 2, 3]), rng.choice([1.0, 1.0, 0.5]))
        elif x < 0.75:
            n, _ = C10().document(rng, rng.choice(PLACES), rng.choice([1, 2]), rng.choice([1.0, 0.5]))
        else:
            g = Gen(rng, budget=8, density=0.3)
            if rng.random() < 0.5:
                g.wide, g.density = True, 0.5
                g.refs = [f"#/servers/{k}" for k in "abcdef"] + ["https://example.com/r.json"]
            n = focus_node(g, *rng.choice(FOCUS))
        if not node_ok(n):
            n, _ = C04().document(rng, 0, 0, 1.0)
        docs.append(n)
    return docs


def gen_canon(rng):
    """Validate the document with everything in it, as it is and with one reference led astray."""
    v = rng.choice(["Unified", "Unified", "Tags", "ExternalDocs"])
    op = {"t": "canon", "d": 0, "twin": True, "vals": [v], "part": rng.randrange(PARTS) if v == "Unified" else None}
    return [op, dict(op, wrong=rng.randrange(1000), to=rng.randrange(50))]


def rich(rng, cls):
    """An object with many fields set, long lists and repetitions in them."""
    for _ in range(5):
        g = Gen(rng, budget=14, density=0.7)
        g.wide = True
        g.refs = [f"#/servers/{k}" for k in "abcdef"] + ["https://example.com/r.json"]
        n = g.obj(cls, 2)
        if node_ok(n):
            break
    return n


def gen_op(rng, docs, j=None, bad=0.4, reads=True, cheap=False):
    """One operation on document j."""
    from .checks.c07 import DOC_READERS, LIGHT
    if j is None:
        j = rng.randrange(len(docs))
    n = docs[j]
    isdoc = n.get("m") == "AsyncAPI3"
    x = rng.random()
    op = {"d": j}
    if x < 0.3:
        op.update(t=rng.choice(["build", "data", "text"]), how=rng.choice(["inst", "full", "alias", "name"]))
        if isdoc:
            op["vals"] = gen_names(rng)
            op["conv"] = gen_names(rng) if rng.random() < 0.2 else []
            op["make"] = rng.choice(["list", "list", "builder", "bare", "spread"])
            op["s"] = gen_script(rng, len(docs), bad)
        return op
    if x < 0.4:
        g = Gen(rng, budget=4, density=0.2)
        b = break_inside(g, clone(n), {"model": n.get("m") or n["M"]})
        if b is not None:
            op.update(t="broken", v=b, json=rng.random() < 0.3)
            return op
    if x < 0.65 or not reads:
        g = Gen(rng, budget=4, density=0.2)
        spots = [q for q, s, _ in walk(n)]
        p = rng.choice(spots) if rng.random() < 0.5 else []
        op.update(t="edit", e=gen_edit(g, n, p, None, bad=bad))
        if isdoc:
            op["s"] = gen_script(rng, len(docs), bad)
        return op
    if isdoc and x < 0.75:
        op.update(t="vals", f=rng.choice(["extra_validators", "extra_validators", "extra_converters"]), vals=gen_names(rng),
                  s=gen_script(rng, len(docs), bad))
        return op
    pool = LIGHT + list(DOC_READERS) * 3 if isdoc else LIGHT
    op.update(t="read", name=rng.choice(pool), s=rng.randrange(1 << 30))
    return op


class Bench:
    def __init__(self, run, docs):
        self.run = run
        self.docs = docs
        self.live = []
        for n in docs:
            k, o = real.call(real.to_real, n)
            self.live.append(o if k == "ok" else None)

    def start(self, lists):
        """Switch validators on, where the document passes them."""
        for o, names in zip(self.live, lists):
            if o is not None and names and type(o) is real.CLS["AsyncAPI3"]:
                real.call(setattr, o, "extra_validators", validators(names))

    def build(self, j, how, names, builder=False, conv=()):
        n = self.docs[j]
        if n.get("m") != "AsyncAPI3":
            return real.build(n, how)
        kw = {k: real.arg(x, how) for k, x in n["f"].items() if x != {"j": SHAPE["AsyncAPI3"]["fields"][k].get("default")}}
        kw.update(json.loads(json.dumps(n["x"])))
        if names:
            kw["extra_validators"] = validators(names)
        if conv:
            kw["extra_converters"] = validators(conv)
        A = real.CLS["AsyncAPI3"]
        if builder == "bare":
            # as little as the builder can do with
            kw.pop("info")
        elif builder == "spread":
            kw = real.spread(n, how, kw)
        return A.as_builder(**kw) if builder else A(**kw)

    def fire(self, op, target=None):
        """The operation, ready to run, and what to answer from its result; None when it does not apply."""
        t, j = op["t"], op["d"]
        if t == "canon":
            return self.canon(op)
        if t == "churn":
            return self.churn(op)
        n = self.docs[j]
        o = self.live[j] if target is None else target
        seen = lambda v: real.sig(real.observe(v))
        if t == "build":
            return (lambda: self.build(j, op["how"], op.get("vals"), {"builder": True, "list": False}.get(op.get("make"), op.get("make")),
                                       op.get("conv") or ())), seen
        if t in ("data", "text"):
            c = real.CLS[n.get("m") or n["M"]]
            data = json.loads(json.dumps(dump(n, by="name" if op["how"] == "name" and t == "data" else "alias")))
            if t == "text":
                text = json.dumps(data)
                return (lambda: c.model_validate_json(text)), seen
            if op.get("vals") and isinstance(data, dict) and n.get("m") == "AsyncAPI3":
                data["extra_validators"] = validators(op["vals"])
            return (lambda: c.model_validate(data)), seen
        if t == "broken":
            c = real.CLS[n.get("m") or n["M"]]
            data = dump(op["v"])
            if op["json"]:
                text = json.dumps(data)
                return (lambda: c.model_validate_json(text)), seen
            data = json.loads(json.dumps(data))
            return (lambda: c.model_validate(data)), seen
        if o is None:
            return None
        if t == "vals":
            names = validators(op["vals"])
            return (lambda: setattr(o, op["f"], names)), lambda v: seen(o)
        if t == "edit":
            e = op["e"]
            cur = real.norm_free(real.observe(o))
            k, _ = predict(cur, e)
            if k == "skip":
                return None
            ck, a = real.call(prepare, real, e, k == "ok")
            if ck != "ok":
                return None
            k, at = real.call(real.at, o, e["p"])
            if k != "ok":
                return None
            return (lambda: perform(at, e, a)), lambda v: seen(o)
        from .checks.c07 import DOC_READERS, READERS
        fn = READERS.get(op["name"]) or DOC_READERS[op["name"]]
        return (lambda: fn(o, op["s"])), lambda v: v

    def churn(self, op):
        """Build documents of the same make in turn and give each up at once."""
        A = real.CLS["AsyncAPI3"]
        vals = validators(op["vals"])

        def fire():
            out = []
            for j in range(op["n"]):
                n = op["nodes"][j % len(op["nodes"])]
                k, kw = real.call(lambda: {f: real.arg(x, "inst") for f, x in n["f"].items() if x != NONE})
                if k == "ok":
                    k, kw = real.call(lambda: A(**kw, extra_validators=vals) and None)
                out.append([k, type(kw).__name__])
                del kw
            return out
        return fire, lambda v: v

    def canon(self, op):
        """Hold a document with everything in it, perhaps with one reference led astray, to its references."""
        _, spots = canon(op["part"])
        o = canon_live(op["part"])
        kw = {k: v for k, v in o.__dict__.items() if k in fields("AsyncAPI3") and v is not None}
        vals = validators(op["vals"])

        def fire():
            if op.get("wrong") is None:
                return real.CLS["AsyncAPI3"](**kw, extra_validators=vals)
            path, kinds = spots[op["wrong"] % len(spots)]
            others = [k for k in sorted(HOMES) if k not in kinds]
            ref = real.at(o, path).__dict__
            was = ref["ref"]
            ref["ref"] = op["to"] if isinstance(op["to"], str) else home_ref(others[op["to"] % len(others)])
            try:
                return real.CLS["AsyncAPI3"](**kw, extra_validators=vals)
            finally:
                ref["ref"] = was
        return fire, lambda v: "accepted"

    def answer(self, op, kind, val, seen):
        if kind == "ok":
            a = ["ok", seen(val)]
        else:
            a = [kind, type(val).__name__, ADDR.sub("0x", str(val))[:500] if kind != "base" else ""]
        return json.loads(json.dumps(a, default=str))

    def do(self, op, fault=None, room=None, target=None):
        """Run one operation: (answer or None, cut, task)."""
        f = self.fire(op, target)
        if f is None:
            return None, False
        fn, seen = f
        SCRIPT[who()] = {"s": op.get("s") if isinstance(op.get("s"), dict) else {}, "bench": self}
        try:
            if room is not None:
                kind, val = self.run.squeeze(fn, room)
                cut = kind != "ok"
            else:
                kind, val, task = self.run.op(fn, fault)
                self.task = task
                cut = task.fired is not None
        finally:
            SCRIPT[who()] = {}
        if cut:
            return [kind, type(val).__name__], True
        return self.answer(op, kind, val, seen), False

    def twin(self, op):
        """The same operation on a newly built document with the planned content."""
        k, o = real.call(real.to_real, self.docs[op["d"]])
        if k != "ok":
            return None
        return self.do(op, target=o)[0]

    def state(self, j):
        o = self.live[j]
        return None if o is None else real.sig(real.observe(o)) + repr([getattr(o, f, None) for f in ("extra_converters", "extra_validators")])


# ------------------------------------------------------------------ guidance, never a verdict
def held():
    """A digest of what the library's modules, classes and functions hold on to.  It only tells where looking
    closer is worth the time: holding on to something is nobody's fault."""
    import contextvars
    import sys
    import threading
    import types
    out = []
    seen = set()

    def look(x, depth):
        if x is None or isinstance(x, (str, int, float, bool, bytes)):
            return repr(x)[:80]
        if id(x) in seen or depth > 4:
            return "..."
        if isinstance(x, (dict, list, tuple, set, frozenset)):
            seen.add(id(x))
            if isinstance(x, dict):
                return [[look(k, depth + 1), look(v, depth + 1)] for k, v in list(x.items())[:400]]
            if isinstance(x, (set, frozenset)):
                return sorted(str(look(v, depth + 1)) for v in x)
            return [look(v, depth + 1) for v in x[:400]]
        if hasattr(x, "cache_info"):
            return repr(x.cache_info())
        if isinstance(x, contextvars.ContextVar):
            return look(x.get(None), depth + 1)
        if isinstance(x, types.FunctionType):
            seen.add(id(x))
            return [look(x.__defaults__, depth + 1), look(x.__kwdefaults__, depth + 1),
                    [look(c.cell_contents, depth + 1) for c in x.__closure__ or () if c != types.CellType()],
                    [[k, look(v, depth + 1)] for k, v in vars(x).items()]]
        if isinstance(x, (staticmethod, classmethod)):
            return look(x.__func__, depth)
        if isinstance(x, type):
            return x.__name__
        if isinstance(x, threading.local) or type(x).__module__.startswith("asyncapi3"):
            seen.add(id(x))
            return [[k, look(v, depth + 1)] for k, v in getattr(x, "__dict__", {}).items()]
        return ""
    for name in sorted(n for n in sys.modules if n.split(".")[0] == "asyncapi3"):
        for k, v in list(vars(sys.modules[name]).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, type):
                if v.__module__ != name:
                    continue
                for a, b in list(vars(v).items()):
                    if a.startswith(("__pydantic", "__abstract", "_abc", "model_", "__annot", "__signature", "__class_vars")):
                        continue
                    out.append([name, k, a, look(b, 0)])
            else:
                out.append([name, k, look(v, 0)])
    out = [x for x in out if x[-1] != ""]
    return json.dumps(out, default=str)
