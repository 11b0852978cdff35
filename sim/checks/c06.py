"""C06: processors run in order, once, afresh, and gate every root edit."""
import copy
import dataclasses
import json
import random

import pydantic
from pydantic import TypeAdapter

from .. import real
from ..docs import verdict
from ..engine import yield_point
from ..model import Gen, NONE, clone, dump, fields, gen_fault, get, node_ok, walk
from ..procs import IS_VALUE_ERROR, NAMES, RAISES, make_exc
from ..world import gen_edit, perform, predict, prepare
from .base import Check, EndRun, Violation, dumps
from .c02 import first
from .c04 import gen_sched

BAD_LISTS = [[5], ["P0"], 7, "P0", [None], {"a": 1}]


def gen_names(rng, allow_none=True):
    x = rng.random()
    if allow_none and x < 0.15:
        return None
    if x < 0.25:
        return []
    k = rng.choice([1, 1, 2, 3, 4])
    if rng.random() < 0.04:
        return [rng.choice(NAMES) for _ in range(rng.choice([9, 12, 17, 33, 70]))]
    out = [rng.choice(NAMES) for _ in range(k)] if rng.random() < 0.3 else rng.sample(NAMES, k)
    if rng.random() < 0.25:
        out.insert(rng.randint(0, len(out)), "U")
    return out


def gen_script(rng, calm=False):
    s = {}
    for n in NAMES:
        x = rng.random()
        if x < (0.0 if calm else 0.18):
            s[n] = ["raise", rng.choice(sorted(RAISES))]
        elif x < (0.0 if calm else 0.23):
            s[n] = ["ctor", rng.choice(sorted(RAISES))]
        elif x < 0.33:
            s[n] = ["ret", rng.choice(["none", "self", "junk", "other"])]
        elif x < 0.48:
            s[n] = ["mutate", rng.choice(["changed", "again", "x" * 9])]
        elif x < 0.56:
            s[n] = ["addref", rng.choice(["a", "q"]), rng.choice(["#/channels/none", "https://example.com/c", "#/info"])]
        elif x < 0.64:
            s[n] = ["nest"]
    return s


STYLES = ["init", "init", "bare", "slots", "new", "base", "protocol", "namesakes", "alike", "falsy", "dataclass", "wary"]


SILENT = ("bare", "slots")  # nothing of ours runs when an instance is made


class Namesake(type):
    """Processor classes that compare equal to each other."""

    def __eq__(cls, other):
        return isinstance(other, Namesake)

    def __hash__(cls):
        return 7


class Falsy(type):
    """Processor classes that are false in a condition."""

    def __bool__(cls):
        return False


class Pipe:
    """The processor classes of one client and a record of what happened to them."""

    def __init__(self, style="init", sub=False):
        self.style = style
        self.past = []
        self.A = real.CLS["AsyncAPI3"]
        if sub:
            self.A = type("AsyncAPI3", (self.A,), {"__module__": __name__, "__doc__": "A user's own document class."})
            real.NAME[self.A] = "AsyncAPI3"
        self.now = {}
        self.calls = []
        self.made = []
        self.raised = None
        self.inside = 0
        self.cls = {n: self.make(n) for n in NAMES + ["N"]}
        self.cls["U"] = real.asyncapi3.validators.UnifiedReferencesValidator

    def make(self, name):
        pl = self

        def fail(kind):
            pl.raised = make_exc(kind)
            raise pl.raised

        def __init__(me):
            pl.made.append((name, me))
            b = pl.now.get(name)
            yield_point()
            if b and b[0] == "ctor":
                pl.calls.append((name, me, None, None))
                fail(b[1])

        def __call__(me, spec):
            yield_point()
            pl.calls.append((name, me, spec, real.norm_free(real.observe(spec))))
            pl.past.append(me)
            b = pl.now.get(name)
            yield_point()
            if not b:
                return spec
            if b[0] == "raise":
                fail(b[1])
            if b[0] == "mutate":
                spec.info.description = b[1]
            if b[0] == "addref" and spec.channels is not None:
                spec.channels[b[1]] = real.CLS["Reference"](ref=b[2])
            if b[0] == "nest":
                pl.nest()
            if b[0] == "ret":
                return {"none": None, "self": me, "junk": 5, "other": real.CLS["AsyncAPI3"](
                    asyncapi="3.0.0", info={"title": "other", "version": "1"})}[b[1]]
            return spec
        style = self.style

        def __new__(cls, *a):
            me = object.__new__(cls)
            __init__(me)
            return me
        if style == "bare":
            return type(name, (), {"__call__": __call__})
        if style == "slots":
            return type(name, (), {"__call__": __call__, "__slots__": ()})
        if style == "new":
            return type(name, (), {"__call__": __call__, "__new__": __new__})
        if style == "base":
            return type(name, (type("Base", (), {"__init__": __init__, "__call__": __call__}),), {})
        if style == "protocol":
            return type(name, (asyncapi3_protocol(),), {"__init__": __init__, "__call__": __call__})
        if style == "namesakes":
            return type("Proc", (), {"__init__": __init__, "__call__": __call__, "__qualname__": "Proc"})
        if style == "alike":
            return Namesake(name, (), {"__init__": __init__, "__call__": __call__})
        if style == "falsy":
            return Falsy(name, (), {"__init__": __init__, "__call__": __call__, "__bool__": lambda me: False})
        if style == "dataclass":
            return dataclasses.dataclass(type(name, (), {"__call__": __call__, "__post_init__": __init__}))
        if style == "wary":
            return type(name, (), {"__init__": __init__, "__call__": __call__, "__eq__": lambda me, other: True,
                                   "__hash__": lambda me: 1, "__len__": lambda me: 0})
        return type(name, (), {"__init__": __init__, "__call__": __call__})

    def nest(self):
        """A processor that builds a document of its own."""
        mine = self.calls
        self.calls = []
        try:
            d = self.A(asyncapi="3.0.0", info={"title": "inner", "version": "1"},
                                      extra_converters=[self.cls["N"]], extra_validators=[self.cls["N"]])
            got = [(c[0], c[2] is d) for c in self.calls]
            self.calls = []
            d.id = "urn:example:svc"
            got += [(c[0], c[2] is d) for c in self.calls]
        finally:
            self.calls = mine
        if got != [("N", True)] * 4:
            mine.append(("nested document processed wrongly: " + repr(got), None, None, None))

    def live(self, names):
        return None if names is None else [self.cls[n] for n in names]

    def names(self, live):
        back = {id(c): n for n, c in self.cls.items()}
        return None if live is None else [back.get(id(c), "?") for c in live]


def asyncapi3_protocol():
    return real.asyncapi3.protocols.ProcessorProtocol


def effect(content, name, script):
    """What a processor does to the document and whether it fails: (content, failure kind or None)."""
    if name == "U":
        ok, _ = verdict(content)
        return content, {True: None, False: "ValueError", None: "?"}[ok]
    b = script.get(name)
    if not b:
        return content, None
    if b[0] in ("raise", "ctor"):
        return content, b[1]
    content = clone(content)
    if b[0] == "mutate":
        content["f"]["info"]["f"]["description"] = {"j": b[1]}
    if b[0] == "addref" and content["f"]["channels"] != NONE:
        ref = {"m": "Reference", "f": {"ref": {"j": b[2]}}, "x": {}}
        d = content["f"]["channels"]["d"]
        for e in d:
            if e[0] == b[1]:
                e[1] = ref
                break
        else:
            d.append([b[1], ref])
    return content, None


def expected(content, conv, val, script):
    """(calls as (name, content seen), final content, failure) of one pass of the pipeline."""
    calls = []
    for n in (conv or []) + (val or []):
        b = script.get(n)
        calls.append((n, None if b and b[0] == "ctor" else clone(content)))
        content, bad = effect(content, n, script)
        if bad:
            return calls, content, bad
    return calls, content, None


class C06(Check):
    ID = "C06"
    RUNS = {"quick": 10000, "thorough": 100000}

    def one(self, rng, focus, threads=False):
        g = Gen(rng, budget=8, density=rng.choice([0.05, 0.2, 0.5]), refs=["https://example.com/r.json"])
        n = g.obj("AsyncAPI3", 2)
        if n["f"]["channels"] == NONE and rng.random() < 0.5:
            n["f"]["channels"] = {"M": "Channels", "d": []}
        ops = []
        cur = clone(n)
        for j in range(rng.choice([1, 2, 3, 5])):
            g.budget = 4
            t = focus if j == 0 else rng.choice(OPS)
            op = {"t": t, "script": gen_script(rng, rng.random() < 0.3)}
            if t in ("root", "child"):
                spots = [p for p, s, _ in walk(cur) if bool(p) == (t == "child")]
                if not spots:
                    continue
                e = gen_edit(g, cur, rng.choice(spots), None, bad=0.3)
                if t == "root" and e["t"] == "delx":
                    continue
                op["edit"] = e
                k, new = predict(cur, e)
                if k == "ok" and node_ok(new):
                    cur = new
            if t in ("conv=", "val="):
                op["names"] = gen_names(rng) if rng.random() < 0.85 else ["!", rng.randrange(len(BAD_LISTS))]
            if t in ("list.append", "list.remove"):
                op.update(which=rng.choice(["conv", "val"]), name=rng.choice(NAMES + ["U"]), at=rng.randrange(4))
            if t in ("again", "rebuild", "data"):
                op["names"] = [gen_names(rng), gen_names(rng)]
            if t == "revalidate":
                op["how"] = rng.choice(["plain", "adapter", "list", "field", "context", "attributes", "union"])
            if t == "same":
                op["f"] = rng.choice([*fields("AsyncAPI3"), "extra_converters", "extra_validators"])
            if t == "damaged":
                op["which"] = rng.choice(["title", "ext", "version", "key"])
            if not threads and rng.random() < 0.1:
                op["fault"] = gen_fault(rng, [1, 2, 3, 4, 5, 6, 8, 10, 14, 20], 30)
            ops.append(op)
        return {"style": rng.choice(STYLES), "sub": rng.random() < 0.15, "init": n, "conv": gen_names(rng), "val": gen_names(rng), "first": gen_script(rng, rng.random() < 0.5),
                "make": rng.choice(["kwargs", "data", "builder", "spread", "mixed"]), "ops": ops}

    def plan(self, rng, i, tier):
        focus = OPS[i % len(OPS)]
        p = {"check": self.ID, "focus": [focus]}
        if rng.random() < 0.15:
            p["clients"] = [self.one(rng, focus, True) for _ in range(rng.choice([2, 2, 3]))]
            p["sched"] = gen_sched(rng)
            p["fine"] = rng.random() < 0.2
        else:
            p["clients"] = [self.one(rng, focus)]
            p["fine"] = rng.random() < 0.05
        return p

    def run(self, run, phase, carry):
        cs = run.plan["clients"]
        if len(cs) == 1:
            return self.client(run, cs[0], "")
        run.clients([(lambda c=c, j=j: self.client(run, c, f"thread {j} ")) for j, c in enumerate(cs)], run.plan["sched"])

    def client(self, run, c, who):
        pl = Pipe(c.get("style", "init"), c.get("sub"))
        A = pl.A
        node = c["init"]
        kw = self.parts(pl, node, c["conv"], c["val"], c["make"])
        mk = A.as_builder if c["make"] in ("builder", "spread") else A.model_validate if c["make"] == "data" else A
        fire = (lambda: mk(kw)) if c["make"] == "data" else (lambda: mk(**kw))
        conv, val = c["conv"], c["val"]
        if c["make"] in ("builder", "spread"):
            conv = conv if "extra_converters" in kw else []
            val = val if "extra_validators" in kw else ["U"]
        doc = self.judge(run, pl, fire, node, conv, val, c["first"], f"{who}building ({c['make']})", None)
        if doc is None:
            pl.now, pl.calls = {}, []
            k, doc = real.call(fire)
            if k != "ok":
                raise EndRun("document refused without failures")
        for j, op in enumerate(c["ops"]):
            new = self.step(run, pl, doc, op, f"{who}step {j}: ")
            if new is not None:
                doc = new
            k, text = real.call(doc.model_dump_json)
            k2, data = real.call(doc.model_dump)
            if k == k2 == "ok" and ("extra_" in "".join(json.loads(text)) or any(x.startswith("extra_") for x in data)):
                raise Violation("saved-lists", f"{who}step {j}: the processor lists appear in saved output {text[:200]}")
            run.state(real.sig(real.observe(doc)) + repr(pl.names(doc.extra_converters)) + repr(pl.names(doc.extra_validators)))

    def parts(self, pl, node, conv, val, make):
        if make == "data":
            kw = json.loads(json.dumps(dump(node)))
        else:
            k, kw = real.call(lambda: {f: real.arg(x, "alias" if make == "mixed" else "inst") for f, x in node["f"].items()
                                       if make != "mixed" or x != NONE})
            if k != "ok":
                raise EndRun("parts refused")
            kw.update(node["x"])
        if conv is not None or make == "kwargs":
            kw["extra_converters"] = pl.live(conv)
        if val is not None or make == "kwargs":
            kw["extra_validators"] = pl.live(val)
        if make == "spread":
            return real.spread(node, "inst", kw)
        return kw

    def step(self, run, pl, doc, op, where):
        A = pl.A
        content = real.norm_free(real.observe(doc))
        conv, val = pl.names(doc.extra_converters), pl.names(doc.extra_validators)
        t = op["t"]
        s = op["script"]
        where += t
        fault = op.get("fault")
        if t == "root":
            e = op["edit"]
            k, new = predict(content, e)
            if k in ("skip", "missing"):
                return None
            ck, a = real.call(prepare, real, e, k == "ok")
            if ck != "ok":
                return None
            return self.judge(run, pl, lambda: perform(doc, e, a), new, conv, val, s, f"{where} doc.{e['k']} = ...", doc,
                              fault)
        if t == "child":
            e = op["edit"]
            k, new = predict(content, e)
            if k == "skip" or not e["p"]:
                return None
            ck, a = real.call(prepare, real, e, k == "ok")
            if ck != "ok" or (k == "ok" and not node_ok(new)):
                return None
            pl.now, pl.calls, pl.made = s, [], []
            got, _, _ = run.op(lambda: perform(real.at(doc, e["p"]), e, a))
            run.log(where, got, len(pl.calls))
            run.count("child edits")
            if pl.calls:
                raise Violation("uncalled-for", f"{where} at {e['p']} ran processors {[c[0] for c in pl.calls]}")
            return None
        if t in ("conv=", "val="):
            f = "extra_converters" if t == "conv=" else "extra_validators"
            if op["names"] and op["names"][0] == "!":
                bad = clone(BAD_LISTS[op["names"][1]])
                self.judge(run, pl, lambda: setattr(doc, f, bad), None, conv, val, s, f"{where} {bad!r}", doc, fault)
                return None
            live = pl.live(op["names"])
            nc, nv = (op["names"], val) if t == "conv=" else (conv, op["names"])
            return self.judge(run, pl, lambda: setattr(doc, f, live), content, nc, nv, s, f"{where} {op['names']}", doc,
                              fault, (conv, val))
        if t in ("list.append", "list.remove"):
            xs = doc.extra_converters if op["which"] == "conv" else doc.extra_validators
            if xs is None:
                return None
            if t == "list.append":
                xs.insert(op["at"], pl.cls[op["name"]])
            elif xs:
                xs.pop(op["at"] % len(xs))
            return None
        if t == "revalidate":
            how = op.get("how", "plain")
            fire = {"plain": lambda: A.model_validate(doc), "adapter": lambda: TypeAdapter(A).validate_python(doc),
                    "list": lambda: TypeAdapter(list[A]).validate_python([doc])[0],
                    "field": lambda: pydantic.create_model("Holder", doc=(A, ...))(doc=doc).doc,
                    "context": lambda: A.model_validate(doc, context={"validate": False, "skip": True, "strict": 1}),
                    "attributes": lambda: A.model_validate(doc, from_attributes=True),
                    "union": lambda: TypeAdapter(A | int).validate_python(doc)}[how]
            return self.judge(run, pl, fire, content, conv, val, s, f"{where} ({how})", None, fault)
        if t == "same":
            f = op["f"]
            return self.judge(run, pl, lambda: setattr(doc, f, getattr(doc, f)), content, conv, val, s, f"{where} doc.{f} = doc.{f}",
                              doc, fault)
        if t == "rebuild":
            k, kw = real.call(self.parts, pl, content, op["names"][0], op["names"][1], "kwargs")
            if k != "ok":
                return None
            return self.judge(run, pl, lambda: A(**kw), content, *op["names"], s, where, None, fault)
        if t == "data":
            k, kw = real.call(self.parts, pl, content, op["names"][0], op["names"][1], "data")
            if k != "ok":
                return None
            return self.judge(run, pl, lambda: A.model_validate(kw), content, *op["names"], s, where, None, fault)
        if t == "again":
            # two documents built with the very same lists do not share them
            lists = [pl.live(x) for x in op["names"]]
            kw = {f: getattr(doc, f) for f in fields("AsyncAPI3") if getattr(doc, f) is not None}
            kw.update(doc.model_extra or {})
            kw.update(extra_converters=lists[0], extra_validators=lists[1])
            one = self.judge(run, pl, lambda: A(**kw), content, *op["names"], s, where, None, fault)
            if one is not None:
                if one.extra_validators is not None:
                    one.extra_validators.append(pl.cls["P0"])
                if one.extra_converters is not None:
                    one.extra_converters.append(pl.cls["P1"])
                content = real.norm_free(real.observe(doc))
                self.judge(run, pl, lambda: A(**kw), content, *op["names"], {}, where + " (second document)", None)
            return None
        if t == "restored":
            k, text = real.call(doc.model_dump_json)
            if k == "ok":
                self.judge(run, pl, lambda: A.model_validate_json(text), content, None, None, s, where, None, fault)
            return None
        if t == "damaged":
            # fields that are not valid: no processor may run
            twin = copy.deepcopy(doc)
            w = op["which"]
            if w == "title":
                twin.info.__dict__["title"] = 5
            elif w == "version":
                twin.__dict__["asyncapi"] = "2.6.0"
            elif w == "ext":
                twin.__pydantic_extra__["bad"] = 1
            elif twin.channels is not None:
                twin.channels.root["bad key"] = real.CLS["Reference"](ref="https://example.com/c")
            else:
                return None
            self.judge(run, pl, lambda: A.model_validate(twin), None, conv, val, s, f"{where} {w}", None)
            return None
        raise AssertionError(t)

    def judge(self, run, pl, fire, content, conv, val, script, where, doc, fault=None, old=None):
        """Run one triggering operation and compare the recorded calls; returns the document on success."""
        # when instances are made relative to each other is left open: only the first may fail being made
        lead = ((conv or []) + (val or []))[:1] if pl.style not in SILENT else []
        script = {n: ["raise", b[1]] if b[0] == "ctor" and n not in lead else b for n, b in script.items()}
        calls, final, bad = expected(content, conv, val, script) if content is not None else ([], None, "invalid input")
        pl.now, pl.calls, pl.made, pl.raised = script, [], [], None
        before = len(pl.past)
        got, res, task = run.op(fire, fault)
        pl.now = {}
        here = doc if doc is not None else res if got == "ok" else None
        seen = pl.calls
        run.log(where, conv, val, got, type(res).__name__, [c[0] for c in seen])
        run.count(f"{'failing' if bad else 'passing'} pipelines")
        run.count(f"processor calls", len(seen))
        want = [n for n, _ in calls if n != "U"]
        names = [c[0] for c in seen]
        show = f"{where}: converters {conv}, validators {val}, script {script}"
        if task.fired is not None:
            if names != want[:len(names)]:
                raise Violation("calls", f"{show}, interrupted: processors ran as {names}, not as a part of {want}")
            return None
        if bad == "?":
            want = want[:]
            if names != want:
                raise EndRun("unspecified reference")
            return doc if got == "ok" and doc is not None else here
        if names != want:
            raise Violation("calls", f"{show}: processors ran as {names} instead of {want}")
        ids = [id(c[1]) for c in seen]
        born = {id(me) for _, me in pl.made}
        silent = pl.style in SILENT
        old = {id(me) for me in pl.past[:before]}
        if len(set(ids)) != len(ids) or (not silent and not set(ids) <= born) or set(ids) & old:
            raise Violation("fresh", f"{show}: instances made {[n for n, _ in pl.made]} for calls {names}, "
                            f"{len(set(ids))} distinct")
        specs = [c[2] for c in seen if c[2] is not None]
        if any(x is not specs[0] for x in specs) or (here is not None and specs and specs[0] is not here):
            raise Violation("document", f"{show}: a processor was given another object than the document being produced")
        for (n, exp), c in zip([x for x in calls if x[0] != "U"], seen):
            if exp is not None and c[3] is not None and not real.equal(c[3], exp):
                raise Violation("content", f"{show}: {n} saw {real.diff(c[3], exp)}")
        if bad:
            if got == "ok":
                raise Violation("not-failed", f"{show}: succeeded although {bad}")
            if bad == "invalid input" or bad in IS_VALUE_ERROR:
                if got != "invalid":
                    raise Violation("wrong-error", f"{show}: {bad} came out as {type(res).__name__}: {first(res)}")
            elif res is not pl.raised:
                raise Violation("wrong-error", f"{show}: {bad} came out as {type(res).__name__}: {first(res)}")
            return None
        if got != "ok":
            raise Violation("failed", f"{show}: failed with {type(res).__name__}: {first(res)}")
        if not real.equal(real.observe(here), final):
            raise Violation("content", f"{show}: the resulting document reads {real.diff(real.observe(here), final)}")
        if [pl.names(here.extra_converters), pl.names(here.extra_validators)] != [conv, val]:
            raise Violation("lists", f"{show}: the document now lists {pl.names(here.extra_converters)}, "
                            f"{pl.names(here.extra_validators)}")
        return here


OPS = ["root", "root", "root", "child", "conv=", "val=", "list.append", "list.remove", "revalidate", "revalidate", "rebuild", "data",
       "again", "same", "restored", "damaged"]
CHECK = C06()
