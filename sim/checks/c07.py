"""C07: reading, comparing, resolving and saving never change a document."""
import copy
import json
import pickle
import random

from .. import real
from ..docs import LOCATIONS, PARTS, busy, find_refs, targets, spell, verdict
from ..model import Gen, NONE, OBJS, SHAPE, clone, fields, gen_fault, get, node_ok, walk
from ..world import EXT_FOCUS, FIELD_FOCUS, MAP_FOCUS, embed, focus_node, gen_edit, perform, predict_whole, prepare
from .base import Check, EndRun, Violation, dumps
from .c01 import changed, snap
from .c02 import first
from .c04 import BROKEN, C04, gen_sched



def all_parts(o, t=None):
    """Live typed objects of a document, in order."""
    out = []
    if isinstance(o, real.RootModel):
        out.append(o)
        for v in o.__dict__["root"].values():
            out += all_parts(v)
    elif isinstance(o, real.BaseModel):
        out.append(o)
        for v in o.__dict__.values():
            out += all_parts(v)
    elif isinstance(o, list):
        for v in o:
            out += all_parts(v)
    elif isinstance(o, dict):
        for v in o.values():
            out += all_parts(v)
    return out


def deep(o):
    """Identities of all typed parts and which fields count as set."""
    return repr([(id(p), sorted(p.__pydantic_fields_set__), sorted(p.__dict__)) for p in all_parts(o)])


def ref_strings(o):
    return [p.ref for p in all_parts(o) if type(p) is real.CLS["Reference"]]


def iterate(o):
    out = []
    for p in all_parts(o):
        if isinstance(p, real.RootModel):
            out.append([list(p), len(p), [k in p for k in list(p)[:3] + ["nope", "a b"]],
                        [real.name_of(p[k]) for k in p]])
        else:
            out.append([k for k, _ in p])
    return out


def compare(o, seed):
    rng = random.Random(seed)
    twin = copy.deepcopy(o)
    out = [o == twin, twin == o, o != twin, o == 5, o == None]  # noqa: E711
    ps = all_parts(o)
    for _ in range(3):
        a, b = rng.choice(ps), rng.choice(ps)
        out += [a == b, b == a]
    return out


def hashes(o):
    return [hash(p) == hash(type(p)(ref=p.ref)) for p in all_parts(o) if type(p) is real.CLS["Reference"]]


def resolve(o, seed):
    rng = random.Random(seed)
    refs = ref_strings(o) + BROKEN + ["https://example.com/r.json", "x.json#/a", "", "#", "#/"]
    s = rng.choice(refs)
    from asyncapi3.validators.utils import resolve_reference
    r = resolve_reference(ref=s, spec=o)
    return None if r is None else [s, type(r.resolved_object).__name__, r.resolved_type.__name__, r.path]


def validator(name):
    def f(o, seed):
        v = getattr(real.asyncapi3.validators, name)()
        r = v(o)
        return r is o
    return f


def revalidate(o, seed):
    new = type(o).model_validate(o)
    return [real.sig(real.observe(new)), new is o]


def dump_some(o, seed):
    rng = random.Random(seed)
    kw = {}
    for k in ("by_alias", "exclude_none", "exclude_unset", "exclude_defaults", "round_trip"):
        if rng.random() < 0.3:
            kw[k] = rng.random() < 0.5
    if not isinstance(o, real.RootModel):
        fs = list(type(o).model_fields)
        if rng.random() < 0.2:
            kw["include"] = set(rng.sample(fs, min(2, len(fs))))
        elif rng.random() < 0.2:
            kw["exclude"] = set(rng.sample(fs, min(2, len(fs))))
    return repr(o.model_dump(mode=rng.choice(["json", "python"]), **kw))


def dump_text(o, seed):
    return o.model_dump_json(indent=random.Random(seed).choice([None, 2]))


def copies(o, seed):
    a, b, c = copy.copy(o), copy.deepcopy(o), o.model_copy(deep=bool(seed % 2))
    return [real.sig(real.observe(x)) for x in (a, b, c)] + [a == o, b == o, c == o]


def schema(o, seed):
    return dumps(type(o).model_json_schema())


def fields_read(o, seed):
    return [sorted(o.model_fields_set), sorted(o.model_extra or {}) if not isinstance(o, real.RootModel) else None,
            real.sig(real.observe(o))]


def pickled(o, seed):
    return real.sig(real.observe(pickle.loads(pickle.dumps(o))))


READERS = {
    "model_dump": dump_some, "model_dump_json": dump_text, "repr": lambda o, s: repr(o), "str": lambda o, s: str(o),
    "compare": compare, "iterate": lambda o, s: iterate(o), "hash": lambda o, s: hashes(o), "copy": copies,
    "json schema": schema, "model_validate": revalidate, "attributes": fields_read, "pickle": pickled,
}
DOC_READERS = {
    "resolve_reference": resolve, "UnifiedReferencesValidator": validator("UnifiedReferencesValidator"),
    "TagsRefValidator": validator("TagsRefValidator"), "ExternalDocsRefValidator": validator("ExternalDocsRefValidator"),
}
CONTENT_ONLY = {"model_dump_json", "iterate", "hash", "resolve_reference", "UnifiedReferencesValidator", "TagsRefValidator",
                "ExternalDocsRefValidator", "model_validate"}
LIGHT = [r for r in list(READERS) if r != "json schema"]


def answer(kind, val, t=None):
    if kind == "ok":
        return ["ok", val]
    return [kind, type(val).__name__, str(val)[:400] if kind != "base" else ""]


class C07(Check):
    ID = "C07"
    RUNS = {"quick": 4000, "thorough": 45000}
    FOC = [("AsyncAPI3", "!")] * 150 + FIELD_FOCUS[::3] + MAP_FOCUS + EXT_FOCUS

    def plan(self, rng, i, tier):
        cls, field = self.FOC[(i * 7) % len(self.FOC)]
        isdoc = field == "!"
        if isdoc:
            n, _ = C04().document(rng, rng.randrange(len(LOCATIONS)), rng.choice([1, 2, 4]), rng.choice([1.0, 1.0, 0.7]))
        else:
            g = Gen(rng, budget=14, density=rng.choice([0.2, 0.5]))
            n = focus_node(g, cls, field)
        if isdoc and i % 10 == 3:
            v = rng.choice([*DOC_READERS])
            n = busy(rng, rng.randrange(PARTS))[0]
            return {"check": self.ID, "focus": [cls, field], "init": n, "style": rng.choice(["inst", "alias"]), "lists": False,
                    "ops": [{"t": v, "s": rng.randrange(1 << 30)}, {"t": rng.choice(LIGHT + [*DOC_READERS]), "s": rng.randrange(1 << 30)}]}
        pool = LIGHT + list(DOC_READERS) * 2 if isdoc or cls == "AsyncAPI3" else LIGHT

        def calls(k, threads):
            out = []
            for _ in range(k):
                x = rng.random()
                if not threads and x < 0.12:
                    out.append({"t": "edit", "s": rng.randrange(1 << 30)})
                    continue
                op = {"t": rng.choice(pool) if rng.random() < 0.985 else "json schema", "s": rng.randrange(1 << 30)}
                if not threads and x < 0.4:
                    op["fault"] = gen_fault(rng, [1, 2, 3, 5, 9, 15, 30, 60, 200, 1000], 200)
                elif not threads and x < 0.47:
                    op["room"] = rng.randint(1, 30)
                out.append(op)
            return out
        p = {"check": self.ID, "focus": [cls, field], "init": n, "style": rng.choice(["inst", "alias", "json"]),
             "lists": rng.random() < 0.4}
        if rng.random() < 0.35:
            p["clients"] = [{"ops": calls(rng.choice([1, 2, 3]), True)} for _ in range(rng.choice([2, 3, 4]))]
            p["sched"] = gen_sched(rng)
            p["fine"] = rng.random() < 0.15
        else:
            p["ops"] = calls(rng.choice([2, 4, 6]), False)
        return p

    def run(self, run, phase, carry):
        p = run.plan
        node = p["init"]
        extra = {}
        if p["lists"] and node.get("m") == "AsyncAPI3" and verdict(node)[0] is True:
            extra["extra_validators"] = [real.asyncapi3.validators.UnifiedReferencesValidator]
        k, obj = real.call(real.build, node, p["style"], **extra)
        if k != "ok":
            raise EndRun("object refused")
        run.state(real.sig(real.observe(obj)))
        if "clients" in p:
            return self.threads(run, p, obj)
        stale = False
        truth = {}
        for j, op in enumerate(p["ops"]):
            if op["t"] == "edit":
                if self.edit(run, obj, op["s"]):
                    truth.clear()
                    stale = True
                continue
            self.read(run, obj, op, f"step {j}: ", truth, stale)

    def edit(self, run, obj, seed):
        rng = random.Random(seed)
        n = real.norm_free(real.observe(obj))
        if not node_ok(n):
            return False
        g = Gen(rng, budget=5, density=0.2, refs=["https://example.com/r.json"])
        spots = [q for q, s, _ in walk(n)]
        e = gen_edit(g, n, rng.choice(spots), None, bad=0)
        if predict_whole(n, e)[0] != "ok":
            return False
        ck, a = real.call(prepare, real, e, True)
        if ck != "ok":
            return False
        got, _, _ = run.op(lambda: perform(real.at(obj, e["p"]), e, a))
        run.log("edit", got, real.sig(real.observe(obj)))
        run.count("edits between reads:" + got)
        return True

    def reader(self, op, obj):
        fn = READERS.get(op["t"]) or DOC_READERS[op["t"]]
        return lambda: fn(obj, op["s"])

    def read(self, run, obj, op, where, truth, stale):
        where += op["t"]
        fire = self.reader(op, obj)
        key = (op["t"], op["s"])
        if key not in truth:
            truth[key] = run.fork(lambda: answer(*run.op(fire)))
        ref = truth[key]
        before, parts = snap(obj), deep(obj)
        if "room" in op:
            got, val = run.squeeze(fire, op["room"])
            cut = got != "ok" and not (ref[0] == got and isinstance(val, ValueError))
            if got == "ok" and ref[0] == "ok" and json.loads(json.dumps(val)) != ref[1]:
                cut = True  # a swallowed RecursionError inside pydantic may change an answer
        else:
            got, val, task = run.op(fire, op.get("fault"))
            cut = task.fired is not None
        bad = changed(before, snap(obj))
        if bad or deep(obj) != parts:
            raise Violation("changed", f"{where}{' (interrupted)' if cut else ''} changed the {type(obj).__name__} it was "
                            f"applied to ({', '.join(bad) or 'parts replaced or fields marked as set'})")
        a = json.loads(json.dumps(answer(got, val)))
        run.log(where, got, cut, a if not cut else None)
        run.count(f"read:{op['t']}:{'cut' if cut else got}")
        if not cut and a != ref:
            raise Violation("answer", f"{where} answered {real.short(a, 250)} where it answered {real.short(ref, 250)} "
                            "in a copy of the same process")
        got, val, _ = run.op(fire)
        a = json.loads(json.dumps(answer(got, val)))
        if a != ref:
            raise Violation("answer", f"{where}{' after an interrupted attempt' if cut else ' repeated'} answered "
                            f"{real.short(a, 250)} instead of {real.short(ref, 250)}")
        bad = changed(before, snap(obj))
        if bad or deep(obj) != parts:
            raise Violation("changed", f"{where} (repeated) changed the {type(obj).__name__} it was applied to")
        if stale and op["t"] in CONTENT_ONLY:
            n = real.norm_free(real.observe(obj))
            extra = {}
            if n.get("m") == "AsyncAPI3" and obj.extra_validators is not None:
                extra["extra_validators"] = list(obj.extra_validators)
            k, twin = real.call(real.build, n, "inst", **extra)
            if k == "ok" and real.equal(real.observe(twin), n):
                g2, v2, _ = run.op(self.reader(op, twin))
                b = json.loads(json.dumps(answer(g2, v2)))
                run.count("compared with a newly built twin")
                if b != a:
                    raise Violation("stale", f"{where} after edits answered {real.short(a, 250)}, but a newly built object "
                                    f"with the same content answers {real.short(b, 250)}")

    def threads(self, run, p, obj):
        cs = p["clients"]
        solo = [[run.fork(lambda o=o: answer(*run.op(self.reader(o, obj)))) for o in c["ops"]] for c in cs]
        before, parts = snap(obj), deep(obj)
        res = [[] for _ in cs]

        def body(j):
            for op in cs[j]["ops"]:
                got, val, _ = run.op(self.reader(op, obj))
                res[j].append(json.loads(json.dumps(answer(got, val))))
        run.clients([lambda j=j: body(j) for j in range(len(cs))], p["sched"])
        for j, c in enumerate(cs):
            for op, a, b in zip(c["ops"], res[j], solo[j]):
                run.count("concurrent read:" + op["t"] + ":" + b[0])
                run.log(j, op["t"], a)
                if a != b:
                    raise Violation("thread-answer", f"thread {j}: {op['t']} answered {real.short(a, 250)} where alone it "
                                    f"answers {real.short(b, 250)}")
        bad = changed(before, snap(obj))
        if bad or deep(obj) != parts:
            raise Violation("changed", f"concurrent readers changed the {type(obj).__name__} ({', '.join(bad)})")


CHECK = C07()
