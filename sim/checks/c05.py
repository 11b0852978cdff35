"""C05: documents are isolated from their parts, from each other and from other threads."""
import copy
import json
import random

from .. import real
from ..bench import ADDR, validators
from ..docs import LOCATIONS
from ..model import NONE, OBJS, MAPS, SHAPE, Gen, alts, children, clone, fields, get, models_in, node_ok, walk
from ..world import (EXT_FOCUS, FIELD_FOCUS, MAP_FOCUS, embed, focus_node, gen_edit, perform, predict,
                     predict_whole, prepare)
from .base import Check, EndRun, Violation, dumps
from .c04 import gen_sched

STYLES = ["inst", "full", "alias", "name", "json"]


def typed_parts(o, t, path="$"):
    """(id, live object, path, type of its entries) of every mutable typed container reachable from a value in a
    slot of type t."""
    out = []
    name = real.NAME.get(type(o))
    if name and SHAPE[name]["kind"] == "map":
        r = o.__dict__.get("root")
        out.append((id(o), o, path, None))
        if isinstance(r, dict):
            out.append((id(r), r, path + ".root", SHAPE[name]["value"]))
            for k, x in r.items():
                out += typed_parts(x, SHAPE[name]["value"], f"{path}[{k!r}]")
    elif name:
        out.append((id(o), o, path, None))
        for k, d in fields(name).items():
            out += typed_parts(o.__dict__.get(k), d["type"], f"{path}.{k}")
    elif isinstance(o, list):
        it = next((a["list"] for a in alts(t) if "list" in a), None)
        if it is not None and "any" not in it:
            out.append((id(o), o, path, it))
            for i, x in enumerate(o):
                out += typed_parts(x, it, f"{path}[{i}]")
    elif isinstance(o, dict):
        it = next((a["dict"] for a in alts(t) if "dict" in a), None)
        if it is not None and "any" not in it and not any("any" in a for a in alts(t)):
            out.append((id(o), o, path, it))
            for k, x in o.items():
                out += typed_parts(x, it, f"{path}[{k!r}]")
    return out


def build_with(n, path, live, style):
    """Build the content of node n with a live object standing at path."""
    if not path:
        return live
    step = path[0]
    data = style == "dict"

    def sub(ch, s):
        if s == step:
            return build_with(ch, path[1:], live, style)
        return real.arg(ch, "alias") if data else real.to_real(ch)
    if "l" in n:
        return [sub(x, ["i", i]) for i, x in enumerate(n["l"])]
    if "D" in n:
        return {k: sub(x, ["d", k]) for k, x in n["D"]}
    if "M" in n:
        d = {k: sub(x, ["k", k]) for k, x in n["d"]}
        return d if data else real.CLS[n["M"]](d)
    kw = {}
    for k, d in fields(n["m"]).items():
        x = n["f"][k]
        if ["f", k] != step and not d.get("required") and x == {"j": d.get("default")}:
            continue
        kw[d["alias"] if data else k] = sub(x, ["f", k])
    kw.update(json.loads(json.dumps(n["x"])))
    return kw if data else real.CLS[n["m"]](**kw)


class Handle:
    def __init__(self, obj, name, data=False):
        self.obj = obj
        self.name = name
        self.data = data
        self.note()

    def look(self):
        return dumps(self.obj) if self.data else real.sig(real.observe(self.obj)) + repr(real.order(self.obj))

    def note(self):
        self.was = self.look()

    def node(self):
        return real.norm_free(real.observe(self.obj))


class C05(Check):
    ID = "C05"
    RUNS = {"quick": 9000, "thorough": 120000}
    FOC = FIELD_FOCUS + MAP_FOCUS + EXT_FOCUS
    NODE_KEYS = ("donors",)

    def plan(self, rng, i, tier):
        cls, field = self.FOC[i % len(self.FOC)]
        g = Gen(rng, budget=10, density=rng.choice([0.1, 0.4, 0.8]))
        donors = [focus_node(g, cls, field)]
        if cls in OBJS and field in fields(cls) and rng.random() < 0.5:
            donors = [g.obj(cls, 2, full=(field,))]
        if rng.random() < 0.4:
            g.budget = 8
            donors.append(focus_node(g, *self.FOC[rng.randrange(len(self.FOC))]))
        threads = rng.random() < 0.3
        clients = []
        for _ in range(rng.choice([2, 2, 3]) if threads else 1):
            ops = []
            for j in range(rng.choice([2, 3, 5]) if threads else rng.choice([3, 4, 6, 9])):
                t = rng.choice(["own", "own", "own", "assign", "assign", "copy", "copy", "edit", "edit", "edit", "edit",
                                "builder", "data", "data", "restore", "save", "fresh", "parts", "twice"])
                if rng.random() < (0.35 if threads else 0.05):
                    t = "doc"
                elif threads and t == "edit" and j == 0:
                    t = "own"
                ops.append({"t": t, "h": rng.randrange(64), "to": rng.randrange(64), "s": rng.randrange(1 << 30)})
            clients.append({"ops": ops})
        if threads and rng.random() < 0.4:
            # all of them do the same
            clients = [clients[0]] + [clone(clients[0]) for _ in clients[1:]]
        p = {"check": self.ID, "focus": [cls, field], "donors": donors, "clients": clients,
             "style": rng.choice(STYLES)}
        if threads:
            p["sched"] = gen_sched(rng)
            p["fine"] = rng.random() < 0.1
        return p

    # ---------------------------------------------------------------- running
    def run(self, run, phase, carry):
        p = run.plan
        donors = []
        for n in p["donors"]:
            k, o = real.call(real.build, n, p["style"])
            if k != "ok":
                raise EndRun("donor refused")
            donors.append(Handle(o, "donor"))
        cs = p["clients"]
        if len(cs) == 1:
            self.client(run, cs[0], donors, False)
            return
        solo = [run.fork(lambda c=c: self.client(run, c, donors, True)) for c in cs]
        logs = [None] * len(cs)

        def body(j):
            logs[j] = self.client(run, cs[j], donors, True)
        run.clients([lambda j=j: body(j) for j in range(len(cs))], p["sched"])
        for d in donors:
            if d.look() != d.was:
                raise Violation("shared-part", f"a {type(d.obj).__name__} used by several threads as a part changed: "
                                f"{d.was[:200]} -> {d.look()[:200]}")
        for j in range(len(cs)):
            a, b = json.loads(json.dumps(logs[j])), solo[j]
            if a != b:
                x = next((n for n in range(min(len(a), len(b))) if a[n] != b[n]), None)
                raise Violation("thread-result", f"thread {j} got {real.short(a[x] if x is not None else len(a), 300)} "
                                f"where alone it gets {real.short(b[x] if x is not None else len(b), 300)}")

    def client(self, run, c, donors, threads):
        hs = list(donors)
        fixed = len(donors) if threads else 0
        out = []
        for j, op in enumerate(c["ops"]):
            rng = random.Random(op["s"])
            before = len(hs)
            target, what, res = self.step(run, rng, op, hs, fixed, j)
            out.append([op["t"], what, res])
            run.count(f"{op['t']}:{res[0] if res else 'n/a'}")
            if not threads:
                run.log(j, op["t"], what, res)
            if what is None:
                continue
            where = f"step {j}: {what}"
            for i, h in enumerate(hs[:before]):
                if h is target:
                    h.note()
                    continue
                now = h.look()
                if now != h.was:
                    raise Violation("shared", f"{where}: this changed the independent {h.name}: "
                                    f"{h.was[:250]} -> {now[:250]}")
            for h in hs[before:]:
                h.note()
                out[-1].append(h.was)
                run.state(h.was)
            self.sharing(hs, where, rng, fixed)
        return out

    def step(self, run, rng, op, hs, fixed, j):
        """Perform one operation: (handle that may change, description, result)."""
        t = op["t"]
        objs = [h for h in hs if not h.data]
        h = objs[op["h"] % len(objs)]
        n = h.node()
        name = n.get("m") or n.get("M")
        g = Gen(rng, budget=6, density=0.2, refs=["https://example.com/r.json"])

        def add(fire, what):
            got, val, _ = run.op(fire)
            if got == "ok":
                hs.append(Handle(val, what))
            return None, what, [got, type(val).__name__]
        if t == "own":
            wrapped, path = embed(g, n, [], rng.choice([1, 1, 1, 2]))
            if not path or not node_ok(wrapped):
                return None, None, None
            style = rng.choice(["inst", "inst", "dict"])
            top = wrapped.get("m") or wrapped.get("M")
            what = f"{top} built from a {name} at {pretty(path)} ({style})"
            if style == "dict":
                k, data = real.call(build_with, wrapped, path, h.obj, style)
                return add(lambda: real.CLS[top].model_validate(data), what)
            return add(lambda: build_with(wrapped, path, h.obj, style), what)
        if t == "doc":
            # a document of its own, held to its references
            from .c04 import C04
            from .c10 import C10, FOCUS
            mine = rng.choice([["Unified"], ["Tags"], ["ExternalDocs"], ["Tags", "ExternalDocs", "Unified"]])
            mood = rng.choice([1.0, 0.5])
            n, _ = C04().document(rng, rng.randrange(len(LOCATIONS)), 1, mood) if mine == ["Unified"] else \
                C10().document(rng, rng.choice(FOCUS), rng.choice([1, 2]), mood)
            k, kw = real.call(lambda: {f: real.arg(x, rng.choice(["inst", "alias"])) for f, x in n["f"].items() if x != NONE})
            if k != "ok":
                return None, None, None
            A = real.CLS["AsyncAPI3"]
            got, val, _ = run.op(lambda: A(**kw, extra_validators=validators(mine)))
            if got == "ok":
                hs.append(Handle(val, "document"))
            return None, f"document with {', '.join(mine)}", [got, type(val).__name__, "" if got == "ok" else ADDR.sub("0x", str(val))[:400]]
        if t == "twice":
            # one live part used at two places of one owner
            for m in rng.sample(MAPS, len(MAPS)):
                if name in models_in(SHAPE[m]["value"]):
                    what = f"{m} holding one {name} under two keys"
                    return add(lambda: real.CLS[m]({"k1": h.obj, "k2": h.obj}), what)
            return None, None, None
        if t == "assign":
            cands = []
            for i, o in enumerate(hs[fixed:]):
                if o.data or o is h:
                    continue
                on = o.node()
                for path, sub, _ in walk(on):
                    if "m" in sub:
                        cands += [(o, on, path, k) for k, d in fields(sub["m"]).items() if name in models_in(d["type"])]
                        cands += [(o, on, path, [k]) for k, d in fields(sub["m"]).items()
                                  if any("list" in a and name in models_in(a["list"]) for a in alts(d["type"]))]
                    elif name in models_in(SHAPE[sub["M"]]["value"]):
                        cands.append((o, on, path, None))
                    elif sub["M"] == name:
                        cands.append((o, on, path, {}))
            if not cands:
                on, path = embed(g, n, [], 1)
                if not path or not node_ok(on) or path[-1][0] == "d":
                    return None, None, None
                k, o = real.call(real.to_real, on)
                if k != "ok":
                    return None, None, None
                o = Handle(o, f"new {on.get('m') or on.get('M')}")
                hs.append(o)
                last = path[-1]
                cands = [(o, on, path[:-1], None) if last[0] == "k" else
                         (o, on, path[:-1], last[1]) if last[0] == "f" else (o, on, path[:-2], [path[-2][1]])]
            o, on, path, k = cands[op["to"] % len(cands)]
            if k is None:
                key = rng.choice(["a", "B", "k-1"])
                e = {"p": path, "t": "item", "k": key, "v": n}
                fire = lambda: real.at(o.obj, path).__setitem__(key, h.obj)
            elif k == {}:
                e = {"p": path, "t": "root", "v": n}
                fire = lambda: setattr(real.at(o.obj, path), "root", h.obj.root)
            elif isinstance(k, list):
                k = k[0]
                e = {"p": path, "t": "set", "k": k, "v": {"l": [n]}}
                fire = lambda: setattr(real.at(o.obj, path), k, [h.obj])
            else:
                e = {"p": path, "t": "set", "k": k, "v": n}
                fire = lambda: setattr(real.at(o.obj, path), k, h.obj)
            if predict_whole(on, e)[0] != "ok":
                return None, None, None
            got, val, _ = run.op(fire)
            return o, f"assigning a {name} to {pretty(path)}.{k} of a {on.get('m') or on.get('M')}", [got, type(val).__name__]
        if t == "copy":
            how = rng.choice(["deepcopy", "model_copy", "model_validate", "parts"])
            c = type(h.obj)
            fire = {"deepcopy": lambda: copy.deepcopy(h.obj), "model_copy": lambda: h.obj.model_copy(deep=True),
                    "model_validate": lambda: c.model_validate(h.obj),
                    "parts": lambda: c(h.obj.root) if "M" in n else c(**{
                        k: v for k, v in h.obj.__dict__.items() if k in fields(name)}, **(h.obj.model_extra or {}))}[how]
            return add(fire, f"{how} of a {name}")
        if t == "edit":
            mine = [o for o in hs[fixed:] if not o.data]
            if not mine:
                return None, None, None
            h = mine[op["h"] % len(mine)]
            n = h.node()
            spots = [p for p, s, _ in walk(n)]
            e = gen_edit(g, n, rng.choice(spots), None, bad=0.1)
            k, _ = predict_whole(n, e)
            ck, a = real.call(prepare, real, e, k == "ok")
            if k == "skip" or ck != "ok":
                return None, None, None
            got, val, _ = run.op(lambda: perform(real.at(h.obj, e["p"]), e, a))
            return h, f"{e['t']} {e.get('k', '')} at {pretty(e['p'])} of a {n.get('m') or n.get('M')}", [got, type(val).__name__]
        if t == "builder":
            A = real.CLS["AsyncAPI3"]
            kw = {}
            if rng.random() < 0.4:
                fit = [k for k, d in fields("AsyncAPI3").items() if name in models_in(d["type"])]
                if fit and rng.random() < 0.8:
                    kw[fit[0]] = h.obj
            blank = lambda c: {"m": c, "x": {}, "f": {f: {"j": d.get("default")} for f, d in fields(c).items()}}
            want = blank("AsyncAPI3")
            want["f"]["info"] = blank("Info")
            want["f"]["info"]["f"].update(title={"j": "Sample APP"}, version={"j": "0.0.1"})
            want["f"]["asyncapi"] = {"j": "3.0.0"}
            for f in ("servers", "channels", "operations"):
                want["f"][f] = {"M": next(m for m in models_in(fields("AsyncAPI3")[f]["type"]) if m in MAPS), "d": []}
            want["f"]["components"] = {"m": "Components", "x": {}, "f": {
                f: {"M": next(m for m in models_in(d["type"]) if m in MAPS), "d": []} for f, d in fields("Components").items()}}
            for f in kw:
                want["f"][f] = n
            if "info" not in kw:
                for f, d in fields("Info").items():
                    if f in ("title", "version", "description") and rng.random() < 0.3:
                        kw[f] = rng.choice(["t", "1.2.3", "A longer text"])
                        want["f"]["info"]["f"][f] = {"j": kw[f]}
                    elif name in models_in(d["type"]) and rng.random() < 0.7:
                        ls = any("list" in a for a in alts(d["type"]))
                        kw[f] = [h.obj] if ls else h.obj
                        want["f"]["info"]["f"][f] = {"l": [n]} if ls else n
            got, val, _ = run.op(lambda: A.as_builder(**kw))
            what = f"AsyncAPI3.as_builder({', '.join(kw)})"
            if got == "ok":
                hs.append(Handle(val, what))
                if not real.equal(real.norm_free(real.observe(val)), want):
                    raise Violation("defaults", f"step {j}: {what} differs from what it is to give: "
                                    f"{real.diff(real.norm_free(real.observe(val)), want)}")
            elif all(isinstance(x, str) for x in kw.values()):
                raise Violation("defaults", f"step {j}: {what} fails with {type(val).__name__}: {val}")
            return None, what, [got, type(val).__name__]
        if t == "fresh":
            # the same minimal content, built anew, must come out as it always does
            c = rng.choice(OBJS)
            m = Gen(rng, budget=0, density=0.0, refs=["https://example.com/r.json"]).obj(c, 0)
            got, val, _ = run.op(lambda: real.to_real(m))
            if got == "ok" and not real.equal(real.observe(val), m):
                raise Violation("defaults", f"step {j}: a new {c} differs from what the same content always gave: "
                                f"{real.diff(real.observe(val), m)}")
            return None, f"new {c}", [got, type(val).__name__]
        if t == "parts":
            # a second owner built from the parts of the first
            if "m" not in n or not any("m" in x or "M" in x or "l" in x for x in n["f"].values()):
                return None, None, None
            c = type(h.obj)
            return add(lambda: c(**{k: v for k, v in h.obj.__dict__.items() if k in fields(name)},
                                 **(h.obj.model_extra or {})), f"{name} built from the parts of another")
        if t == "data":
            if op["to"] % 2 and any(x.data for x in hs):
                ds = [x for x in hs if x.data]
                d = ds[op["h"] % len(ds)]
                if d in hs[:fixed]:
                    return None, None, None
                return d, "editing input data", [spoil(rng, d.obj, d.shape)]
            from ..model import dump
            data = json.loads(json.dumps(dump(n, by=rng.choice(["alias", "name"]))))
            c = type(h.obj)
            d = Handle(data, "input data", True)
            d.shape = n
            got, val, _ = run.op(lambda: c.model_validate(data))
            if got == "ok":
                hs.append(d)
                hs.append(Handle(val, f"{name} restored from input data"))
            return None, f"{name}.model_validate(data)", [got, type(val).__name__]
        if t == "restore":
            c = type(h.obj)
            how = rng.choice(["json", "python"])
            if how == "json":
                return add(lambda: c.model_validate_json(h.obj.model_dump_json()), f"{name} restored from saved text")

            def fire():
                d = h.obj.model_dump()
                x = Handle(d, "dumped data", True)
                x.shape = n
                hs.append(x)
                return c.model_validate(d)
            return add(fire, f"{name} restored from dumped data")
        got, val, _ = run.op(lambda: h.obj.model_dump_json())
        return None, f"saving a {name}", [got, val if got == "ok" else type(val).__name__]

    def sharing(self, hs, where, rng, fixed):
        """A typed container reachable from two owners must not carry edits across."""
        seen = {}
        for h in hs:
            if h.data:
                continue
            for pid, o, path, it in typed_parts(h.obj, {"model": real.NAME[type(h.obj)]}):
                if pid in seen:
                    a, pa = seen[pid]
                    b = h
                    if nudge(o, rng, it) and (a.look() != a.was and b.look() != b.was):
                        raise Violation("shared", f"{where}: {a.name}{pa[1:]} and {b.name}{path[1:]} are the same "
                                        f"{type(o).__name__}: editing one changes the other")
                    raise EndRun("shared object could not be edited")
                seen.setdefault(pid, (h, path))


def nudge(o, rng, it=None):
    """Some edit of a live container, through its public surface; True when it went through."""
    if isinstance(o, (list, dict)):
        x = next(iter(o.values() if isinstance(o, dict) else o), None)
        if x is None:
            k, x = real.call(lambda: real.to_real(Gen(rng, budget=2, density=0.1).value(it, None, None, 1)))
            if k != "ok":
                return False
        if isinstance(o, dict):
            o["probe"] = x
        else:
            o.append(x)
        return True
    name = real.NAME.get(type(o))
    before = real.sig(real.observe(o))
    for _ in range(40):
        g = Gen(rng, budget=4, density=0.3)
        n = real.norm_free(real.observe(o))
        e = gen_edit(g, n, [], None, bad=0)
        if predict(n, e)[0] != "ok":
            continue
        k, a = real.call(prepare, real, e, True)
        if k == "ok" and real.call(perform, o, e, a)[0] == "ok" and real.sig(real.observe(o)) != before:
            return True
    return False


def spoil(rng, data, n):
    """Mutate plain input data at a place that holds typed content."""
    spots = []

    def go(d, n):
        if "m" in n and isinstance(d, dict):
            spots.append(d)
            for k, x in n["f"].items():
                a = SHAPE[n["m"]]["fields"][k]["alias"]
                kk = a if a in d else k
                if kk in d and ("m" in x or "M" in x or "l" in x or "D" in x):
                    go(d[kk], x)
        elif "M" in n and isinstance(d, dict):
            spots.append(d)
            for k, x in n["d"]:
                if k in d:
                    go(d[k], x)
        elif "l" in n and isinstance(d, list):
            spots.append(d)
            for i, x in enumerate(n["l"]):
                if i < len(d):
                    go(d[i], x)
        elif "D" in n and isinstance(d, dict):
            spots.append(d)
            for k, x in n["D"]:
                if k in d:
                    go(d[k], x)
    go(data, n)
    d = rng.choice(spots)
    if isinstance(d, list):
        if d and rng.random() < 0.5:
            d.pop()
        else:
            d.append("spoilt")
    elif d and rng.random() < 0.5:
        d.pop(rng.choice(list(d)))
    else:
        d[rng.choice(["description", "zz", "a"])] = "spoilt"
    return "ok"


def pretty(path):
    return "$" + "".join(f".{k}" if s == "f" else f"[{k!r}]" for s, k in path)


CHECK = C05()
