"""C03: corruption behind validation never survives re-validation."""
import copy

from .. import real
from ..model import Gen, MAPS, OBJS, SHAPE, alts, clone, fields, gen_fault, get, models_in, node_ok, walk
from ..world import (EXT_FOCUS, FIELD_FOCUS, FORMAT_FOCUS, MAP_FOCUS, PARENTS, RULE_FOCUS, breakable, damage, embed, focus_node)
from .base import Check, EndRun, Violation
from .c02 import first


class C03(Check):
    ID = "C03"
    RUNS = {"quick": 36000, "thorough": 200000}
    FOC = FIELD_FOCUS + MAP_FOCUS + EXT_FOCUS + RULE_FOCUS + FORMAT_FOCUS * 3

    def plan(self, rng, i, tier):
        cls, field = self.FOC[i % len(self.FOC)]
        g = Gen(rng, budget=10, density=rng.choice([0.1, 0.4, 0.8]))
        n = focus_node(g, cls, field)
        if field in (fields(cls) if cls in OBJS else ()) and rng.random() < 0.5:
            n = g.obj(cls, 2, full=(field,))
        g.budget = 10
        top, path = embed(g, n, [], rng.choice([0, 0, 0, 1, 1, 2, 3, 4]))
        spots = breakable(n, {"model": cls}, True)
        mine = [s for s in spots if s[0][:1] == [["f", field]] or (not s[0] and s[1] in ("f:" + field, "rule", "x", "key"))]
        bad = None
        hurt = rng.random() < 0.8
        for _ in range(6):
            if not hurt or not spots:
                break
            sp = rng.choice(mine if mine and rng.random() < 0.75 else spots)
            b = damage(g, n, sp)
            if b is not None and not node_ok(b):
                bad = [sp[0], sp[1], get(b, sp[0])]
                break
        owed = [(q, f) for q, m, _ in walk(n) if "m" in m for f, d in fields(m["m"]).items() if d.get("required")]
        if hurt and owed and rng.random() < 0.06 and n.get("m"):
            # a field that must be there is gone
            q, f = rng.choice(owed)
            if breakable_at(n, cls, q):
                bad = [q, "gone:" + f, get(n, q)]
        routes = []
        for _ in range(rng.choice([1, 2, 3])):
            r = {"r": rng.choice(["validate", "validate", "rebuild", "parent", "assign", "entry", "self", "data"]),
                 "pick": rng.randrange(1 << 16)}
            if rng.random() < 0.12:
                r["fault"] = gen_fault(rng, [1, 2, 3, 5, 8, 13, 20])
            routes.append(r)
        return {"check": self.ID, "focus": [cls, field], "init": top, "path": path, "damage": bad,
                "typed": rng.choice([None, "email", "text"]),
                "via": rng.choice(["raw", "raw", "setattr", "construct", "copy"]), "ops": routes,
                "heal": rng.random() < 0.3, "seed2": rng.randrange(1 << 30),
                "style": rng.choice(["inst", "full", "alias", "name", "json"])}

    def run(self, run, phase, carry):
        p = run.plan
        real.typed(p.get("typed"))
        node = clone(p["init"])
        k, obj = real.call(real.build, node, p["style"])
        if k != "ok" or not real.equal(real.observe(obj), node):
            raise EndRun("initial object refused or different")
        dmg = p["damage"]
        good = copy.deepcopy(obj) if p["heal"] else None
        what = "sound content"
        if dmg:
            sub, kind, broken = dmg
            full = p["path"] + sub
            if get(node, full) is None or (sub and get(node, p["path"]) is None):
                raise EndRun("path lost")
            got = hurt(obj, full, kind, get(node, full), broken, p["via"])
            if got is None:
                raise EndRun("damage not applicable")
            obj = got
            what = f"damage ({kind}) at {pretty(full)} put there by {p['via']}"
            run.count("damage:" + kind.split(":")[0] + " via " + p["via"])
        import random
        for j, r in enumerate(p["ops"]):
            fn = self.route(random.Random(p["seed2"] + r["pick"]), r["r"], obj, node, dmg and p["path"] + dmg[0])
            if fn is None:
                run.log(j, r["r"], "n/a")
                continue
            name, fire, expect = fn
            got, val, t = run.op(fire, r.get("fault"))
            run.count("revalidate:" + r["r"] + ":" + got)
            run.log(j, name, what, got, t.fired, real.sig(real.observe(val)) if got == "ok" else type(val).__name__)
            if t.fired is not None:
                continue
            if dmg:
                if got == "ok":
                    raise Violation("survived", f"{p['focus'][0]}: {what} survives {name}: result "
                                    f"{real.short(real.observe(val), 300)}")
            elif got != "ok":
                raise Violation("sound-refused", f"{name} refuses sound content with {type(val).__name__}: {first(val)}")
            elif expect is not None and not real.equal(real.observe(val), expect):
                raise Violation("sound-changed", f"{name} of sound content gives a different object: "
                                f"{real.diff(real.observe(val), expect)}")
        run.state(real.sig(real.observe(obj)))
        if good is not None:
            got, val, _ = run.op(lambda: type(good).model_validate(good))
            if got != "ok":
                raise Violation("sound-refused", f"re-validating an undamaged copy fails with {type(val).__name__}: {first(val)}")
            if not real.equal(real.observe(val), p["init"]) or not (val == good):
                raise Violation("sound-changed", "re-validating an undamaged copy gives a different object: "
                                f"{real.diff(real.observe(val), p['init'])}")

    def route(self, rng, r, obj, node, path):
        """(name, operation giving the re-validated object, expected content)"""
        name = node.get("m") or node["M"]
        cls = real.CLS[name]
        if r == "validate":
            return f"{name}.model_validate(object)", lambda: cls.model_validate(obj), node
        if r == "rebuild":
            if "M" in node:
                return f"{name}(entries)", lambda: cls(dict(obj.root)), node
            if path == [] and SHAPE[name]["kind"] == "closed" and set(obj.__dict__) - set(cls.model_fields):
                return None
            def fire():
                kw = parts(obj)
                kw.update(obj.model_extra or {})
                return cls(**kw)
            return f"{name}(parts)", fire, None
        if r == "data":
            if "m" not in node or not path or path[0][0] != "f":
                return None
            k = path[0][1]
            def fire():
                kw = parts(obj)
                kw.update(obj.model_extra or {})
                return cls.model_validate(kw)
            return f"{name}.model_validate(dict of parts)", fire, None
        if r == "self":
            if "m" in node:
                if not path or path[0][0] != "f":
                    if path == []:
                        return None
                    ks = [k for k in node["f"] if node["f"][k] != {"j": None}]
                    if not ks:
                        return None
                    k = rng.choice(sorted(ks))
                else:
                    k = path[0][1]
                def fire():
                    setattr(obj, k, getattr(obj, k))
                    return obj
                return f"{name}.{k} = its own value", fire, node
            def fire():
                if path and path[0][0] == "k":
                    obj[path[0][1]] = obj.root[path[0][1]]
                else:
                    obj.root = dict(obj.root)
                return obj
            return f"{name} entry re-assigned", fire, node
        ps = [x for x in PARENTS.get(name, []) if (x[2] == "k") == (r == "entry")]
        if not ps:
            return None
        c, k, kind = rng.choice(ps)
        g = Gen(rng, budget=6, density=0.1)
        if r == "entry":
            def fire():
                m = real.CLS[c]({})
                if rng.random() < 0.5:
                    m["a"] = obj
                    return m
                return real.CLS[c]({"a": obj})
            return f"{c}['a'] = object", fire, {"M": c, "d": [["a", node]]}
        try:
            par = g.obj(c, 1, full=(k,))
        except AssertionError:
            return None
        wrap = {"f": lambda x: x, "l": lambda x: [x], "d": lambda x: {"a": x}}[kind]
        exp = clone(par)
        exp["f"][k] = {"f": node, "l": {"l": [node]}, "d": {"D": [["a", node]]}}[kind]
        if not node_ok_here(exp):
            return None
        kk, host = real.call(real.build, par, "inst")
        if kk != "ok":
            return None
        if r == "parent":
            def fire():
                kw = parts(host)
                kw.update(host.model_extra or {})
                kw[k] = wrap(obj)
                return real.CLS[c](**kw)
            return f"{c}({k}=object)", fire, exp
        def fire():
            setattr(host, k, wrap(obj))
            return host
        return f"{c}.{k} = object", fire, exp


def breakable_at(n, cls, path):
    """Whether damage at a path cannot pass for another kind of content."""
    return any(q == path for q, w in breakable(n, {"model": cls}, True))


def node_ok_here(n):
    from ..model import own_ok
    return own_ok(n)


def parts(o):
    """The content of an object as constructor arguments; unset fields are left out."""
    fs = SHAPE[real.name_of(o)]["fields"]
    return {k: v for k, v in o.__dict__.items()
            if k in fs and not (v is None and fs[k].get("default") is None and not fs[k].get("required"))}


def pretty(path):
    return "$" + "".join(f".{k}" if s == "f" else f"[{k!r}]" for s, k in path)


def hurt(obj, path, kind, old, broken, via):
    """Put `broken` where `old` is, without going through validation."""
    if kind == "item":
        o = real.at(obj, path[:-1])
        if isinstance(o, list) and via in ("setattr", "copy"):
            o.insert(path[-1][1], real.unsafe(broken))
        else:
            o[path[-1][1]] = real.unsafe(broken)
        return obj
    o = real.at(obj, path)
    if kind.startswith("gone:"):
        if via == "setattr":
            delattr(o, kind[5:])
        else:
            del o.__dict__[kind[5:]]
        return obj
    if kind == "key":
        for k, x in broken["d"]:
            if k not in [a for a, _ in old["d"]]:
                o.root[k] = real.unsafe(x)
        return obj
    diff = {k: x for k, x in broken["f"].items() if x != old["f"][k]}
    xs = {k: v for k, v in broken["x"].items() if k not in old["x"]}
    if via in ("construct", "copy") and (path or via == "construct" or not xs):
        if via == "construct":
            if xs and SHAPE[broken["m"]]["kind"] == "closed":
                return None
            new = real.unsafe(broken)
        else:
            if xs:
                return None
            new = o.model_copy(update={k: real.unsafe(x) for k, x in diff.items()})
        if not path:
            return new
        host = real.at(obj, path[:-1])
        s, k = path[-1]
        if s == "f":
            host.__dict__[k] = new
        elif s == "k":
            host.root[k] = new
        else:
            host[k] = new
        return obj
    for k, x in diff.items():
        if via == "setattr":
            object.__setattr__(o, k, real.unsafe(x))
        else:
            o.__dict__[k] = real.unsafe(x)
    for k, v in xs.items():
        if o.__pydantic_extra__ is None:
            o.__dict__[k] = v
        else:
            o.__pydantic_extra__[k] = v
    return obj


CHECK = C03()
