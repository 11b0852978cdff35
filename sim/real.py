"""Bridge between reference-model nodes and live asyncapi3 objects."""
import importlib
import json
import warnings

from .model import SHAPE, NONE, dump, fields

warnings.simplefilter("ignore")
import asyncapi3  # noqa: E402
from pydantic import BaseModel, RootModel, ValidationError  # noqa: E402

CLS = {}
NAME = {}


def load():
    for n, e in SHAPE.items():
        mod, cn = e["path"].split(":")
        try:
            c = getattr(importlib.import_module(mod), cn)
        except (ImportError, AttributeError):
            c = getattr(importlib.import_module("asyncapi3.models"), cn)
        CLS[n] = c
        NAME[c] = n


load()


def name_of(o):
    return NAME.get(type(o)) or "?" + type(o).__name__


# ------------------------------------------------------------------ observe
def observe(o):
    """Read a live value into a node, from its attributes (not through saving)."""
    if isinstance(o, RootModel):
        r = o.__dict__.get("root")
        if not isinstance(r, dict):
            return {"M": name_of(o), "d": repr(r)}
        return {"M": name_of(o), "d": [[k, observe(x)] for k, x in r.items()]}
    if isinstance(o, BaseModel):
        d = o.__dict__
        f = {}
        for k, fi in type(o).model_fields.items():
            if fi.exclude:
                continue
            f[k] = observe(d[k]) if k in d else {"missing": 1}
        x = {k: raw(v) for k, v in (o.model_extra or {}).items()}
        return {"m": name_of(o), "f": f, "x": x}
    if isinstance(o, list):
        return {"l": [observe(x) for x in o]}
    if isinstance(o, dict):
        return {"D": [[k, observe(x)] for k, x in o.items()]}
    return {"j": raw(o)}


def raw(o):
    if o is None or isinstance(o, (bool, int, float)):
        return o
    if isinstance(o, str):
        return str.__str__(o) if type(o) is not str else o
    if isinstance(o, list):
        return [raw(x) for x in o]
    if isinstance(o, dict):
        return {k: raw(x) for k, x in o.items()}
    if isinstance(o, BaseModel):
        return {"!model": observe(o)}
    if isinstance(o, (tuple, set, frozenset)):
        return {"!" + type(o).__name__: [raw(x) for x in o]}
    if type(o).__module__ == "pydantic.networks":
        return str(o)
    return {"!obj": type(o).__name__}


def norm(n, t=None):
    """Bring a node to comparable form: free-form dicts and lists are collapsed to raw json."""
    if "j" in n:
        return n
    if "m" in n:
        return {"m": n["m"], "f": {k: norm(x) for k, x in n["f"].items()}, "x": n["x"]}
    if "M" in n:
        if isinstance(n["d"], str):
            return n
        return {"M": n["M"], "d": [[k, norm(x)] for k, x in n["d"]]}
    if "l" in n:
        xs = [norm(x) for x in n["l"]]
        if all("j" in x for x in xs):
            return {"j": [x["j"] for x in xs]}
        return {"l": xs}
    if "D" in n:
        xs = [[k, norm(x)] for k, x in n["D"]]
        if all("j" in x for _, x in xs):
            return {"j": {k: x["j"] for k, x in xs}}
        return {"D": xs}
    return n


def sig(n):
    """Canonical text of a node; entry order matters, field order does not."""
    return json.dumps(norm(n), sort_keys=True, default=str)


def equal(a, b):
    return sig(a) == sig(b)


def diff(a, b, path="$"):
    """First difference between two nodes, for messages."""
    a, b = norm(a), norm(b)
    if json.dumps(a, sort_keys=True, default=str) == json.dumps(b, sort_keys=True, default=str):
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) == set(b):
            for k in a:
                x, y = a[k], b[k]
                if json.dumps(x, sort_keys=True, default=str) != json.dumps(y, sort_keys=True, default=str):
                    if isinstance(x, dict) and isinstance(y, dict) and k in ("f",):
                        for kk in list(x) + [z for z in y if z not in x]:
                            if kk not in x or kk not in y:
                                return f"{path}.{kk}: only on one side"
                            d = diff(x[kk], y[kk], f"{path}.{kk}") if isinstance(x[kk], dict) else None
                            if d:
                                return d
                    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                        for i, (p, q) in enumerate(zip(x, y)):
                            if isinstance(p, list) and isinstance(q, list) and p and q and p[0] == q[0] \
                                    and isinstance(p[1], dict) and isinstance(q[1], dict):
                                d = diff(p[1], q[1], f"{path}[{p[0]!r}]")
                            elif isinstance(p, dict) and isinstance(q, dict):
                                d = diff(p, q, f"{path}[{i}]")
                            else:
                                d = None if p == q else f"{path}[{i}]: {short(p)} != {short(q)}"
                            if d:
                                return d
                    return f"{path}.{k}: {short(x)} != {short(y)}"
    return f"{path}: {short(a)} != {short(b)}"


def short(x, n=160):
    s = json.dumps(x, sort_keys=True, default=str)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ build
def to_real(n, full=False):
    """Build a live value from a legal node, bottom up, through the public constructors.
    full=True passes every field explicitly, otherwise unset fields are left out."""
    if "j" in n:
        return json.loads(json.dumps(n["j"])) if isinstance(n["j"], (list, dict)) else n["j"]
    if "l" in n:
        return [to_real(x, full) for x in n["l"]]
    if "D" in n:
        return {k: to_real(x, full) for k, x in n["D"]}
    if "M" in n:
        return CLS[n["M"]]({k: to_real(x, full) for k, x in n["d"]})
    kw = {}
    for k, d in fields(n["m"]).items():
        x = n["f"][k]
        if not full and not d.get("required") and x == {"j": d.get("default")}:
            continue
        kw[k] = to_real(x, full)
    for k, x in n["x"].items():
        kw[k] = json.loads(json.dumps(x))
    return CLS[n["m"]](**kw)


def build(n, how="inst", **extra):
    """how: inst | full | alias | name | json | dictinst"""
    if how in ("inst", "full") or "m" not in n and "M" not in n:
        if how == "alias" or how == "json":
            return dump(n)
        if how == "name":
            return dump(n, by="name")
        if extra:
            kw = {k: to_real(x, how == "full") for k, x in n["f"].items()
                  if how == "full" or x != {"j": SHAPE[n["m"]]["fields"][k].get("default")}}
            kw.update(json.loads(json.dumps(n["x"])))
            kw.update(extra)
            return CLS[n["m"]](**kw)
        return to_real(n, how == "full")
    c = CLS[n.get("m") or n["M"]]
    if extra:
        data = dump(n, by="alias" if how != "name" else "name")
        data.update(extra)
        return c.model_validate(data)
    if how == "json":
        return c.model_validate_json(json.dumps(dump(n)))
    return c.model_validate(dump(n, by="alias" if how == "alias" else "name"))


def arg(n, how):
    """A value to hand to an edit: live instances, or plain data."""
    if how in ("alias", "name"):
        return json.loads(json.dumps(dump(n, by=how)))
    return to_real(n, how == "full")


def spread(n, how, kw):
    """Builder arguments that say the same as kw, with the info object given field by field."""
    i = n["f"]["info"]
    if "info" in kw and "m" in i and not i["x"]:
        kw = {k: v for k, v in kw.items() if k != "info"}
        kw.update({k: arg(x, how) for k, x in i["f"].items() if x != {"j": None}})
    return kw


class Text(str):
    """Somebody's own kind of string."""


TYPED = None


def typed(k):
    """From now on text handed to the library unchecked is of a class of its own."""
    global TYPED
    from asyncapi3.models import helpers
    TYPED = {None: None, "email": getattr(helpers, "EmailStr", Text), "text": Text}[k]


def unsafe(n):
    """Build a live value without validation (content may be illegal)."""
    if "j" in n:
        if TYPED and isinstance(n["j"], str):
            return TYPED(n["j"])
        return json.loads(json.dumps(n["j"]))
    if "l" in n:
        return [unsafe(x) for x in n["l"]]
    if "D" in n:
        return {k: unsafe(x) for k, x in n["D"]}
    if "M" in n:
        return CLS[n["M"]].model_construct({k: unsafe(x) for k, x in n["d"]})
    o = CLS[n["m"]].model_construct(**{k: unsafe(x) for k, x in n["f"].items()})
    if n["x"]:
        object.__setattr__(o, "__pydantic_extra__", json.loads(json.dumps(n["x"])))
    return o


def at(o, path):
    for s, k in path:
        if s == "f":
            o = getattr(o, k)
        else:
            o = o[k]
    return o


def call(fn, *a, **k):
    """Outcome of one operation: (kind, value)."""
    try:
        return ("ok", fn(*a, **k))
    except ValidationError as e:
        return ("invalid", e)
    except Exception as e:  # noqa: BLE001
        return ("error", e)


def norm_free(n):
    """An observed node in the shape the reference model works with: free-form lists and
    dicts collapse to raw json, typed ones keep their structure."""
    return retype(n, {"model": n.get("m") or n.get("M")})


def retype(n, t):
    if "m" in n:
        if n["m"] not in SHAPE:
            return n
        fs = SHAPE[n["m"]]["fields"]
        return {"m": n["m"], "f": {k: retype(x, fs[k]["type"]) if k in fs else x for k, x in n["f"].items()},
                "x": n["x"]}
    if "M" in n:
        if n["M"] not in SHAPE or isinstance(n["d"], str):
            return n
        vt = SHAPE[n["M"]]["value"]
        return {"M": n["M"], "d": [[k, retype(x, vt)] for k, x in n["d"]]}
    al = t["union"] if "union" in t else [t]
    if "l" in n:
        it = next((a["list"] for a in al if "list" in a), None)
        if it is None:
            return norm(n)
        return {"l": [retype(x, it) for x in n["l"]]}
    if "D" in n:
        it = next((a["dict"] for a in al if "dict" in a), None)
        if it is None:
            return norm(n)
        return {"D": [[k, retype(x, it)] for k, x in n["D"]]}
    return n


def order(o):
    """Order of fields-with-content, extensions and entries, as iteration shows it."""
    if isinstance(o, RootModel):
        return [[k, order(x)] for k, x in o.__dict__["root"].items()] if isinstance(o.__dict__.get("root"), dict) else []
    if isinstance(o, BaseModel):
        return [list(o.model_extra or {})] + [order(v) for v in o.__dict__.values() if isinstance(v, (BaseModel, list))]
    if isinstance(o, list):
        return [order(x) for x in o if isinstance(x, (BaseModel, list))]
    return []


def part_ids(o, depth=0):
    """Identities of the parts of an object, to tell "as before" from "replaced by an equal copy"."""
    if isinstance(o, RootModel):
        r = o.__dict__.get("root")
        return [id(r)] + [[k, id(x)] for k, x in r.items()] if isinstance(r, dict) else [id(r)]
    return [[k, id(v)] for k, v in o.__dict__.items() if isinstance(v, (BaseModel, list, dict))]
