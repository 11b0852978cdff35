"""One-off: freeze the declared shape of every model of the pinned tree into
sim/shape.json.  The checks never run this; the frozen shape is the reference
model's own idea of what the documents look like."""
import importlib, json, pkgutil, types, typing, warnings, sys
warnings.simplefilter("ignore")
import asyncapi3
from pydantic import BaseModel, RootModel, AnyUrl, HttpUrl
from asyncapi3.models.helpers import EmailStr
from asyncapi3.models.base_models import ExtendableBaseModel, NonExtendableBaseModel, PatternedRootModel

mods = [importlib.import_module(m.name) for m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3.")]
classes = {}
for m in mods:
    for v in vars(m).values():
        if isinstance(v, type) and issubclass(v, BaseModel) and v.__module__ == m.__name__:
            if v in (ExtendableBaseModel, NonExtendableBaseModel, PatternedRootModel): continue
            if "[" in v.__name__: continue
            classes[f"{v.__module__}:{v.__name__}"] = v
short = {}
for k, v in classes.items():
    # qualify duplicates by module
    short[v] = v.__name__
names = list(short.values())
dups = {n for n in names if names.count(n) > 1}
for v in list(short):
    if v.__name__ in dups:
        short[v] = v.__module__.split(".")[-1] + "." + v.__name__
def ty(t):
    o = typing.get_origin(t)
    if o is typing.Annotated: return ty(typing.get_args(t)[0])
    if o in (typing.Union, types.UnionType):
        return {"union": [ty(a) for a in typing.get_args(t)]}
    if o is list: return {"list": ty(typing.get_args(t)[0])}
    if o is dict:
        assert typing.get_args(t)[0] is str
        return {"dict": ty(typing.get_args(t)[1])}
    if o is typing.Literal: return {"lit": list(typing.get_args(t))}
    if o is type: return {"proc": True}
    if t is typing.Any: return {"any": True}
    if t is type(None): return {"none": True}
    if t is EmailStr: return {"prim": "email"}
    if t is AnyUrl: return {"prim": "anyurl"}
    if t is HttpUrl: return {"prim": "httpurl"}
    if t in (str, int, bool, float): return {"prim": t.__name__}
    if isinstance(t, type) and issubclass(t, BaseModel): return {"model": short[t]}
    raise SystemExit(f"unhandled {t!r}")
out = {}
for k, v in sorted(classes.items()):
    e = {"path": k}
    if issubclass(v, RootModel):
        e["kind"] = "map"; e["value"] = ty(typing.get_args(v.model_fields["root"].annotation)[1])
    else:
        ex = v.model_config.get("extra")
        e["kind"] = "ext" if issubclass(v, ExtendableBaseModel) else ("closed" if ex == "forbid" else "open" if ex == "allow" else "plain:%s" % ex)
        e["fields"] = {}
        for n, f in v.model_fields.items():
            d = {"type": ty(f.annotation), "alias": f.alias or n}
            if f.is_required(): d["required"] = True
            else:
                dv = f.get_default(call_default_factory=True)
                if dv == [] and d["type"] == {"list": {"proc": True}}: dv = None
                if isinstance(dv, BaseModel): dv = dv.model_dump(mode="json")
                d["default"] = dv
            if f.exclude: d["hidden"] = True
            if f.exclude_if is not None: d["drop_none"] = True
            if f.metadata: 
                c = {}
                for x in f.metadata:
                    for a in ("max_length", "min_length", "ge", "gt", "le", "lt", "multiple_of","pattern"):
                        if getattr(x, a, None) is not None: c[a] = getattr(x, a)
                    if not c and "SkipJsonSchema" not in repr(x): raise SystemExit(("meta", k, n, x))
                d["c"] = c
            e["fields"][n] = d
        e["cfg"] = {c: v.model_config.get(c) for c in ("extra","revalidate_instances","validate_assignment","serialize_by_alias","validate_by_name","validate_by_alias")}
    out[short[v]] = e
json.dump(out, open(sys.argv[1], "w"), indent=1, sort_keys=True)
print(len(out), dups)
import collections
print(collections.Counter(e["kind"] for e in out.values()))
for n,e in out.items():
    if e["kind"]!="map":
        c=e.pop("cfg")
        if (c["revalidate_instances"],c["validate_assignment"],c["serialize_by_alias"],c["validate_by_name"],c["validate_by_alias"])!=("always",True,True,True,True): print("CFG",n,c)
json.dump(out, open(sys.argv[1], "w"), indent=1, sort_keys=True)
