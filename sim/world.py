"""Shared workload pieces: plans made of edits, and their meaning in the reference model."""
import json

from .model import (near_ext, near_key, SHAPE, NONE, OBJS, MAPS, GOOD_EXT, BAD_EXT, GOOD_KEYS, BAD_KEYS, RULES, OPEN_EXTRAS, FIELD_RULES, URLS,
                    Gen, alts, bad_scalar, break_field, clone, dump, ext_ok, field_bad, field_ok, fields,
                    fits, get, is_open, key_ok, models_in, node_ok, own_ok, put, walk)

# every (class, field) and every (collection, aspect), in a fixed order
FIELD_FOCUS = [(c, k) for c in OBJS for k in fields(c)]
MAP_FOCUS = [(c, a) for c in MAPS for a in ("item", "root")]
EXT_FOCUS = [(c, "*") for c in OBJS]
FOCUS = FIELD_FOCUS + MAP_FOCUS + EXT_FOCUS
RULE_FIELDS = {
    "Channel": ["address", "parameters"],
    "MessageExample": ["headers", "payload"],
    "OAuthFlows": ["implicit", "password", "client_credentials", "authorization_code"],
    "SecurityScheme": ["type_", "in_", "name", "scheme", "bearer_format", "flows", "scopes",
                       "open_id_connect_url"],
    "AMQPChannelBindings": ["is_", "exchange", "queue"],
    "SolaceDestination": ["destination_type", "queue", "topic"],
    "IBMMQChannelBindings": ["queue", "topic", "destination_type"],
    "IBMMQMessageBindings": ["type", "headers"],
    "KafkaServerBindings": ["schema_registry_url", "schema_registry_vendor"],
}
# fields with a rule or a format of their own
FORMAT_FOCUS = [(c, k) for c, k in FIELD_FOCUS if (c, k) in FIELD_RULES or any(
    a.get("prim") in URLS for a in alts(fields(c)[k]["type"]))]
# rule-bearing classes come round more often
RULE_FOCUS = [(c, k) for c in RULE_FIELDS for k in RULE_FIELDS[c] for _ in range(3)]


def parents_of():
    out = {}
    for c in OBJS:
        for k, d in fields(c).items():
            for a in alts(d["type"]):
                if "model" in a:
                    out.setdefault(a["model"], []).append((c, k, "f"))
                elif "list" in a:
                    for m in models_in(a["list"]):
                        out.setdefault(m, []).append((c, k, "l"))
                elif "dict" in a:
                    for m in models_in(a["dict"]):
                        out.setdefault(m, []).append((c, k, "d"))
    for c in MAPS:
        for m in models_in(SHAPE[c]["value"]):
            out.setdefault(m, []).append((c, None, "k"))
    return out


PARENTS = parents_of()


def embed(g, n, path, ups):
    """Wrap node n (and the path to the interesting node inside it) in `ups` containers."""
    r = g.r
    for _ in range(ups):
        name = n.get("m") or n.get("M")
        ps = PARENTS.get(name)
        if not ps:
            break
        c, k, kind = r.choice(ps)
        if kind == "k":
            p = g.map(c, 1, size=r.choice([0, 1, 2]))
            key = r.choice(g.keys)
            p["d"] = [e for e in p["d"] if e[0] != key]
            p["d"].insert(r.randint(0, len(p["d"])), [key, n])
            step = [["k", key]]
        else:
            p = None
            for _try in range(6):
                p = g.obj(c, 1, full=(k,))
                if kind == "f":
                    p["f"][k] = n
                    step = [["f", k]]
                elif kind == "l":
                    xs = p["f"][k]["l"][:1] if "l" in p["f"][k] else []
                    j = r.randint(0, len(xs))
                    xs.insert(j, n)
                    p["f"][k] = {"l": xs}
                    step = [["f", k], ["i", j]]
                else:
                    p["f"][k] = {"D": [["a", n]]}
                    step = [["f", k], ["d", "a"]]
                if own_ok(p):
                    break
                p = None
            if p is None:
                break
        n, path = p, step + path
    return n, path


def focus_node(g, cls, field, depth=2):
    """A legal object of cls that exercises `field` or not, at random."""
    if SHAPE[cls]["kind"] == "map":
        return g.map(cls, depth)
    full = (field,) if field != "*" and g.r.random() < 0.6 else ()
    return g.obj(cls, depth, full=full)


def bad_node(g, t, c=None, cls=None, fname=None):
    """An illegal node for a slot: a wrong scalar, or a legal object broken somewhere inside."""
    r = g.r
    if cls and r.random() < 0.5:
        b = break_field(r, cls, fname)
        if b is not None:
            return b
    if r.random() < 0.5 and not is_open(t):
        for _ in range(4):
            n = g.value(t, cls, fname, 2, c, "full")
            b = break_inside(g, n, t)
            if b is not None and not fits(b, t, c):
                return b
    b = bad_scalar(r, t, c)
    if b is None or fits(b, t, c):
        return None
    if cls and not field_bad(cls, fname, b):
        return None
    return b


def breakable(n, t, inst=False):
    """(path, what) spots inside legal content n of slot type t where damage cannot be
    mistaken for another admissible alternative.  inst: the content is live typed objects,
    which only their own class can accept."""
    if any("any" in a for a in alts(t)) or (is_open(t) and not inst):
        return []
    out = []
    if "M" in n:
        out.append(([], "key"))
        for k, x in n["d"]:
            out += [([["k", k]] + p, w) for p, w in breakable(x, SHAPE[n["M"]]["value"], inst)]
    elif "m" in n:
        c = n["m"]
        for f, d in fields(c).items():
            out.append(([], "f:" + f))
            out += [([["f", f]] + p, w) for p, w in breakable(n["f"][f], d["type"], inst)]
        if SHAPE[c]["kind"] in ("ext", "closed"):
            out.append(([], "x"))
        if c in RULE_FIELDS:
            out += [([], "rule")] * 3
    elif "l" in n:
        it = next((a["list"] for a in alts(t) if "list" in a), None)
        if it:
            for i, x in enumerate(n["l"]):
                out += [([["i", i]] + p, w) for p, w in breakable(x, it, inst)]
                if not is_open(it):
                    out.append(([["i", i]], "item"))
    elif "D" in n:
        it = next((a["dict"] for a in alts(t) if "dict" in a), None)
        if it:
            for k, x in n["D"]:
                out += [([["d", k]] + p, w) for p, w in breakable(x, it, inst)]
                if not is_open(it):
                    out.append(([["d", k]], "item"))
    return out


def item_type(n_owner_type, n):
    return next((a["list"] for a in alts(n_owner_type) if "list" in a), None)


def damage(g, n, spot, slot=None):
    """A damaged copy of node n at one spot, or None."""
    r = g.r
    path, what = spot
    n = clone(n)
    o = get(n, path)
    if o is None:
        return None
    if what == "key":
        if "M" not in o:
            return None
        t = SHAPE[o["M"]]["value"]
        if r.random() < 0.5:
            near = near_key(r, r.choice(o["d"])[0]) if o["d"] and r.random() < 0.4 else r.choice(BAD_KEYS)
            o["d"].insert(r.randint(0, len(o["d"])), [near, g.value(t, None, None, 1)])
        else:
            b = bad_scalar(r, t)
            if b is None:
                return None
            o["d"].append(["k9", b])
    elif what == "x":
        # among others, early or late
        xs = [*o["x"].items(), *([(k, g.raw()) for k in r.sample(GOOD_EXT, r.choice([1, 4])) if k not in o["x"]] if r.random() < 0.3 else [])]
        near = near_ext(r, r.choice(xs)[0]) if xs and r.random() < 0.4 else r.choice(BAD_EXT)
        xs.insert(r.randint(0, len(xs)), (near, g.raw()))
        o["x"].clear()
        o["x"].update(xs)
    elif what == "rule":
        for _ in range(8):
            k = r.choice(RULE_FIELDS[o["m"]])
            d = fields(o["m"])[k]
            o["f"][k] = g.value(d["type"], o["m"], k, 1, d.get("c")) if r.random() < 0.6 or d.get("required") \
                else {"j": d.get("default")}
            if not own_ok(o):
                break
        else:
            return None
    elif what == "item":
        put(n, path, {"j": r.choice([3.5, None, [None], *([[], "", "x", True, 7] if "m" in o else [])])})
    else:
        k = what[2:]
        b = break_field(r, o["m"], k)
        if b is None:
            return None
        o["f"][k] = b
    return n


def break_inside(g, n, t):
    spots = breakable(n, t)
    for _ in range(4):
        if not spots:
            return None
        b = damage(g, n, g.r.choice(spots))
        if b is not None:
            return b
    return None


# ------------------------------------------------------------------ edit generation
HOWS = ["inst", "full", "alias", "name"]


def gen_edit(g, node, path, field=None, bad=0.4):
    """A random edit of the object at `path` inside `node` (as it is at planning time)."""
    r = g.r
    o = get(node, path)
    op = {"p": path, "how": r.choice(HOWS)}
    if "M" in o:
        t = SHAPE[o["M"]]["value"]
        have = [k for k, _ in o["d"]]
        x = r.random()
        if field == "root" or x < 0.15:
            m = g.map(o["M"], 2)
            if r.random() < bad:
                b = break_inside(g, m, {"model": o["M"]})
                if b is None:
                    m["d"].append([r.choice(BAD_KEYS), g.value(t, None, None, 1)])
                else:
                    m = b
            op.update(t="root", v=m)
            return op
        if x < 0.3:
            op.update(t="del", k=r.choice(have + [r.choice(GOOD_KEYS)]) if r.random() < 0.8 else "nope")
            return op
        key = r.choice(g.keys + have) if r.random() > bad / 2 else r.choice(BAD_KEYS) if r.random() < 0.7 or not have \
            else near_key(r, r.choice(have))
        v = g.value(t, None, None, 2)
        if r.random() < bad / 2:
            b = bad_node(g, t)
            v = b if b is not None else v
        op.update(t="item", k=key, v=v)
        return op
    c = o["m"]
    kind = SHAPE[c]["kind"]
    fs = list(fields(c))
    if field == "*" or not fs or (r.random() < 0.15 and field is None):
        if r.random() < 0.3 and o["x"]:
            op.update(t="delx", k=r.choice(list(o["x"])))
        elif kind == "open":
            op.update(t="setx", k=r.choice(OPEN_EXTRAS[c]), v={"j": g.raw()})
        else:
            spelt = [d["alias"] for f, d in fields(c).items() if d["alias"] not in fields(c)]
            op.update(t="setx", k=r.choice(GOOD_EXT) if r.random() > bad else r.choice(spelt) if spelt and r.random() < 0.25 else r.choice(BAD_EXT) if r.random() < 0.7 or not o["x"]
                      else near_ext(r, r.choice(list(o["x"]))), v={"j": g.raw()})
        return op
    if field in (None, "*") or field not in fs:
        field = r.choice(RULE_FIELDS[c]) if c in RULE_FIELDS and r.random() < 0.7 else r.choice(fs)
    d = fields(c)[field]
    v = None
    if r.random() < bad:
        v = bad_node(g, d["type"], d.get("c"), c, field)
    if v is None:
        if r.random() < 0.25 and d.get("drop_none") and d.get("default") is None:
            v = dict(NONE)
        else:
            v = g.value(d["type"], c, field, 2, d.get("c"))
    op.update(t="set", k=field, v=v)
    return op


# ------------------------------------------------------------------ meaning of an edit
def predict(node, op):
    """("ok", new whole node) | ("invalid", None) | ("missing", None) | ("skip", None)."""
    o = get(node, op["p"])
    if o is None:
        return "skip", None
    new = clone(node)
    n = get(new, op["p"])
    t = op["t"]
    if "M" in o:
        if t == "item":
            if not key_ok(op["k"]) or not fits(op["v"], SHAPE[o["M"]]["value"]):
                return "invalid", None
            for e in n["d"]:
                if e[0] == op["k"]:
                    e[1] = clone(op["v"])
                    return "ok", new
            n["d"].append([op["k"], clone(op["v"])])
            return "ok", new
        if t == "del":
            if op["k"] not in [k for k, _ in o["d"]]:
                return "missing", None
            n["d"] = [e for e in n["d"] if e[0] != op["k"]]
            return "ok", new
        if t == "root":
            if "M" not in op["v"] or not node_ok(op["v"]):
                return "invalid", None
            n["d"] = clone(op["v"]["d"])
            return "ok", new
        return "skip", None
    if "m" not in o:
        return "skip", None
    if t == "set":
        if op["k"] not in o["f"]:
            return "skip", None
        n["f"][op["k"]] = clone(op["v"])
        if not field_ok(o["m"], op["k"], op["v"]) or not own_ok(n):
            return "invalid", None
        return "ok", new
    if t == "setx":
        n["x"][op["k"]] = clone(op["v"]["j"])
        return ("ok", new) if own_ok(n) else ("invalid", None)
    if t == "delx":
        if op["k"] not in o["x"]:
            return "missing", None
        del n["x"][op["k"]]
        return "ok", new
    return "skip", None


def predict_whole(node, op):
    """As predict, but an edit that would break a rule of an enclosing object is skipped."""
    k, new = predict(node, op)
    if k == "ok" and len(op["p"]) and not node_ok(new):
        return "skip", None
    return k, new


def prepare(real, op, legal):
    """The value handed to an edit, built outside the simulated operation."""
    v = op.get("v")
    if v is None:
        return None
    if op["t"] == "setx":
        return json.loads(json.dumps(v["j"]))
    how = op["how"]
    if op["t"] == "root":
        if how in ("alias", "name"):
            return json.loads(json.dumps(dump(v, by=how)))
        if legal:
            return {k: real.to_real(x, how == "full") for k, x in v["d"]}
        return {k: real.unsafe(x) for k, x in v["d"]}
    if how in ("alias", "name"):
        return json.loads(json.dumps(dump(v, by=how)))
    return real.to_real(v, how == "full") if legal else real.unsafe(v)


def perform(o, op, a):
    """The edit itself, on the live object o."""
    t = op["t"]
    if t in ("set", "setx"):
        setattr(o, op["k"], a)
    elif t == "item":
        o[op["k"]] = a
    elif t == "root":
        o.root = a
    elif t == "del":
        del o[op["k"]]
    elif t == "delx":
        delattr(o, op["k"])
