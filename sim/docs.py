"""Documents with references: where references may sit, what they must lead to, and whether
they do (an independent resolver over reference-model nodes)."""
import functools
import random

from .model import NONE, SHAPE, SIZES, Gen, alts, clone, fields, get, models_in, node_ok, own_ok, walk

# slots that admit nothing but a reference: what it must lead to (AsyncAPI 3.0 specification)
REF_ONLY = {("Operation", "channel"): ["Channel"], ("OperationReply", "channel"): ["Channel"],
            ("OperationReply", "messages"): ["Message"], ("Operation", "messages"): ["Message"],
            ("Channel", "servers"): ["Server"]}


def locations():
    """Every place below the document root that admits a reference:
    (steps, admissible kinds), steps being ["f", field], ["k"] or ["i"] or ["d"]."""
    out = []

    def go(t, path, stack, owner):
        ms = models_in(t)
        if "Reference" in ms:
            kinds = [m for m in ms if m != "Reference"] or REF_ONLY[owner]
            out.append((path, kinds))
        for a in alts(t):
            if "list" in a:
                go(a["list"], path + [["i"]], stack, owner)
            elif "dict" in a and "any" not in a["dict"]:
                go(a["dict"], path + [["d"]], stack, owner)
            elif "model" in a and a["model"] != "Reference" and a["model"] not in stack:
                m = a["model"]
                if SHAPE[m]["kind"] == "map":
                    go(SHAPE[m]["value"], path + [["k"]], stack + [m], (m, None))
                else:
                    for k, d in fields(m).items():
                        go(d["type"], path + [["f", k]], stack + [m], (m, k))
    go({"model": "AsyncAPI3"}, [], [], None)
    return out


LOCATIONS = locations()
KINDS = sorted({k for _, ks in LOCATIONS for k in ks})


def find_refs(doc):
    """(path, reference string, admissible kinds) of every typed reference in the document."""
    out = []

    def value(n, t, path, owner):
        if "m" in n:
            if n["m"] == "Reference":
                kinds = [m for m in models_in(t) if m != "Reference"] or REF_ONLY.get(owner, [])
                out.append((path, n["f"]["ref"]["j"], kinds))
                return
            for k, d in fields(n["m"]).items():
                value(n["f"][k], d["type"], path + [["f", k]], (n["m"], k))
        elif "M" in n:
            for k, x in n["d"]:
                value(x, SHAPE[n["M"]]["value"], path + [["k", k]], (n["M"], None))
        elif "l" in n:
            it = next((a["list"] for a in alts(t) if "list" in a), None)
            if it is not None:
                for i, x in enumerate(n["l"]):
                    value(x, it, path + [["i", i]], owner)
        elif "D" in n:
            it = next((a["dict"] for a in alts(t) if "dict" in a), None)
            if it is not None and "any" not in it:
                for k, x in n["D"]:
                    value(x, it, path + [["d", k]], owner)
    value(doc, {"model": "AsyncAPI3"}, [], None)
    return out


class Unclear(Exception):
    """Neither the specification nor the documentation says whether such a reference resolves."""


def navigate(doc, ref):
    """The node a local reference leads to directly, or None."""
    bare = ref[1:].strip("/")
    if ref.startswith("#") and bare and ref != "#/" + bare:
        # the same path with slashes missing or left over at its ends
        if navigate(doc, "#/" + bare) is not None:
            raise Unclear(ref)
        return None
    if not ref.startswith("#/"):
        return None
    n = doc
    for part in ref[2:].split("/"):
        if n is None or part == "":
            return None
        if "m" in n:
            if n["m"] == "Reference":
                if part not in ("ref", "$ref"):
                    raise Unclear(ref)
                n = n["f"]["ref"]
                continue
            fs = SHAPE[n["m"]]["fields"]
            k = next((f for f, d in fs.items() if not d.get("hidden") and part in (f, d["alias"])), None)
            if k is None:
                if part in n["x"]:
                    raise Unclear(ref)
                return None
            n = n["f"][k]
            if n == NONE:
                return None
        elif "M" in n or "D" in n:
            n = next((x for k, x in n.get("d", n.get("D")) if k == part), None)
        elif "l" in n:
            return None
        else:
            if isinstance(n["j"], (dict, list)):
                raise Unclear(ref)
            return None
    return n


def resolves(doc, ref, kinds):
    seen = set()
    while True:
        if ref.startswith(("http://", "https://")):
            return True
        if ref in seen:
            return False
        seen.add(ref)
        n = navigate(doc, ref)
        if n is None:
            return False
        if n.get("m") == "Reference":
            ref = n["f"]["ref"]["j"]
            continue
        return n.get("m") in kinds


def verdict(doc):
    """(True, None) when every typed reference leads where it must, else (False, why);
    (None, why) when it is not specified."""
    unclear = None
    for path, ref, kinds in find_refs(doc):
        try:
            if not resolves(doc, ref, kinds):
                return False, f"{pretty(path)} -> {ref!r} (must lead to {'/'.join(kinds)})"
        except Unclear as e:
            unclear = str(e)
    return (True, None) if unclear is None else (None, unclear)


def pretty(path):
    return "$" + "".join(f".{k}" if s == "f" else f"[{k!r}]" for s, k in path)


def targets(doc):
    """(path, class) of every object that a local reference can name."""
    out = []
    for path, n, _ in walk(doc):
        if path and all(s in ("f", "k", "d") for s, _ in path) and n.get("m") != "Reference":
            out.append((path, n.get("m") or n.get("M")))
    return out


def spell(doc, path, r=None, names=0.0):
    """The reference string naming the object at path."""
    parts = []
    n = doc
    for s, k in path:
        if s == "f":
            alias = SHAPE[n["m"]]["fields"][k]["alias"]
            parts.append(k if r is not None and r.random() < names else alias)
        else:
            parts.append(str(k))
        n = get(n, [[s, k]])
    return "#/" + "/".join(parts)


# ------------------------------------------------------------------ building documents
def plain(r, keys=None):
    g = Gen(r, budget=0, density=0.0, keys=keys, refs=["#/components/schemas/a", "#/channels/a", "https://example.com/r.json"])
    g.ext = lambda: {}
    return g


def blank_doc(g):
    d = g.obj("AsyncAPI3", 0)
    d["f"]["info"] = g.obj("Info", 0)
    return d


def supports(t, rest):
    """Can content of slot type t hold something at the remaining steps?"""
    if not rest:
        return True
    s = rest[0]
    for a in alts(t):
        if s[0] == "i" and "list" in a and supports(a["list"], rest[1:]):
            return True
        if s[0] == "d" and "dict" in a and "any" not in a["dict"] and supports(a["dict"], rest[1:]):
            return True
        if "model" in a and a["model"] != "Reference":
            m = a["model"]
            if s[0] == "k" and SHAPE[m]["kind"] == "map" and supports(SHAPE[m]["value"], rest[1:]):
                return True
            if s[0] == "f" and s[1] in SHAPE[m].get("fields", {}) and \
                    supports(SHAPE[m]["fields"][s[1]]["type"], rest[1:]):
                return True
    return False


def plant(g, n, t, steps, leaf, key=None):
    """A node for slot type t that contains `leaf` at the given steps, extending node n when
    possible; returns (node, concrete path of the leaf)."""
    r = g.r
    if not steps:
        return leaf, []
    s = steps[0]
    pick = lambda: key() if key else r.choice(g.keys)
    for a in alts(t):
        if s[0] == "i" and "list" in a:
            xs = list(n["l"]) if n and "l" in n else []
            if len(steps) > 1 and xs and r.random() < 0.5:
                j = r.randrange(len(xs))
                x, p = plant(g, xs[j], a["list"], steps[1:], leaf, key)
                xs[j] = x
            else:
                x, p = plant(g, None, a["list"], steps[1:], leaf, key)
                j = r.randint(0, len(xs))
                xs.insert(j, x)
            return {"l": xs}, [["i", j]] + p
        if s[0] == "d" and "dict" in a and "any" not in a["dict"]:
            ds = [list(e) for e in n["D"]] if n and "D" in n else []
            k = pick()
            old = next((x for kk, x in ds if kk == k), None)
            x, p = plant(g, old, a["dict"], steps[1:], leaf, key)
            ds = [e for e in ds if e[0] != k] + [[k, x]]
            return {"D": ds}, [["d", k]] + p
        if "model" not in a or a["model"] == "Reference" or not supports({"model": a["model"]}, steps):
            continue
        m = a["model"]
        if s[0] == "k" and SHAPE[m]["kind"] == "map":
            n = clone(n) if n and n.get("M") == m else {"M": m, "d": []}
            k = s[1] if len(s) > 1 else pick()
            old = next((x for kk, x in n["d"] if kk == k), None)
            x, p = plant(g, old, SHAPE[m]["value"], steps[1:], leaf, key)
            for e in n["d"]:
                if e[0] == k:
                    e[1] = x
            if old is None:
                n["d"].append([k, x])
            return n, [["k", k]] + p
        if s[0] == "f" and SHAPE[m]["kind"] != "map":
            n = clone(n) if n and n.get("m") == m else plain_obj(g, m)
            x, p = plant(g, n["f"][s[1]], fields(m)[s[1]]["type"], steps[1:], leaf, key)
            n["f"][s[1]] = x
            g.repair(n, {s[1]}, 1)
            return n, [["f", s[1]]] + p
    raise AssertionError(f"cannot plant {steps} in {t}")


def plain_obj(g, m):
    for _ in range(20):
        n = g.obj(m, 0)
        if not find_any_ref(n) or m in ("Operation",):
            return n
    return n


def find_any_ref(n):
    return any(x.get("m") == "Reference" for _, x, _ in walk(n))


def company(g, doc, spots, chance=0.15):
    """Fill other fields of the objects on the way to the spots: references that point outside, and inline content."""
    r = g.r
    refs, g.refs = g.refs, ["https://example.com/c.json"]
    held, g.budget = g.budget, 6
    for path, _ in spots:
        for cut in range(len(path)):
            at = get(doc, path[:cut])
            if at is None or "m" not in at or at["m"] in ("Reference", "AsyncAPI3", "Components"):
                continue
            for f, d in fields(at["m"]).items():
                if at["f"][f] != NONE or r.random() > chance:
                    continue
                was = at["f"][f]
                it = next((a["list"] for a in alts(d["type"]) if "list" in a), None)
                if "Reference" in models_in(d["type"]) and r.random() < 0.6:
                    new = ref_node(r.choice(g.refs))
                elif it is not None and "Reference" in models_in(it):
                    new = {"l": [ref_node(r.choice(g.refs)) if r.random() < 0.6 else g.value(it, None, None, 1) for _ in range(r.choice([1, 2, 3]))]}
                else:
                    new = g.value(d["type"], at["m"], f, 1, d.get("c"), "full")
                at["f"][f] = new
                if not own_ok(at):
                    at["f"][f] = was
    g.refs, g.budget = refs, held


def crowd(doc, spots, path, cut, n, at_end):
    """Many references that point outside beside one entry on the way to a spot."""
    at = get(doc, path[:cut])
    node = ref_node("https://example.com/s.json")
    if at is None:
        return False
    if "M" in at or "D" in at:
        es = at["d"] if "M" in at else at["D"]
        if "M" in at and not node_ok({"M": at["M"], "d": [["e", node]]}):
            return False
        es[len(es) if at_end else 0:0] = [[f"e{i}", clone(node)] for i in range(n) if f"e{i}" not in [k for k, _ in es]]
    elif "l" in at:
        j = len(at["l"]) if at_end else 0
        at["l"][j:j] = [clone(node) for _ in range(n)]
        for p, _ in spots:
            if len(p) > cut and p[:cut] == path[:cut] and p[cut][0] == "i" and p[cut][1] >= j:
                p[cut] = ["i", p[cut][1] + n]
    return True


def neighbour(g, n, kinds, other):
    """An inline object of the kind of entry n, at times with references of its own that point outside."""
    r = g.r
    if n is None or "m" not in n:
        return other
    m = r.choice(kinds) if n["m"] == "Reference" else n["m"]
    if m not in SHAPE or SHAPE[m]["kind"] == "map" or m == "Operation":
        return other
    x = plain_obj(g, m)
    if r.random() < 0.5:
        refs, g.refs = g.refs, ["https://example.com/n.json"]
        for f, d in fields(m).items():
            if x["f"][f] != NONE or r.random() > 0.4:
                continue
            it = next((a["list"] for a in alts(d["type"]) if "list" in a), None)
            if "Reference" in models_in(d["type"]):
                x["f"][f] = ref_node(g.refs[0])
            elif it is not None and "Reference" in models_in(it):
                x["f"][f] = {"l": [ref_node(g.refs[0])]}
            if not own_ok(x):
                x["f"][f] = dict(NONE)
        g.refs = refs
    return x if node_ok(x) else other


def siblings(g, doc, spots, chance=0.25, first=0.7):
    """Put references that point outside beside (mostly before) the spots: entries of the same
    collections and lists. Changes doc and the concrete paths in spots in place."""
    r = g.r
    if r.random() < 0.4:
        company(g, doc, spots)
    many = r.choice(SIZES) if r.random() < 0.07 else 0
    for path, kinds in list(spots):
        for cut in range(1, len(path)):
            kind, k = path[cut]
            if kind not in ("k", "d", "i"):
                continue
            if many and r.random() < 0.7:
                if crowd(doc, spots, path, cut, many, 0 if r.random() < 0.7 else 1):
                    many = 0
                continue
            if r.random() > chance:
                continue
            at = get(doc, path[:cut])
            node = ref_node(r.choice(["https://example.com/s.json", "http://h.example/t#/components/tags/a"]))
            if at is None:
                continue
            if r.random() < 0.5:
                node = neighbour(g, get(doc, path[:cut + 1]), kinds, node)
            if "M" in at or "D" in at:
                es = at["d"] if "M" in at else at["D"]
                new = r.choice(g.keys + ["s1", "s2"])
                if any(e[0] == new for e in es):
                    continue
                t = {"M": at["M"], "d": [[new, node]]} if "M" in at else None
                if t is not None and not node_ok(t):
                    continue
                es.insert(0 if r.random() < first else len(es), [new, node])
            elif "l" in at:
                j = 0 if r.random() < first else len(at["l"])
                at["l"].insert(j, node)
                for p, _ in spots:
                    if len(p) > cut and p[:cut] == path[:cut] and p[cut][0] == "i" and p[cut][1] >= j:
                        p[cut] = ["i", p[cut][1] + 1]


HOMES = {  # components collection holding each kind
    "Schema": "schemas", "MultiFormatSchema": "schemas", "Server": "servers", "Channel": "channels",
    "Operation": "operations", "Message": "messages", "SecurityScheme": "security_schemes",
    "ServerVariable": "server_variables", "Parameter": "parameters", "CorrelationID": "correlation_ids",
    "OperationReply": "replies", "OperationReplyAddress": "reply_addresses",
    "ExternalDocumentation": "external_docs", "Tag": "tags", "OperationTrait": "operation_traits",
    "MessageTrait": "message_traits", "ServerBindingsObject": "server_bindings",
    "ChannelBindingsObject": "channel_bindings", "OperationBindingsObject": "operation_bindings",
    "MessageBindingsObject": "message_bindings",
}


def home_steps(kind, key):
    return [["f", "components"], ["f", HOMES[kind]], ["k", key]]


def ref_node(s):
    return {"m": "Reference", "f": {"ref": {"j": s}}, "x": {}}


def nicknames(doc, kind):
    """Text that components of a kind go by other than their key: names, titles, URLs and the like."""
    from .model import key_ok
    out = []
    m = get(doc, [["f", "components"], ["f", HOMES[kind]]])
    for k, n in (m or {}).get("d", []):
        for f, x in n.get("f", {}).items():
            if isinstance(x.get("j"), str) and x["j"] and f != "ref":
                out.append(x["j"])
            if n["m"] == "Reference" and f == "ref":
                out.append(x["j"].rsplit("/", 1)[-1])
        out += [k.upper(), k.lower(), k.swapcase(), k.replace("-", "_"), k.replace("_", "-"), k + "s", k[:-1], k[::-1], "0" + k]
    keys = [k for k, _ in (m or {}).get("d", [])]
    return [s for s in out if s and s not in keys and (key_ok(s) or "/" not in s)]


def put_home(g, doc, kind, key, node=None):
    """Add a component of a kind; Operation gets a channel to point at."""
    if node is None:
        node = plain_obj(g, kind)
        if kind == "Operation":
            node["f"]["channel"] = ref_node("https://example.com/chan.json")
    doc, _ = plant(g, doc, {"model": "AsyncAPI3"}, home_steps(kind, key), node)
    return doc


# ------------------------------------------------------------------ the document with everything in it
def home_ref(kind, key=None):
    return f"#/components/{SHAPE['Components']['fields'][HOMES[kind]]['alias']}/{key or 't-' + kind}"


PARTS = 8
LIVE = {}


def canon_live(part=None):
    """The live form of a canonical document."""
    from . import real
    if part not in LIVE:
        LIVE[part] = real.to_real(canon(part)[0])
    return LIVE[part]


@functools.cache
def canon(part=None):
    """One document with a component of every kind and a sound reference at every place that admits one
    (or every PARTS-th such place): (node, [(path, admissible kinds)] of all its references).  Always the same."""
    g = plain(random.Random(7), ["a", "b"])
    doc = blank_doc(g)
    for k in HOMES:
        doc = put_home(g, doc, k, "t-" + k)
    for i, (steps, kinds) in enumerate(LOCATIONS):
        if part is not None and i % PARTS != part:
            continue
        try:
            doc, _ = plant(g, doc, {"model": "AsyncAPI3"}, steps, ref_node("https://example.com/r"), lambda i=i: f"q{i}")
        except AssertionError:
            pass
    spots = []
    for i, (path, _, kinds) in enumerate(find_refs(doc)):
        get(doc, path)["f"]["ref"]["j"] = home_ref(kinds[i % len(kinds)])
        spots.append((path, kinds))
    assert node_ok(doc) and verdict(doc)[0] is True
    return doc, spots


def busy(rng, part=None, chance=0.4):
    """A canonical document whose lists and collections hold references and inline objects side by side."""
    base, at = canon(part)
    for _ in range(3):
        doc, spots = clone(base), [(clone(q), k) for q, k in at]
        g = plain(rng, ["a", "b"])
        for _ in range(rng.choice([1, 2, 3])):
            siblings(g, doc, spots, chance, rng.choice([0.3, 0.7]))
        if node_ok(doc):
            return doc, spots
    return clone(base), at


__all__ = ["LOCATIONS", "verdict", "find_refs", "targets", "spell", "plant", "put_home", "node_ok", "own_ok"]
