"""Reference model of asyncapi3 documents.

Written from the AsyncAPI documentation and frozen in shape.json; it never looks
at the code under test.  A document is a *node*, plain JSON:

  {"m": class, "f": {python field: node}, "x": {extension: raw json}}   object
  {"M": class, "d": [[key, node], ...]}                                 keyed collection
  {"l": [node, ...]}     list          {"D": [[key, node], ...]}        plain dict
  {"j": raw json}        scalar, None or free-form content

Object nodes always carry every field (defaults filled in).
"""
import json
import os
import re

SHAPE = json.load(open(os.path.join(os.path.dirname(__file__), "shape.json")))
NONE = {"j": None}


def clone(n):
    return json.loads(json.dumps(n))


def same(a, b):
    """Equality that tells 1 from True and 1 from 1.0."""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


# ------------------------------------------------------------------ types
def alts(t):
    return t["union"] if "union" in t else [t]


def models_in(t):
    """Model classes directly admissible at a slot of type t (through unions)."""
    return [a["model"] for a in alts(t) if "model" in a]


def is_open(t):
    """Slots where broken content of one alternative may legally be read as another."""
    ms = models_in(t)
    return any("any" in a or ("dict" in a and "any" in a["dict"]) for a in alts(t)) or (
        len(ms) > 1 and any(SHAPE[m]["kind"] == "open" for m in ms))


def fields(cls):
    return {k: v for k, v in SHAPE[cls]["fields"].items() if not v.get("hidden")}


MAPS = [c for c, e in SHAPE.items() if e["kind"] == "map"]
OBJS = [c for c, e in SHAPE.items() if e["kind"] != "map"]

# ------------------------------------------------------------------ value pools
STRS = ["a", "Name 1", "", "\u00fcn\u00ef\u2192", "x" * 40, "two\nlines", "0", "null",
        "{x}", " ", "false", "latest", "*", "None", "application/json", "a" * 300, "q\"uote\\", "\U0001f600", "s" * 5000, "nul\x00", "true",
        "\u2028", "~1", "%20", "\ttab", "$ref", "#/info"]
URLS = {
    "anyurl": (["https://example.com/a", "http://h.example/", "urn:example:svc",
                "amqp://b.example:5672", "https://example.com/p?q=1#f"],
               ["not a url", "", "://x", "example.com/a", " "]),
    "httpurl": (["https://example.com/a", "http://h.example/", "https://example.com/p?q=1"],
                ["ftp://x.example/", "not a url", "", "ftp://h.example/", "h.example", "urn:example:svc"]),
    "email": (["a@b.co", "x.y+z@ex-am.org", "A@B.CO", "x@c.de", "a.b@c.de"],
              ["a@b", "@", "a..b@c.de", "a@b.co\n", "", " a@b.co", "a@b.co ", "a b@c.de", "x@c..de", "x.y+z@ex-am.org\t"]),
}
SIZES = [9, 11, 17, 21, 33, 40, 51, 65, 101, 130, 260]
INTS = [0, 1, 7, 2, 255, 2 ** 31, 10 ** 15, -1, -2 ** 31, 2 ** 63, 10 ** 30]
RAWS = [{}, [], 0, "", False, None, True, 1.5, "s", {"a": 1, "b": [None, {"c": 0}]},
        [1, "2", None], {"$ref": "#/nowhere"}, {"x": {}}, -1, 2 ** 63, 10 ** 30, 0.1, 1e300, -2.5e-7, {"": 1}, {"a b": {"": [None]}},
        "z" * 3000, list(range(300)), {"ref": "#/info"}, {"root": {}}, [[]], "\x00"]
for _n in (12, 30):
    _x = "deep"
    for _j in range(_n):
        _x = [_x] if _j % 2 else {"d": _x}
    RAWS.append(_x)
# (class, field) -> (good, bad): field-level rules
FIELD_RULES = {
    ("CorrelationID", "location"): (["$message.header#/id", "$message.payload#/a", "$message.", "$message.payload#", "$message.x#/a/",
                                     "$message.payload#/a b ", "$message.x\n", "$message.header#/X-\u00dc", "$message.x#/a~1b%20c",
                                     "$message.$message.", "$message.x..", "$message.header#/" + "k" * 300, "$message.HEADER#/id"],
                                    ["$msg", "", "message.header#/id", " $message.x", "$Message.x", "$message", "$message#/x"]),
    ("AsyncAPI3", "asyncapi"): (["3.0.0", "3.1.7", "3.0.0-rc.1", "3.12.0"],
                                ["2.6.0", "3.0", "4.0.0", "x", "3.0.0\n", "30.0.0", "", "3.0.0+b"]),
    ("AMQPOperationBindings", "expiration"): ([0, 1, 10 ** 9], [-1, -10 ** 6]),
    ("IBMMQServerBindings", "heart_beat_interval"): ([0, 999999, 5], [-1, 1000000]),
    ("IBMMQChannelBindings", "max_msg_length"): ([0, 104857600, 5], [-1, 104857601]),
    ("IBMMQMessageBindings", "expiry"): ([0, 1, 77], [-1]),
    ("KafkaChannelBindings", "partitions"): ([1, 2, 999], [0, -1]),
    ("KafkaChannelBindings", "replicas"): ([1, 2, 999], [0, -1]),
    ("SolaceOperationBindings", "priority"): ([0, 255, 7], [-1, 256]),
}
# every good value has near misses among the bad ones
URLS["email"][1].extend(f(x) for x in URLS["email"][0] for f in (" {}".format, "{} ".format, "{}\n".format, "{}@".format, "<{}>".format))
FIELD_RULES["CorrelationID", "location"][1].extend(f(x) for x in FIELD_RULES["CorrelationID", "location"][0]
                                                   for f in (" {}".format, "x{}".format, lambda s: s[1:]))
FIELD_RULES["AsyncAPI3", "asyncapi"][1].extend(f(x) for x in FIELD_RULES["AsyncAPI3", "asyncapi"][0]
                                               for f in ("v{}".format, " {}".format, "{} ".format, "{}+b".format, "{}\n".format, "{}\u00e9!".format))


def near_key(r, k):
    """An illegal key that looks like a legal one."""
    return r.choice([k + " ", " " + k, k + ".", k + "/", k + "\n", k + "\u00e9", k + "\x00", k + "$"])


def near_ext(r, k):
    """An illegal extension name that looks like a legal one."""
    return r.choice([k + " ", " " + k, "X" + k[1:], k + "/", k + "\n", k[2:] if k[2:] != "_" else "y-_", k + "$", "-" + k])


GOOD_EXT = ["x-" + "e" * 200, "x-a", "x-long.name-1_b", "x-A9", "x--", "x-root", "x-\u00fc", "x-0", "x-_", "x-.", "x-B", "x-c", "x-d.e"]
BAD_EXT = ["y", "X-a", "x", "x-", "x-a b", "x-a\n", "xa", "x-a/b", "x-a$", "-x-a"]
GOOD_KEYS = ["a", "B", "k-1", "k_2", "0", "root", "tags", "messages", "channels", "schemas",
             "traits", "bindings", "headers", "reply", "address", "security", "external_docs",
             "-", "_", "x-a", "Zz9", "channel", "servers", "operations", "components", "A", "b", "ROOT", "k" * 80, "L" * 129 + "-1",
             "m_" * 150, "9" * 1030]
BAD_KEYS = ["", "a b", "a\n", "\n", "a.b", "a/b", "\u00e9", "a$", "{a}", "a~1b", "a:b", "k\u0661",
            " a", "a ", "a\t", "\u017f", "\u212a", "\uff41", "\u00aa", "a\u0301", "a\x00", "a+b", "a,b", "a\r", "*", "a[0]", "a'b", "#", "$ref",
            "\u2028a", "a\u200b", "k" * 80 + ".", "k" * 130 + " ", "9" * 1100 + "\n"]
OPEN_EXTRAS = {
    "Schema": ["type", "properties", "title", "items", "x-foo", "default", "root", "$id", "enum", "tags"],
    "MultiFormatSchema": ["x-foo"],
    "KafkaTopicConfiguration": ["segment.bytes", "x-foo", "min.insync.replicas"],
}
# str pools that matter to cross-field rules
FIELD_STRS = {
    ("SecurityScheme", "scheme"): ["bearer", "basic", "Bearer", ""],
    ("Channel", "address"): ["a/{id}", "a", "", "{x}", "{}", "a/{", "b/{y}/{z}", "user/{user-id}", "{a.b}", "t/{\u00fc}/x", "{0}", "a}/{id}",
                             "{userId}.{order_id}", "$share/{g}/#", "}a{", "x" * 300 + "{id}"],
}


# ------------------------------------------------------------------ rules
def v(f, k):
    """Scalar value of a field, or a truthy marker for structured values, or None."""
    n = f[k]
    return n["j"] if "j" in n else n


def _channel(f):
    if f["parameters"] == NONE:
        return True
    a = v(f, "address")
    return a is not None and re.search(r"\{[^}]+\}", a) is not None


def _flows(f):
    def has(flow, *urls):
        n = f[flow]
        return n == NONE or all(v(n["f"], u) is not None for u in urls)
    return (has("implicit", "authorization_url") and has("password", "token_url")
            and has("client_credentials", "token_url")
            and has("authorization_code", "authorization_url", "token_url"))


def _sec(f):
    t = v(f, "type_")
    g = lambda k: v(f, k)
    if t == "apiKey" and g("in_") not in ("user", "password"):
        return False
    if t == "httpApiKey" and (g("name") is None or g("in_") not in ("query", "header", "cookie")):
        return False
    if t == "http" and g("scheme") is None:
        return False
    if g("bearer_format") is not None and (t != "http" or g("scheme") != "bearer"):
        return False
    if t == "oauth2" and g("flows") is None:
        return False
    if t == "openIdConnect" and g("open_id_connect_url") is None:
        return False
    return g("scopes") is None or t in ("oauth2", "openIdConnect")


def _excl(kind, need):
    def rule(f):
        for k, n in need.items():
            if v(f, kind) == k:
                return v(f, n) is not None and all(v(f, o) is None for o in need.values() if o != n)
        return True
    return rule


RULES = {
    "Channel": _channel,
    "MessageExample": lambda f: v(f, "headers") is not None or v(f, "payload") is not None,
    "OAuthFlows": _flows,
    "SecurityScheme": _sec,
    "AMQPChannelBindings": _excl("is_", {"routingKey": "exchange", "queue": "queue"}),
    "SolaceDestination": _excl("destination_type", {"queue": "queue", "topic": "topic"}),
    "IBMMQChannelBindings": lambda f: not (v(f, "queue") is not None and v(f, "topic") is not None)
    and not (v(f, "destination_type") == "queue" and v(f, "queue") is None),
    "IBMMQMessageBindings": lambda f: v(f, "type") == "binary" or v(f, "headers") is None,
    "KafkaServerBindings": lambda f: v(f, "schema_registry_vendor") is None
    or v(f, "schema_registry_url") is not None,
}


def ext_ok(k):
    return re.fullmatch(r"x-[\w.\-]+", k) is not None


def key_ok(k):
    return isinstance(k, str) and re.fullmatch(r"[A-Za-z0-9_\-]+", k) is not None


def prim_ok(name, x):
    if name == "str":
        return isinstance(x, str)
    if name == "int":
        return isinstance(x, int) and not isinstance(x, bool)
    if name == "bool":
        return isinstance(x, bool)
    if name == "float":
        return isinstance(x, (int, float)) and not isinstance(x, bool)
    return x in URLS[name][0]


def fits(n, t, c=None):
    """Is node n legal content for a slot of type t?"""
    if "union" in t:
        return any(fits(n, a, c) for a in t["union"])
    if "any" in t:
        return True
    if "none" in t:
        return n == NONE
    if "prim" in t:
        if "j" not in n or not prim_ok(t["prim"], n["j"]):
            return False
        return not (c and "max_length" in c and len(n["j"]) > c["max_length"])
    if "lit" in t:
        return "j" in n and any(type(x) is type(n["j"]) and x == n["j"] for x in t["lit"])
    if "list" in t:
        return "l" in n and all(fits(x, t["list"]) for x in n["l"])
    if "dict" in t:
        return "D" in n and all(isinstance(k, str) and fits(x, t["dict"]) for k, x in n["D"])
    cls = t["model"]
    return (n.get("m") == cls or n.get("M") == cls) and node_ok(n)


def field_ok(cls, fname, n):
    d = SHAPE[cls]["fields"][fname]
    if not fits(n, d["type"], d.get("c")):
        return False
    r = FIELD_RULES.get((cls, fname))
    if r and "j" in n and n["j"] is not None:
        x = n["j"]
        if any(type(x) is type(b) and x == b for b in r[1]):
            return False
        if not any(type(x) is type(g) and x == g for g in r[0]) and x != d.get("default"):
            raise AssertionError(f"value outside the rule pools: {cls}.{fname}={x!r}")
    return True


def own_ok(n):
    """Cross-field and extension rules of one object (its fields assumed legal)."""
    cls = n["m"]
    kind = SHAPE[cls]["kind"]
    if kind == "ext" and not all(ext_ok(k) for k in n["x"]):
        return False
    if kind == "closed" and n["x"]:
        return False
    r = RULES.get(cls)
    return r is None or bool(r(n["f"]))


def node_ok(n):
    if "M" in n:
        t = SHAPE[n["M"]]["value"]
        return all(key_ok(k) and fits(x, t) for k, x in n["d"])
    fs = fields(n["m"])
    if set(n["f"]) != set(fs):
        return False
    return all(field_ok(n["m"], k, x) for k, x in n["f"].items()) and own_ok(n)


# ------------------------------------------------------------------ saved form
def dump(n, by="alias", full=False):
    """The plain data an object must save as.  full=True keeps unset fields."""
    if "j" in n:
        return n["j"]
    if "l" in n:
        return [dump(x, by, full) for x in n["l"]]
    if "D" in n:
        return {k: dump(x, by, full) for k, x in n["D"]}
    if "M" in n:
        return {k: dump(x, by, full) for k, x in n["d"]}
    out = {}
    for k, d in fields(n["m"]).items():
        x = n["f"].get(k, None)
        if x is None:
            continue
        if x == NONE and d.get("drop_none") and not full:
            continue
        out[d["alias"] if by == "alias" else k] = dump(x, by, full)
    out.update(n["x"])
    return out


def default_node(cls, fname):
    dv = SHAPE[cls]["fields"][fname].get("default")
    return {"j": dv}


def blank(cls):
    return {"m": cls, "f": {k: default_node(cls, k) for k in fields(cls)}, "x": {}}


# ------------------------------------------------------------------ generation
class Gen:
    """Seeded generator of legal nodes."""

    def __init__(self, rng, refs=None, budget=40, density=0.35, keys=None, anyref=True):
        self.r = rng
        self.refs = refs or ["#/components/schemas/a", "#/channels/a", "https://example.com/r.json", "https://example.com/R.json/", "", " #/a ",
                             "./f.json#/a%20b", "#/channels/a~1b"]
        self.budget = budget
        self.density = density
        self.keys = keys or GOOD_KEYS
        self.wide = False       # long lists with repetitions
        self.bulk = rng.choice(SIZES) if rng.random() < 0.03 else 0     # one collection or list with many entries
        self.ref_fn = None      # (slot type, cls, field) -> ref string

    def raw(self):
        return clone(self.r.choice(RAWS))

    def value(self, t, cls=None, fname=None, depth=3, c=None, want=None):
        """A legal node for type t; want = "full" prefers a non-null value."""
        r = self.r
        if "union" in t:
            al = t["union"]
            cand = [a for a in al if "none" not in a]
            if any(a.get("model") == "Schema" for a in cand):
                # a free-form dict beside a schema is only for content no schema can hold
                cand = [a for a in cand if "dict" not in a]
            none = len(cand) != len(al)
            nonull = cls and SHAPE[cls]["fields"].get(fname, {}).get("default") is not None
            if none and not nonull and want != "full" and r.random() > 0.75:
                return dict(NONE)
            if depth <= 0 or self.budget <= 0:
                small = [a for a in cand if "model" not in a or a["model"] == "Reference"]
                if small:
                    cand = small
                elif none and not nonull and want != "full":
                    return dict(NONE)
            w = [3 if "model" in a and a["model"] != "Reference" else 2 for a in cand]
            a = r.choices(cand, w)[0]
            return self.value(a, cls, fname, depth, c, want)
        if "any" in t:
            x = self.raw()
            if x is None and want == "full":
                x = 0
            return {"j": x}
        if "none" in t:
            return dict(NONE)
        if "prim" in t:
            return {"j": self.prim(t["prim"], cls, fname, c)}
        if "lit" in t:
            return {"j": r.choice(t["lit"])}
        if "list" in t:
            k = r.choice([0, 1, 1, 2, 3]) if depth > 0 and self.budget > 0 else r.choice([0, 1])
            if want == "full":
                k = max(k, 1)
            xs = [self.value(t["list"], None, None, depth - 1) for _ in range(k)]
            if self.wide and r.random() < 0.5:
                xs += [self.value(t["list"], None, None, 0) for _ in range(5)]
            if xs and r.random() < (0.5 if self.wide else 0.15):
                # repetitions are content too
                for _ in range(r.choice([1, 1, 3])):
                    xs.insert(r.randint(0, len(xs)), clone(r.choice(xs)))
            if self.bulk and r.random() < 0.5:
                n, self.bulk = self.bulk, 0
                some = [self.value(t["list"], None, None, 0) for _ in range(3)]
                xs += [clone(r.choice(some)) for _ in range(n)]
            return {"l": xs}
        if "dict" in t:
            k = r.choice([0, 1, 2])
            ks = r.sample(self.keys, min(k, len(self.keys)))
            return {"D": self.more([[x, self.value(t["dict"], None, None, depth - 1)] for x in ks], t["dict"])}
        m = t["model"]
        return self.map(m, depth) if SHAPE[m]["kind"] == "map" else self.obj(m, depth, slot=(cls, fname))

    def prim(self, p, cls, fname, c):
        r = self.r
        if (cls, fname) in FIELD_RULES:
            good = [g for g in FIELD_RULES[cls, fname][0]]
            return r.choice(good)
        if (cls, fname) in FIELD_STRS:
            return r.choice(FIELD_STRS[cls, fname])
        if p == "str" and not c and cls:
            # words that have a meaning for this field
            dv = SHAPE[cls]["fields"].get(fname, {}).get("default") if "fields" in SHAPE[cls] else None
            if dv is not None and r.random() < 0.5:
                return r.choice([dv, "latest", "default", "0.1.0", "0.5.0", "1.0.0", "", dv.upper(), dv + " "])
        if p == "str":
            if c and "max_length" in c:
                return r.choice(["q", "", "m" * c["max_length"], "\u00fc" * c["max_length"]])
            return r.choice(STRS)
        if p == "int":
            return r.choice(INTS)
        if p == "bool":
            return r.random() < 0.5
        if p == "float":
            return r.choice([0.0, 1.5, -1.25, 1e300])
        return r.choice(URLS[p][0])

    def map(self, cls, depth=3, size=None):
        r = self.r
        self.budget -= 1
        k = r.choice([0, 1, 1, 2, 2, 3]) if size is None else size
        if depth <= 0 or self.budget <= 0:
            k = min(k, 1)
        return {"M": cls, "d": self.more([[x, self.value(SHAPE[cls]["value"], None, None, depth - 1)]
                                          for x in r.sample(self.keys, min(k, len(self.keys)))], SHAPE[cls]["value"])}

    def more(self, es, t):
        """Perhaps many more entries."""
        r = self.r
        if self.bulk and r.random() < 0.5:
            n, self.bulk = self.bulk, 0
            some = [self.value(t, None, None, 0) for _ in range(3)]
            for i in range(n):
                es.insert(r.randint(0, len(es)), [f"e{i}", clone(r.choice(some))])
        return es

    def ext(self):
        r = self.r
        if r.random() < 0.7:
            return {}
        return {k: self.raw() for k in r.sample(GOOD_EXT, r.choice([1, 1, 1, 2, 2, 6]))}

    def obj(self, cls, depth=3, full=(), slot=None):
        """full: fields that must be set to a non-null value."""
        r = self.r
        self.budget -= 1
        if cls == "Reference":
            s = self.ref_fn(slot) if self.ref_fn else r.choice(self.refs)
            return {"m": cls, "f": {"ref": {"j": s}}, "x": {}}
        kind = SHAPE[cls]["kind"]
        n = blank(cls)
        for k, d in fields(cls).items():
            if k in full:
                n["f"][k] = self.value(d["type"], cls, k, depth - 1, d.get("c"), "full")
            elif d.get("required") or r.random() < (self.density if depth > 0 and self.budget > 0 else 0.1):
                n["f"][k] = self.value(d["type"], cls, k, depth - 1, d.get("c"))
        if kind == "ext":
            n["x"] = self.ext()
        elif kind == "open":
            n["x"] = {k: self.raw() for k in r.sample(OPEN_EXTRAS[cls], r.choice([0, 1, 1]))}
            if "type" in n["x"] and cls == "Schema":
                n["x"]["type"] = r.choice(["object", "string"])
        self.repair(n, set(full), depth)
        return n

    def set(self, n, k, depth, want="full"):
        d = SHAPE[n["m"]]["fields"][k]
        n["f"][k] = self.value(d["type"], n["m"], k, depth - 1, d.get("c"), want)

    def repair(self, n, keep=frozenset(), depth=2):
        """Make cross-field rules hold, disturbing the fields in `keep` last."""
        cls, f, r = n["m"], n["f"], self.r
        if cls not in RULES or own_ok(n):
            return
        if cls == "Channel":
            if "parameters" in keep or ("address" not in keep and r.random() < 0.5):
                f["address"] = {"j": r.choice(["a/{id}", "{x}", "b/{y}/{z}"])}
            else:
                f["parameters"] = dict(NONE)
        elif cls == "MessageExample":
            self.set(n, r.choice(["headers", "payload"]), depth)
        elif cls == "OAuthFlows":
            for k in f:
                if f[k] != NONE:
                    for u in ("authorization_url", "token_url"):
                        if f[k]["f"][u] == NONE:
                            f[k]["f"][u] = {"j": r.choice(URLS["anyurl"][0])}
        elif cls == "SecurityScheme":
            if "bearer_format" in keep:
                f["type_"], f["scheme"] = {"j": "http"}, {"j": "bearer"}
            elif "scopes" in keep:
                f["type_"] = {"j": r.choice(["oauth2", "openIdConnect"])}
            t = f["type_"]["j"]
            if t == "apiKey":
                f["in_"] = {"j": r.choice(["user", "password"])}
            if t == "httpApiKey":
                f["in_"] = {"j": r.choice(["query", "header", "cookie"])}
                self.set(n, "name", depth)
            if t == "http" and f["scheme"] == NONE:
                self.set(n, "scheme", depth)
            if t == "oauth2" and f["flows"] == NONE:
                self.set(n, "flows", 2)
            if t == "openIdConnect" and f["open_id_connect_url"] == NONE:
                self.set(n, "open_id_connect_url", depth)
            if not (t == "http" and f["scheme"] == {"j": "bearer"}):
                f["bearer_format"] = dict(NONE)
            if t not in ("oauth2", "openIdConnect"):
                f["scopes"] = dict(NONE)
        elif cls in ("AMQPChannelBindings", "SolaceDestination"):
            kind, need = (("is_", {"routingKey": "exchange", "queue": "queue"})
                          if cls[0] == "A" else ("destination_type", {"queue": "queue", "topic": "topic"}))
            for lit, k in need.items():
                if k in keep:
                    f[kind] = {"j": lit}
            for lit, k in need.items():
                if f[kind] == {"j": lit}:
                    if f[k] == NONE:
                        self.set(n, k, 2)
                else:
                    f[k] = dict(NONE)
        elif cls == "IBMMQChannelBindings":
            if "topic" in keep:
                f["queue"], f["destination_type"] = dict(NONE), {"j": "topic"}
            else:
                f["topic"] = dict(NONE)
                if f["queue"] == NONE:
                    f["destination_type"] = {"j": "topic"}
        elif cls == "IBMMQMessageBindings":
            if "headers" in keep:
                f["type"] = {"j": "binary"}
            else:
                f["headers"] = dict(NONE)
        elif cls == "KafkaServerBindings":
            self.set(n, "schema_registry_url", depth)
        if not own_ok(n):
            raise AssertionError(f"repair failed for {cls}: {f}")


# ------------------------------------------------------------------ walking
def children(n):
    """(step, child node, slot type, owner class, owner field)"""
    if "m" in n:
        for k, d in fields(n["m"]).items():
            yield ["f", k], n["f"][k], d["type"], n["m"], k
    elif "M" in n:
        for k, x in n["d"]:
            yield ["k", k], x, SHAPE[n["M"]]["value"], n["M"], None


def walk(n, path=(), slot=None):
    """Every object and collection node: (path, node, slot type it sits in)."""
    yield list(path), n, slot
    for step, ch, t, _c, _f in children(n):
        yield from walk_value(ch, list(path) + [step], t)


def walk_value(n, path, t):
    if "m" in n or "M" in n:
        yield from walk(n, path, t)
    elif "l" in n:
        it = next((a["list"] for a in alts(t) if "list" in a), {"any": True})
        for i, x in enumerate(n["l"]):
            yield from walk_value(x, path + [["i", i]], it)
    elif "D" in n:
        it = next((a["dict"] for a in alts(t) if "dict" in a), {"any": True})
        for k, x in n["D"]:
            yield from walk_value(x, path + [["d", k]], it)


def get(n, path):
    """Node at path, or None when the path does not exist."""
    for s, k in path:
        if s == "f":
            n = n.get("f", {}).get(k)
        elif s in ("k", "d"):
            n = next((x for kk, x in n.get("d" if s == "k" else "D", []) if kk == k), None)
        else:
            n = n["l"][k] if "l" in n and k < len(n["l"]) else None
        if n is None:
            return None
    return n


def put(n, path, x):
    """Replace the node at path (must exist) in place; path must be non-empty."""
    o = get(n, path[:-1])
    s, k = path[-1]
    if s == "f":
        o["f"][k] = x
    elif s in ("k", "d"):
        for p in o["d" if s == "k" else "D"]:
            if p[0] == k:
                p[1] = x
    else:
        o["l"][k] = x


# ------------------------------------------------------------------ illegal content
def bad_scalar(rng, t, c=None):
    """A raw value that no alternative of t can legally take, or None if there is none."""
    al = alts(t)
    if any("any" in a for a in al):
        return None
    ok = set()
    for a in al:
        ok.add(next(iter(a)))
    prims = {a["prim"] for a in al if "prim" in a}
    opts = []
    if c and "max_length" in c:
        opts.append("m" * (c["max_length"] + 1))
        opts.append("\u00fc" * (c["max_length"] + 3))
    for p in prims:
        if p in URLS and len(al) <= 2:
            opts += URLS[p][1]
    lits = [x for a in al for x in a.get("lit", []) if isinstance(x, str)]
    if lits and not prims & {"str", "anyurl", "httpurl", "email"}:
        x = rng.choice(lits)
        opts += [y for y in (x + " ", x.upper(), x.capitalize(), x[:-1], " " + x, x + "\n", x + x) if y not in lits]
    if not prims & {"str", "anyurl", "httpurl", "email"}:
        opts.append("@@bad@@")
    if not prims & {"int", "bool", "float"} and not any(isinstance(x, int) for a in al for x in a.get("lit", [])):
        opts += [5, 2.5]
    if not any("none" in a for a in al):
        opts.append(None)
    if not any("list" in a for a in al):
        opts.append([["deep"]])
    if not any("dict" in a or "model" in a for a in al):
        opts.append({"zz": 1})
    if prims & {"int"} and "lit" not in ok:
        opts.append("12x")
    if "bool" in prims and len(prims) == 1:
        opts.append("maybe")
    return {"j": rng.choice(opts)} if opts else None


def break_field(rng, cls, fname):
    """An illegal node for one field, or None."""
    d = SHAPE[cls]["fields"][fname]
    r = FIELD_RULES.get((cls, fname))
    if r and rng.random() < 0.6:
        return {"j": rng.choice(r[1])}
    if is_open(d["type"]) and not models_in(d["type"]):
        return None
    b = bad_scalar(rng, d["type"], d.get("c"))
    if b is not None and not field_bad(cls, fname, b):
        return None
    return b


def field_bad(cls, fname, n):
    d = SHAPE[cls]["fields"][fname]
    if not fits(n, d["type"], d.get("c")):
        return True
    r = FIELD_RULES.get((cls, fname))
    return bool(r and any(type(b) is type(n["j"]) and b == n["j"] for b in r[1]))


# ------------------------------------------------------------------ interruptions
def gen_fault(rng, reach, places=60):
    """An interruption at the n-th event, or at the n-th place the operation comes to for the first time."""
    kind = rng.choice(["kbd", "mem", "rec", "cut"])
    if rng.random() < 0.5:
        return [kind, max(1, int(places ** rng.random())), "p"]
    return [kind, rng.choice(reach)]
