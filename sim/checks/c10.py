"""C10: the dedicated tag and external-docs validators check every documented place."""
from ..docs import (HOMES, KINDS, LOCATIONS, blank_doc, canon, find_refs, nicknames, plain, plant, pretty, put_home, ref_node, siblings,
                    spell, targets, verdict)
from ..model import GOOD_KEYS, NONE, SHAPE, clone, gen_fault, get
from .base import EndRun
from .c04 import BROKEN, C04, EXTERNAL, ROOT_FIELDS, gen_sched

# docs/extra_validators/references.md
TAGS = """info.tags[] servers[].tags[] channels[].tags[] channels[].messages[].tags[] operations[].tags[]
 components.messages[].tags[] components.channels[].tags[] components.channels[].messages[].tags[]
 components.operations[].tags[] components.servers[].tags[] components.operation_traits[].tags[]
 components.message_traits[].tags[] components.tags[] channels[].messages[].traits[].tags[]
 operations[].traits[].tags[] components.channels[].messages[].traits[].tags[]
 components.operations[].traits[].tags[] components.messages[].traits[].tags[]""".split()
DOCS = """info.external_docs info.tags[].external_docs servers[].external_docs channels[].external_docs
 channels[].messages[].external_docs channels[].messages[].traits[].external_docs
 channels[].messages[].traits[].tags[].external_docs operations[].external_docs operations[].traits[].external_docs
 operations[].traits[].tags[].external_docs components.schemas[].external_docs components.servers[].external_docs
 components.channels[].external_docs components.channels[].messages[].external_docs
 components.channels[].messages[].traits[].external_docs
 components.channels[].messages[].traits[].tags[].external_docs components.operations[].external_docs
 components.operations[].traits[].external_docs components.operations[].traits[].tags[].external_docs
 components.messages[].external_docs components.messages[].traits[].external_docs
 components.messages[].traits[].tags[].external_docs components.tags[].external_docs
 components.operation_traits[].external_docs components.message_traits[].external_docs components.external_docs[]"""
# documented by the validator's own methods
DOCS += """ channels[].messages[].headers.external_docs channels[].messages[].payload.external_docs
 channels[].messages[].tags[].external_docs channels[].messages[].traits[].headers.external_docs
 operations[].tags[].external_docs components.messages[].headers.external_docs
 components.messages[].payload.external_docs components.message_traits[].headers.external_docs"""
DOCS = DOCS.split()
WHAT = {"Tag": ("Tags", "#/components/tags/", "tags"),
        "ExternalDocumentation": ("ExternalDocs", "#/components/externalDocs/", "external_docs")}


def pattern(path):
    return "".join("." + p[1] if p[0] == "f" else "[]" for p in path)[1:]


PLACES = {"Tag": [], "ExternalDocumentation": []}
OTHER = {"Tag": [], "ExternalDocumentation": []}
for _i, (_s, _k) in enumerate(LOCATIONS):
    if len(_k) == 1 and _k[0] in PLACES:
        (PLACES if pattern(_s) in (TAGS if _k[0] == "Tag" else DOCS) else OTHER)[_k[0]].append(_i)
assert (len(PLACES["Tag"]), len(PLACES["ExternalDocumentation"])) == (len(TAGS), len(DOCS))
FOCUS = PLACES["Tag"] + PLACES["ExternalDocumentation"]
OUTSIDE = EXTERNAL + ["./tags.yaml#/t", "tags.json", "x#/components/tags/a", "file:///t", "urn:x", "components/tags/a"]


def has(doc, field, key):
    m = get(doc, [["f", "components"], ["f", field]])
    return m is not None and "M" in m and any(k == key for k, _ in m["d"])


def own_verdict(doc, kind):
    name, prefix, field = WHAT[kind]
    unclear = None
    for path, ref, kinds in find_refs(doc):
        if kinds != [kind] or not ref.startswith("#"):
            continue
        if ref.startswith(prefix) and has(doc, field, ref[len(prefix):]):
            continue
        why = f"{pretty(path)} -> {ref!r}"
        if pattern(path) in (TAGS if kind == "Tag" else DOCS):
            return False, why + f" names no entry of components.{field}"
        unclear = why + " (place not documented)"
    return (True, None) if unclear is None else (None, unclear)


class C10(C04):
    ID = "C10"
    CROWDS = [None]
    RUNS = {"quick": 7500, "thorough": 100000}

    def verdict(self, content, vals):
        unclear = None
        for v in vals:
            n = v.__name__
            ok, why = verdict(content) if n.startswith("Unified") else own_verdict(
                content, "Tag" if n.startswith("Tags") else "ExternalDocumentation") if n[:4] in ("Tags", "Exte") \
                else (None, n)
            if ok is False:
                return ok, f"{why} ({n} is listed)"
            if ok is None:
                unclear = why
        return (True, None) if unclear is None else (None, unclear)

    def document(self, rng, loc, nrefs, mood):
        pool = rng.sample(GOOD_KEYS, rng.choice([2, 4, 8]))
        g = plain(rng, pool)
        doc = blank_doc(g)
        for kind in rng.sample(KINDS, rng.choice([0, 0, 1, 3])) + rng.choice([[], ["Tag"], ["ExternalDocumentation"],
                                                                             ["Tag", "ExternalDocumentation"]]):
            doc = put_home(g, doc, kind, rng.choice(pool))
        spots = []
        for j in range(nrefs):
            x = rng.random()
            i = loc if j == 0 else rng.choice(FOCUS) if x < 0.6 else \
                rng.choice(OTHER[rng.choice(["ExternalDocumentation"])]) if x < 0.7 else rng.randrange(len(LOCATIONS))
            steps, kinds = LOCATIONS[i]
            doc, path = plant(g, doc, {"model": "AsyncAPI3"}, steps, ref_node("https://example.com/r.json"))
            spots.append((path, kinds))
        siblings(g, doc, spots, 0.2)
        for path, kinds in spots:
            if get(doc, path) is None or get(doc, path).get("m") != "Reference":
                continue
            fine = rng.random() < mood
            s, doc = self.aim(rng, g, doc, path, kinds, pool, fine)
            if get(doc, path) is not None and get(doc, path).get("m") == "Reference":
                get(doc, path)["f"]["ref"]["j"] = s
        return doc, pool

    def aim(self, rng, g, doc, path, kinds, pool, fine):
        if len(kinds) > 1 or kinds[0] not in WHAT:
            # references of other kinds: anything goes
            return rng.choice(OUTSIDE + BROKEN + ["#/components/tags/" + rng.choice(pool)]), doc
        kind = kinds[0]
        name, prefix, field = WHAT[kind]
        key = rng.choice(pool)
        if fine or pattern(path) not in (TAGS if kind == "Tag" else DOCS):
            x = rng.random()
            if x < 0.2:
                return rng.choice(OUTSIDE), doc
            if not has(doc, field, key):
                if x < 0.35:
                    doc, _ = plant(g, doc, {"model": "AsyncAPI3"}, [["f", "components"], ["f", field], ["k", key]],
                                   ref_node(rng.choice([prefix + key, rng.choice(OUTSIDE), prefix + rng.choice(pool)])))
                else:
                    doc = put_home(g, doc, kind, key)
            return prefix + key, doc
        other = [p for k, (_, p, _) in WHAT.items() if k != kind][0]
        if rng.random() < 0.15:
            if not has(doc, field, key):
                doc = put_home(g, doc, kind, key)
            near = nicknames(doc, kind)
            if near:
                return prefix + rng.choice(near), doc
        x = rng.random()
        if x < 0.25:
            doc = put_home(g, doc, "ExternalDocumentation" if kind == "Tag" else "Tag", key)
            return other + key, doc
        if x < 0.45:
            return prefix + rng.choice(["none", "gone", key + "_", key + "/x", key + "/name", key.upper() + "Q", prefix + key, "", "/" + key,
                                        key + "/", "A", "_"]), doc
        if x < 0.6:
            return rng.choice(["#", "#/", "#" + prefix[2:] + key, prefix.upper() + key, "#/" + field + "/" + key,
                               "#/components/" + key, "#/info/tags/0", "#/info/external_docs", "#/tags/" + key, "##" + prefix[1:] + key,
                               "#/components/external_docs/" + key, "#/x" + prefix[1:] + key]), doc
        if x < 0.75:
            # the same key in another collection
            k2 = rng.choice([k for k in KINDS if k != kind])
            doc = put_home(g, doc, k2, key)
            return rng.choice([prefix + key, spell(doc, [["f", "components"], ["f", HOMES[k2]], ["k", key]])]), doc
        if x < 0.85:
            ts = [p for p, c in targets(doc) if c == kind]
            if ts:
                return spell(doc, rng.choice(ts)), doc
        if x < 0.93:
            return rng.choice(BROKEN), doc
        return prefix + key, doc

    def table(self, rng, loc):
        """Every kind of target, the same key elsewhere, and every spelling, for the reference at one place."""
        out = C04.table(self, rng, loc)
        steps, kinds = LOCATIONS[loc]
        g = plain(rng, ["a", "b"])
        base, path = plant(g, blank_doc(g), {"model": "AsyncAPI3"}, steps, ref_node("https://example.com/r.json"))
        prefix = WHAT[kinds[0]][1]
        if get(base, path) is None or get(base, path).get("m") != "Reference":
            return out
        for ref in OUTSIDE + BROKEN + [prefix + "a", prefix + "b", prefix, prefix + "a/b"]:
            n = put_home(g, clone(base), rng.choice([kinds[0], *KINDS]), rng.choice(["a", "c"]))
            if get(n, path) is not None and get(n, path).get("m") == "Reference":
                get(n, path)["f"]["ref"]["j"] = ref
                out.append(n)
        return out

    def vals(self, rng, loc):
        mine = WHAT[LOCATIONS[loc][1][0]][0]
        other = {"Tags": "ExternalDocs", "ExternalDocs": "Tags"}[mine]
        return rng.choice([[mine]] * 5 + [[mine, other], [other, mine], [mine, mine], [mine, "Unified"], ["Unified", mine],
                                          [other], [mine, "Servers"]])

    def one(self, rng, loc, nops, threads=False):
        mood = rng.choice([1.0, 1.0, 0.9, 0.6, 0.0])
        doc, pool = self.document(rng, loc, rng.choice([1, 1, 2, 3, 5]), mood)
        ops, cur, g = [], clone(doc), plain(rng, pool)
        for _ in range(nops):
            op = self.op(rng, g, cur, pool, loc)
            if op is None:
                continue
            if not threads and rng.random() < 0.1 and op["t"] in ("root", "again", "validate", "vals"):
                op["fault"] = gen_fault(rng, [3, 10, 30, 60, 100, 200], 200)
            ops.append(op)
            if op["t"] == "add":
                cur, _ = plant(g, cur, {"model": "AsyncAPI3"}, [["f", "components"], ["f", HOMES[op["kind"]]], ["k", op["k"]]],
                               clone(op["v"]))
                continue
            new = self.after(cur, op)
            if new is not None:
                cur = new
        return {"init": doc, "ops": ops, "make": rng.choice(["kwargs", "builder", "data", "builder-data"]), "spread": rng.random() < 0.5,
                "vals": self.vals(rng, loc)}

    def op(self, rng, g, cur, pool, loc):
        x = rng.random()
        refs = [r for r in find_refs(cur) if len(r[2]) == 1 and r[2][0] in WHAT] or find_refs(cur)
        kind = LOCATIONS[loc][1][0]
        if x < 0.2 and refs:
            path, ref, kinds = rng.choice(refs)
            s, _ = self.aim(rng, g, clone(cur), path, kinds, pool, rng.random() < 0.5)
            return {"t": "repoint", "p": path, "v": s}
        if x < 0.4:
            used = [(HOMES[k[0]], r.rsplit("/", 1)[-1]) for _, r, k in refs if k and k[0] in WHAT]
            used = [u for u in used if has(cur, *u)]
            if used and rng.random() < 0.7:
                f, k = rng.choice(used)
                return {"t": "drop", "p": [["f", "components"], ["f", f]], "k": k}
            maps = [(p, n) for p, n in self.maps(cur) if n["d"]]
            if maps:
                p, n = rng.choice(maps)
                return {"t": "drop", "p": p, "k": rng.choice(n["d"])[0]}
        if x < 0.55:
            k2 = kind if rng.random() < 0.6 else rng.choice(KINDS)
            missing = [r.rsplit("/", 1)[-1] for _, r, k in refs if k == [kind] and not has(cur, HOMES[kind], r.rsplit("/", 1)[-1])]
            from ..model import key_ok
            missing = [k for k in missing if key_ok(k)]
            key = rng.choice(missing) if missing and rng.random() < 0.6 else rng.choice(pool)
            n = put_home(g, blank_doc(g), k2, key)
            return {"t": "add", "kind": k2, "k": key, "v": get(n, [["f", "components"], ["f", HOMES[k2]], ["k", key]])}
        if x < 0.62 and refs:
            lists = [(p, k) for p, r_, k in refs if p[-1][0] == "i"]
            if lists:
                return {"t": "share", "p": rng.choice(refs)[0], "to": rng.choice(lists)[0][:-1]}
        if x < 0.85:
            f = LOCATIONS[loc][0][0][1] if rng.random() < 0.5 else rng.choice(ROOT_FIELDS)
            new = clone(cur)
            if f in ("id", "default_content_type"):
                return {"t": "root", "k": f, "v": {"j": "urn:example:svc" if f == "id" else "a/b"}}
            if rng.random() < 0.6:
                at = [i for i in FOCUS if LOCATIONS[i][0][0] == ["f", f]]
                steps, kinds = LOCATIONS[rng.choice(at)]
                new, path = plant(g, new, {"model": "AsyncAPI3"}, steps, ref_node("https://example.com/r.json"))
                s, new = self.aim(rng, g, new, path, kinds, pool, rng.random() < 0.6)
                n = get(new, path)
                if n is not None and n.get("m") == "Reference":
                    n["f"]["ref"]["j"] = s
            elif f == "info":
                return {"t": "root", "k": f, "v": g.obj("Info", 0)}
            elif new["f"][f] != NONE:
                new["f"][f] = dict(NONE)
            return {"t": "root", "k": f, "v": new["f"][f]}
        if x < 0.9:
            return {"t": "vals", "v": self.vals(rng, loc)}
        return {"t": rng.choice(["again", "again", "validate", "ext", "hollow"]), "s": rng.randrange(1 << 20)}

    def after(self, cur, op):
        if op["t"] == "root":
            new = clone(cur)
            new["f"][op["k"]] = clone(op["v"])
            return new if all(own_verdict(new, k)[0] is True for k in WHAT) else None
        if op["t"] == "share":
            return None
        return C04.after(self, cur, op)

    def plan(self, rng, i, tier):
        loc = FOCUS[i % len(FOCUS)]
        p = {"check": self.ID, "focus": [pattern(LOCATIONS[loc][0])]}
        if (i // len(FOCUS)) % 24 == 1:
            p["table"] = {"docs": self.table(rng, loc), "vals": [WHAT[LOCATIONS[loc][1][0]][0]], "how": rng.choice(["inst", "alias"])}
            p["clients"] = []
            return p
        if rng.random() < 0.12:
            p["clients"] = [self.one(rng, loc if j == 0 else rng.choice(FOCUS), rng.choice([1, 2, 3]), True)
                            for j in range(rng.choice([2, 2, 3]))]
            if rng.random() < 0.4:
                p["clients"] = [p["clients"][0]] + [clone(p["clients"][0]) for _ in p["clients"][1:]]
            p["sched"] = gen_sched(rng)
            p["fine"] = rng.random() < 0.1
            return p
        if rng.random() < 0.1:
            mine = WHAT[LOCATIONS[loc][1][0]][0]
            at = [j for j, (path, kinds) in enumerate(canon()[1]) if kinds == LOCATIONS[loc][1]]
            p["crowd"] = dict(self.crowd(rng, rng.choice(at)), part=None, vals=[mine])
            p["clients"] = []
            return p
        if rng.random() < 0.03:
            p["churn"] = self.churn(rng, loc)
            p["clients"] = []
            if p["churn"]["alt"]:
                return p
            del p["churn"]
        p["clients"] = [self.one(rng, loc, rng.choice([0, 1, 2, 4, 7]))]
        return p


CHECK = C10()
