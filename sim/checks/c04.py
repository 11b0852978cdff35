"""C04: a validated document never has a dangling or mistyped reference."""
import random

from .. import real
from ..docs import (HOMES, KINDS, LOCATIONS, PARTS, blank_doc, canon, canon_live, home_ref, find_refs, home_steps, nicknames, plain, plant, pretty, put_home,
                    ref_node, siblings, spell, targets, verdict)
from ..engine import MON
from ..model import GOOD_KEYS, NONE, SHAPE, Gen, clone, fields, gen_fault, get, node_ok, put
from .base import Check, EndRun, Violation
from .c02 import first

EXTERNAL = ["https://example.com/a/", "https://example.com//a#/b/", "https://example.com/r.json", "http://h.example/x#/components/schemas/a", "https://example.com/#/channels/a"]
BROKEN = ["#/components/schemas/none", "#/channels/none", "#/components/nothing/a", "#/nothing", "#/info/title",
          "#/components", "#/components/schemas", "#/servers", "#/asyncapi", "#/info", "#/components/messages/none/payload",
          "#/components/tags/http://x", "#/components/schemas/https://example.com/a", "x#http://a", "ftp://h.example/x", "file:///x.json",
          "urn:a:b", "httpx://a/b", "./f.json#/a", "a.yaml", "", "#", "components/schemas/a",
          "#/components/schemas/a?b", "#/components/schemas/*", "#/channels/*"]
ROOT_FIELDS = ["channels", "components", "operations", "servers", "info", "id", "default_content_type"]


def good_key(rng, pool):
    return rng.choice(pool)


ALIKE = {}
for _s, _k in LOCATIONS:
    ALIKE.setdefault(_s[-1][1] if len(_s[-1]) > 1 else "", []).append((_s, _k))


class C04(Check):
    ID = "C04"
    RUNS = {"quick": 4500, "thorough": 60000}
    CROWDS = [*range(PARTS)]

    def ready(self):
        for part in self.CROWDS:
            canon_live(part)

    # ---------------------------------------------------------------- planning
    def document(self, rng, loc, nrefs, mood):
        """A document with references; mood is the chance that each one is fine."""
        pool = rng.sample(GOOD_KEYS, rng.choice([2, 4, 8]))
        g = plain(rng, pool)
        doc = blank_doc(g)
        for kind in rng.sample(KINDS, rng.choice([0, 1, 3, 6])):
            doc = put_home(g, doc, kind, rng.choice(pool))
        spots = []
        for j in range(nrefs):
            steps, kinds = LOCATIONS[loc] if j == 0 else rng.choice(LOCATIONS)
            if j and rng.random() < 0.3:
                # a place that looks like the first one but may require another kind
                steps, kinds = rng.choice(ALIKE[LOCATIONS[loc][0][-1][1] if len(LOCATIONS[loc][0][-1]) > 1 else ""])
            doc, path = plant(g, doc, {"model": "AsyncAPI3"}, steps, ref_node("https://example.com/r.json"))
            spots.append((path, kinds))
        siblings(g, doc, spots)
        used = []
        for path, kinds in spots:
            if get(doc, path) is None or get(doc, path).get("m") != "Reference":
                continue
            fine = rng.random() < mood
            again = [s for s, ks in used if not fine or any(k in kinds for k in ks)]
            if again and rng.random() < 0.35:
                s = rng.choice(again)
            else:
                s, doc = self.aim(rng, g, doc, path, kinds, pool, fine)
            used.append((s, kinds))
            if get(doc, path) is not None and get(doc, path).get("m") == "Reference":
                get(doc, path)["f"]["ref"]["j"] = s
        # anything else that had to be made up points outside
        planted = {str(p) for p, _ in spots}
        for path, ref, kinds in find_refs(doc):
            if str(path) not in planted and ref in ("#/components/schemas/a", "#/channels/a"):
                get(doc, path)["f"]["ref"]["j"] = "https://example.com/c.json"
        return doc, pool

    def aim(self, rng, g, doc, path, kinds, pool, fine):
        """A reference string for the slot at path, adding what it needs to the document."""
        kind = rng.choice(kinds)
        x = rng.random()
        if fine:
            if x < 0.12:
                return rng.choice(EXTERNAL), doc
            if x < 0.45:
                ts = [p for p, c in targets(doc) if c in kinds and p != path and p != path[:len(p)]]
                if ts:
                    return spell(doc, rng.choice(ts), rng, 0.3), doc
            if x < 0.75:
                key = rng.choice(pool)
                if get(doc, [["f", "components"], ["f", HOMES[kind]], ["k", key]]) is None:
                    doc = put_home(g, doc, kind, key)
                return spell(doc, [["f", "components"], ["f", HOMES[kind]], ["k", key]], rng, 0.2), doc
            return self.chain(rng, g, doc, kind, pool, path, rng.choice([1, 1, 2, 3, 6]), rng.choice(["end", "end", "out", "over"]))
        if x < 0.2:
            return rng.choice(BROKEN), doc
        if x < 0.25:
            near = nicknames(doc, kind)
            if near:
                return spell(doc, [["f", "components"], ["f", HOMES[kind]]]) + "/" + rng.choice(near), doc
        if x < 0.45:
            ts = [p for p, c in targets(doc) if c not in kinds]
            if ts:
                return spell(doc, rng.choice(ts), rng, 0.2), doc
        if x < 0.6:
            other = rng.choice([k for k in KINDS if k not in kinds])
            key = rng.choice(pool)
            if get(doc, [["f", "components"], ["f", HOMES[other]], ["k", key]]) is None:
                doc = put_home(g, doc, other, key)
            return spell(doc, [["f", "components"], ["f", HOMES[other]], ["k", key]]), doc
        if x < 0.7:
            return spell(doc, path) if all(s in ("f", "k") for s, _ in path) else "#/" + "channels/nope", doc
        if x < 0.8:
            # a near miss: an existing target with one part changed
            ts = [p for p, c in targets(doc) if c in kinds]
            if ts:
                s = spell(doc, rng.choice(ts))
                y = rng.random()
                if y < 0.3:
                    return s + rng.choice(["x", "/x", "_"]), doc
                if y < 0.55:
                    # the parts are names, and names are told apart by case
                    parts = s.split("/")
                    j = rng.randrange(1, len(parts))
                    parts[j] = rng.choice([parts[j].swapcase(), parts[j].capitalize(), parts[j].upper(), parts[j].lower()])
                    return "/".join(parts), doc
                if y < 0.8:
                    # positions and patterns are no names of entries
                    return s.rpartition("/")[0] + "/" + rng.choice(["0", "0", "1", "-1", "-", "[0]", "00", "*"]), doc
                return s.replace("/components/", "/component/", 1) if "/components/" in s else s.upper(), doc
        return self.chain(rng, g, doc, kind, pool, path, rng.choice([1, 2, 3, 5]), rng.choice(["cycle", "gap", "wrong", "over-gap"]))

    def chain(self, rng, g, doc, kind, pool, path, n, end):
        """Hops of references in the kind's components collection."""
        home = [["f", "components"], ["f", HOMES[kind]]]
        keys = [f"h{j}" for j in range(n)] + ["hz"]
        for j in range(n):
            nxt = keys[j + 1]
            if j == n - 1:
                if end == "cycle":
                    nxt = keys[rng.randrange(n)] if rng.random() < 0.7 else keys[0]
                elif end == "gap":
                    nxt = "gone"
            alias = SHAPE["Components"]["fields"][HOMES[kind]]["alias"]
            to = f"#/components/{alias}/{nxt}"
            if j == n - 1 and end == "wrong":
                to = "#/info"
            if j == n - 1 and end == "out":
                to = rng.choice(EXTERNAL)
            if j == n - 1 and end.startswith("over"):
                # the last hop leads to another part of the document, through one more hop there at times
                to, doc = self.over(rng, g, doc, kind, end == "over")
            doc, _ = plant(g, doc, {"model": "AsyncAPI3"}, home + [["k", keys[j]]], ref_node(to))
        if end == "end":
            doc = put_home(g, doc, kind, "hz")
        alias = SHAPE["Components"]["fields"][HOMES[kind]]["alias"]
        return f"#/components/{alias}/{keys[0]}", doc

    def over(self, rng, g, doc, kind, fine):
        """A reference to an object of the kind outside its home in the components, or to nothing there."""
        places = [st for st, ks in LOCATIONS if kind in ks and st[-1][0] == "k" and st[0] != ["f", "components"]]
        ts = [q for q, c in targets(doc) if c == kind and q[0] != ["f", "components"]]
        if places and rng.random() < 0.6:
            to = rng.choice(EXTERNAL)
            if ts and fine and rng.random() < 0.6:
                to = spell(doc, rng.choice(ts))
            if not fine:
                to = rng.choice(BROKEN)
            doc, at = plant(g, doc, {"model": "AsyncAPI3"}, rng.choice(places), ref_node(to))
            return spell(doc, at), doc
        if ts and fine:
            return spell(doc, rng.choice(ts)), doc
        return (rng.choice(EXTERNAL) if fine else "#/channels/gone"), doc

    def one(self, rng, loc, nops, threads=False):
        mood = rng.choice([1.0, 1.0, 0.9, 0.6, 0.0])
        doc, pool = self.document(rng, loc, rng.choice([1, 1, 2, 3, 5]), mood)
        ops = []
        cur = clone(doc)
        g = plain(rng, pool)
        for _ in range(nops):
            op = self.op(rng, g, cur, pool)
            if op is None:
                continue
            if not threads:
                x = rng.random()
                if x < 0.1 and op["t"] in ("root", "again", "validate"):
                    op["fault"] = gen_fault(rng, [3, 10, 30, 100, 300, 1000, 5000, 30000], 300)
            ops.append(op)
            new = self.after(cur, op)
            if new is not None:
                cur = new
        return {"init": doc, "ops": ops, "make": rng.choice(["kwargs", "builder", "data", "builder-data"]), "spread": rng.random() < 0.5}

    def op(self, rng, g, cur, pool):
        x = rng.random()
        refs = find_refs(cur)
        if x < 0.25 and refs:
            # repoint one reference in place
            path, ref, kinds = rng.choice(refs)
            s, new = self.aim(rng, g, clone(cur), path, kinds, pool, rng.random() < 0.5)
            if rng.random() < 0.5 or new != cur:
                return {"t": "repoint", "p": path, "v": s}
            return {"t": "repoint", "p": path, "v": s}
        if x < 0.4:
            # remove an entry that may be a target
            maps = [(p, n) for p, n in self.maps(cur) if n["d"]]
            if maps:
                p, n = rng.choice(maps)
                return {"t": "drop", "p": p, "k": rng.choice(n["d"])[0]}
        if x < 0.52:
            kind = rng.choice(KINDS)
            key = rng.choice(pool + ["hz", "gone", "none"])
            n = put_home(g, blank_doc(g), kind, key)
            return {"t": "add", "kind": kind, "k": key,
                    "v": get(n, [["f", "components"], ["f", HOMES[kind]], ["k", key]])}
        if x < 0.6 and refs:
            a = rng.choice(refs)
            lists = [(p, k) for p, r_, k in refs if p[-1][0] == "i"]
            if lists:
                b = rng.choice(lists)
                return {"t": "share", "p": a[0], "to": b[0][:-1]}
        if x < 0.8:
            f = rng.choice(ROOT_FIELDS)
            new = clone(cur)
            if f in ("id", "default_content_type"):
                return {"t": "root", "k": f, "v": {"j": "urn:example:svc" if f == "id" else "a/b"}}
            if f == "info":
                return {"t": "root", "k": f, "v": g.obj("Info", 0)}
            if rng.random() < 0.5:
                steps, kinds = rng.choice([l for l in LOCATIONS if l[0][0] == ["f", f]])
                new, path = plant(g, new, {"model": "AsyncAPI3"}, steps, ref_node("https://example.com/r.json"))
                s, new = self.aim(rng, g, new, path, kinds, pool, rng.random() < 0.6)
                n = get(new, path)
                if n is not None and n.get("m") == "Reference":
                    n["f"]["ref"]["j"] = s
            elif new["f"][f] != NONE and rng.random() < 0.5:
                new["f"][f] = dict(NONE)
            return {"t": "root", "k": f, "v": new["f"][f]}
        return {"t": rng.choice(["again", "again", "validate", "ext", "hollow"]), "s": rng.randrange(1 << 20)}

    def maps(self, doc):
        from ..model import walk
        return [(p, n) for p, n, _ in walk(doc) if "M" in n]

    def after(self, cur, op):
        """The document after an operation, as far as planning needs to know."""
        new = clone(cur)
        t = op["t"]
        if t == "repoint":
            n = get(new, op["p"])
            if n is not None and n.get("m") == "Reference":
                n["f"]["ref"]["j"] = op["v"]
        elif t == "drop":
            n = get(new, op["p"])
            if n is not None and "M" in n:
                n["d"] = [e for e in n["d"] if e[0] != op["k"]]
        elif t == "root":
            new["f"][op["k"]] = clone(op["v"])
            if verdict(new)[0] is not True:
                return None
        else:
            return None
        return new

    def plan(self, rng, i, tier):
        loc = i % len(LOCATIONS)
        x = rng.random()
        p = {"check": self.ID, "focus": [loc]}
        if (i // len(LOCATIONS)) % 8 == 1:
            p["table"] = {"docs": self.table(rng, loc), "vals": ["Unified"], "how": rng.choice(["inst", "alias"])}
            p["clients"] = []
            return p
        if x < 0.12:
            p["clients"] = [self.one(rng, loc if j == 0 else rng.randrange(len(LOCATIONS)), rng.choice([1, 2, 3]), True)
                            for j in range(rng.choice([2, 2, 3]))]
            if rng.random() < 0.4:
                # all of them work on documents of the same content
                p["clients"] = [p["clients"][0]] + [clone(p["clients"][0]) for _ in p["clients"][1:]]
            p["sched"] = gen_sched(rng)
            p["fine"] = rng.random() < 0.1
            return p
        if x < 0.15:
            kind = rng.choice(KINDS)
            p.update(long=[kind, rng.choice([30, 60, 90, 120, 180, 260]), rng.choice(["end", "end", "cycle", "gap"]), rng.choice([70, 80, 100])])
            p["clients"] = []
            return p
        if x < 0.22:
            p["crowd"] = self.crowd(rng, i)
            p["clients"] = []
            return p
        if x < 0.25:
            p["churn"] = self.churn(rng, loc)
            p["clients"] = []
            if p["churn"]["alt"]:
                return p
            del p["churn"]
        p["clients"] = [self.one(rng, loc, rng.choice([0, 1, 2, 4, 7]))]
        return p

    def table(self, rng, loc):
        """One document for every kind of object that the reference at one place may lead to."""
        steps, kinds = LOCATIONS[loc]
        g = plain(rng, ["a", "b"])
        base, path = plant(g, blank_doc(g), {"model": "AsyncAPI3"}, steps, ref_node("https://example.com/r.json"))
        out = []
        for kind in KINDS:
            key = rng.choice(["a", "b"])
            n = put_home(g, clone(base), kind, key)
            home = [["f", "components"], ["f", HOMES[kind]], ["k"]]
            if get(n, path) is None or get(n, path).get("m") != "Reference":
                continue
            if rng.random() < 0.2 and path[:2] != home[:2]:
                n, _ = plant(g, n, {"model": "AsyncAPI3"}, home[:2] + [["k", "h0"]], ref_node(spell(n, home[:2] + [["k", key]])))
                key = "h0"
            get(n, path)["f"]["ref"]["j"] = spell(n, home[:2] + [["k", key]])
            out.append(n)
        return out

    def tabled(self, run):
        c = run.plan["table"]
        A = real.CLS["AsyncAPI3"]
        MON.pause()
        vals = self.live(c["vals"])
        for j, n in enumerate(c["docs"]):
            if not node_ok(n):
                continue
            k, kw = real.call(lambda: {f: real.arg(x, c["how"]) for f, x in n["f"].items()
                                       if x != {"j": SHAPE["AsyncAPI3"]["fields"][f].get("default")}})
            if k == "ok":
                got, val, _ = run.op(lambda: A(**kw, extra_validators=vals))
                run.count("place and kind pairs")
                self.judge(run, n, got, val, f"document {j} of a table of kinds", vals)

    def churn(self, rng, loc):
        """Documents of the same make, built and given up in turn, that differ in one entry or one reference."""
        for _ in range(5):
            c = self.one(rng, loc, 0)
            base = c["init"]
            out = []
            if not node_ok(base):
                continue
            refs = [q for q, r, _ in find_refs(base) if r.startswith("#/")]
            maps = [(q, n) for q, n in self.maps(base) if n["d"]]
            for _ in range(rng.choice([1, 1, 2])):
                new = clone(base)
                if refs and rng.random() < 0.3:
                    get(new, rng.choice(refs))["f"]["ref"]["j"] = rng.choice(BROKEN)
                elif maps:
                    e = rng.choice(get(new, rng.choice(maps)[0])["d"])
                    e[0] = rng.choice([k for k in GOOD_KEYS + ["h1", "hz"] if k != e[0]])
                else:
                    continue
                if node_ok(new) and new != base and self.verdict(new, self.live(c.get("vals", ["Unified"])))[0] is not None:
                    out.append(new)
            if out:
                break
        return {"init": base, "alt": out, "vals": c.get("vals", ["Unified"]), "n": rng.choice([6, 12, 20]),
                "how": rng.choice(["inst", "alias", "builder"])}

    def shrink(self, plan):
        t = plan.get("table")
        if t and len(t["docs"]) > 1:
            for n in t["docs"]:
                yield dict(plan, table=dict(t, docs=[n]))
        c = plan.get("churn")
        if c:
            for alt in ([c["alt"][:1], c["alt"][1:]] if len(c["alt"]) > 1 else []):
                yield dict(plan, churn=dict(c, alt=alt))
            for n in (2, c["n"] // 2, c["n"] - 1):
                if 1 < n < c["n"]:
                    yield dict(plan, churn=dict(c, n=n))
        yield from Check.shrink(self, plan)

    def churned(self, run):
        c = run.plan["churn"]
        A = real.CLS["AsyncAPI3"]
        MON.pause()
        vals = self.live(c["vals"])
        docs = [c["init"], *c["alt"]]
        for j in range(c["n"]):
            n = docs[j % len(docs)]
            k, kw = real.call(lambda: {f: real.arg(x, "alias" if c["how"] == "alias" else "inst") for f, x in n["f"].items()
                                       if x != {"j": SHAPE["AsyncAPI3"]["fields"][f].get("default")}})
            if k != "ok":
                return
            got, val = real.call(lambda: type((A.as_builder if c["how"] == "builder" else A)(**kw, extra_validators=vals)))
            run.count("documents built and given up")
            self.judge(run, n, got, val, f"document {j} of {c['n']} built and given up in turn", vals)
            del kw, val

    def crowd(self, rng, i):
        """A document with sound references everywhere, one or none of them led astray."""
        return {"part": rng.randrange(PARTS), "wrong": i if rng.random() < 0.85 else None, "vals": ["Unified"],
                "s": rng.choice(["kind", "gap", "cycle", "shape"]), "to": rng.randrange(50), "how": rng.choice(["build", "assign", "switch"])}

    def crowded(self, run):
        """Judge one document in which everything is referenced everywhere."""
        c = run.plan["crowd"]
        node, spots = canon(c["part"])
        o = canon_live(c["part"])
        node = clone(node)
        path = None
        if c["wrong"] is not None:
            path, kinds = spots[c["wrong"] % len(spots)]
            others = [k for k in sorted(HOMES) if k not in kinds]
            ref = {"kind": home_ref(others[c["to"] % len(others)]), "gap": home_ref(kinds[0], "nowhere"),
                   "cycle": spell(node, path) if all(s in ("f", "k") for s, _ in path) else "#/components/tags/none",
                   "shape": BROKEN[c["to"] % len(BROKEN)]}[c["s"]]
            get(node, path)["f"]["ref"]["j"] = ref
        A = real.CLS["AsyncAPI3"]
        kw = {k: v for k, v in o.__dict__.items() if k in fields("AsyncAPI3") and v is not None}
        vals = self.live(c["vals"])
        if c["how"] == "build":
            if path:
                real.at(o, path).__dict__["ref"] = ref
            fire = lambda: A(**kw, extra_validators=vals)
        else:
            doc = A(**kw, **({} if c["how"] == "switch" else {"extra_validators": vals}))
            if path:
                real.at(doc, path).ref = ref
            if c["how"] == "switch":
                fire = lambda: setattr(doc, "extra_validators", vals)
            else:
                fire = lambda: setattr(doc, "id", "urn:example:svc")
                node["f"]["id"] = {"j": "urn:example:svc"}
        MON.pause()
        got, val, _ = run.op(fire)
        run.count("crowded documents")
        self.judge(run, node, got, val, f"a document with {len(spots)} references, {c['how']}", vals)

    # ---------------------------------------------------------------- running
    def run(self, run, phase, carry):
        p = run.plan
        if "long" in p:
            return self.long(run)
        if "crowd" in p:
            return self.crowded(run)
        if "table" in p:
            return self.tabled(run)
        if p.get("churn"):
            return self.churned(run)
        cs = p["clients"]
        if len(cs) == 1:
            return self.client(run, cs[0], 0)
        run.clients([(lambda c=c, j=j: self.client(run, c, j)) for j, c in enumerate(cs)], p["sched"])

    def client(self, run, c, who):
        node = c["init"]
        if not node_ok(node):
            raise EndRun("planned document breaks other rules")
        vals = self.live(c.get("vals", ["Unified"]))
        prep = {"kwargs": "inst", "builder": "inst", "data": "alias", "builder-data": "name"}[c["make"]]
        k, kw = real.call(lambda: {f: real.arg(x, prep) for f, x in node["f"].items()
                                   if c["make"].startswith("builder") or x != {"j": SHAPE["AsyncAPI3"]["fields"][f].get("default")}})
        if k != "ok":
            raise EndRun("parts refused")
        A = real.CLS["AsyncAPI3"]
        kw.update(node["x"])
        fire = None
        if c["make"].startswith("builder"):
            if c.get("vals"):
                kw["extra_validators"] = vals
            if c.get("spread"):
                k, spread = real.call(real.spread, node, prep, kw)
                if k == "ok":
                    fire = lambda: A.as_builder(**spread)
            fire = fire or (lambda: A.as_builder(**kw))
        elif c["make"] == "kwargs":
            fire = lambda: A(**kw, extra_validators=vals)
        else:
            fire = lambda: A.model_validate(dict(kw, extra_validators=vals))
        got, val, _ = run.op(fire)
        self.judge(run, node, got, val, f"client {who}: building the document", vals)
        if got != "ok":
            # build it without the validator, then switch the validator on by assignment
            for f in kw:
                kw[f] = real.arg(node["f"][f], prep) if f in node["f"] else kw[f]
            kw.pop("extra_validators", None)
            k, doc = real.call(lambda: A(**{f: v for f, v in kw.items() if v is not None}))
            if k != "ok":
                raise EndRun("document refused without the validator")
            before = real.norm_free(real.observe(doc))
            got, val, _ = run.op(lambda: setattr(doc, "extra_validators", list(vals)))
            self.judge(run, before, got, val, f"client {who}: switching the reference validator on", vals)
            doc.__dict__["extra_validators"] = list(vals)
        else:
            doc = val
        for j, op in enumerate(c["ops"]):
            self.step(run, doc, op, f"client {who} step {j}", A)

    def step(self, run, doc, op, where, A):
        cur = real.norm_free(real.observe(doc))
        t = op["t"]
        if t == "repoint":
            n = get(cur, op["p"])
            if n is not None and n.get("m") == "Reference":
                real.call(setattr, real.at(doc, op["p"]), "ref", op["v"])
            return
        if t == "drop":
            n = get(cur, op["p"])
            if n is not None and "M" in n and op["k"] in [k for k, _ in n["d"]]:
                real.call(real.at(doc, op["p"]).__delitem__, op["k"])
            return
        if t == "add":
            k, v = real.call(real.to_real, op["v"])
            if k == "ok" and doc.components is not None:
                f = HOMES[op["kind"]]
                m = getattr(doc.components, f)
                if m is None:
                    real.call(setattr, doc.components, f, {op["k"]: v})
                else:
                    real.call(m.__setitem__, op["k"], v)
            return
        if t == "hollow":
            # parts made without validation may not say which of their fields were set
            from .c07 import all_parts
            rng = random.Random(op["s"])
            for part in all_parts(doc):
                if part is not doc and rng.random() < 0.5:
                    object.__setattr__(part, "__pydantic_fields_set__", set())
            return
        if t == "share":
            a, b = get(cur, op["p"]), get(cur, op["to"])
            if a is not None and a.get("m") == "Reference" and b is not None and "l" in b:
                real.at(doc, op["to"]).append(real.at(doc, op["p"]))
                run.count("shared reference objects")
            return
        where = f"{where} ({t})"
        vals = list(doc.extra_validators or [])
        if t == "vals":
            vals = self.live(op["v"])
            want = cur
            where += f" doc.extra_validators = {op['v']}"
            fire = lambda: setattr(doc, "extra_validators", vals)
        elif t == "root":
            k, v = real.call(real.to_real, op["v"])
            if k != "ok":
                return
            want = clone(cur)
            want["f"][op["k"]] = clone(op["v"])
            if not node_ok(want):
                return
            where += f" doc.{op['k']} = ..."
            fire = lambda: setattr(doc, op["k"], v)
        elif t == "again":
            want = cur
            k = next((f for f in ("components", "channels", "operations", "info") if cur["f"][f] != NONE), "info")
            where += f" doc.{k} = doc.{k}"
            fire = lambda: setattr(doc, k, getattr(doc, k))
        elif t == "ext":
            want = clone(cur)
            want["x"]["x-t"] = 1
            fire = lambda: setattr(doc, "x-t", 1)
        else:
            want = cur
            fire = lambda: A.model_validate(doc)
        got, val, task = run.op(fire, op.get("fault"))
        if task.fired is not None:
            run.log(where, "cut")
            got, val, task = run.op(fire)
            where += " after an interrupted attempt"
        self.judge(run, want, got, val, where, vals)
        run.state(real.sig(real.observe(doc)))

    def live(self, names):
        return [getattr(real.asyncapi3.validators, n + ("ReferencesValidator" if n == "Unified" else "RefValidator"))
                for n in names]

    def verdict(self, content, vals):
        return verdict(content)

    def judge(self, run, content, got, val, where, vals=None):
        ok, why = self.verdict(content, vals)
        run.log(where, ok, got, real.sig(content))
        run.count(f"verdict:{ok}:{got}")
        if ok is None:
            return
        if ok and got != "ok":
            raise Violation("refused", f"{where}: every reference resolves to what its place requires, but the document "
                            f"is refused with {type(val).__name__}: {first(val)}")
        if not ok and got == "ok":
            raise Violation("accepted", f"{where}: accepted although {why}")
        if not ok and got != "invalid":
            raise Violation("no-verdict", f"{where}: {why}; instead of a validation error: {type(val).__name__}: {first(val)}")

    def long(self, run):
        """Chains far longer than the call stack that is left."""
        kind, n, end, room = run.plan["long"]
        rng = random.Random(n)
        g = plain(rng, ["a", "b"])
        _, doc = self.chain(rng, g, blank_doc(g), kind, ["a"], None, n, end)
        k, kw = real.call(lambda: {f: real.arg(x, "inst") for f, x in doc["f"].items() if x != NONE})
        U = real.asyncapi3.validators.UnifiedReferencesValidator
        got, val = run.squeeze(lambda: real.CLS["AsyncAPI3"](**kw, extra_validators=[U]), room)
        run.count("long chains")
        self.judge(run, doc, got, val, f"chain of {n} references ending in {end} with {room} stack frames")


def gen_sched(rng):
    n = rng.choice([1, 2, 3, 5, 8, 13, 30, 60])
    top = rng.choice([3, 10, 40, 150, 500])
    return [[rng.randint(1, top), rng.randrange(4)] for _ in range(n)]


CHECK = C04()
