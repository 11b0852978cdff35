"""C09: keyed collections behave like a dict that only holds legal entries."""
from .. import real
from ..model import BAD_KEYS, GOOD_KEYS, Gen, MAPS, SHAPE, clone, dump, fits, gen_fault, get, key_ok
from ..world import bad_node, break_inside, embed, perform, predict, prepare
from .base import Check, EndRun, Violation, dumps
from .c02 import describe, first


STRANGE = (0, 1, -1, None, True, False, 1.0, b"0", ("a",), frozenset())


class Text(str):
    """A string of a user's own type."""


class C09(Check):
    ID = "C09"
    RUNS = {"quick": 12000, "thorough": 100000}

    def plan(self, rng, i, tier):
        cls = MAPS[i % len(MAPS)]
        keys = rng.sample(GOOD_KEYS + ["1", "-1", "None", "True", "False"], rng.choice([2, 3, 5]))
        g = Gen(rng, budget=8, density=0.15, keys=keys)
        t = SHAPE[cls]["value"]
        n = g.map(cls, 1)
        path = []
        if rng.random() < 0.25:
            n, path = embed(g, n, [], rng.choice([1, 2, 3]))
        ops = []
        for _ in range(rng.choice([1, 2, 4, 7, 12])):
            g.budget = 4
            x = rng.random()
            k = rng.choice(keys)
            how = rng.choice(["inst", "full", "alias", "name"])
            if x < 0.5:
                y = rng.random()
                if y < 0.25:
                    k = rng.choice(BAD_KEYS)
                elif y < 0.3:
                    k = rng.choice([["@", 5], ["@", None], ["@", True]])
                v = g.value(t, None, None, 1)
                if rng.random() < 0.35:
                    b = bad_node(g, t)
                    v = b if b is not None else v
                op = {"t": "item", "k": k, "v": v, "how": how}
            elif x < 0.65:
                op = {"t": "del", "k": k if rng.random() < 0.9 else rng.choice(BAD_KEYS)}
            elif x < 0.75:
                m = g.map(cls, 1)
                if rng.random() < 0.5:
                    b = break_inside(g, m, {"model": cls})
                    m = b if b is not None else m
                op = {"t": "root", "v": m, "how": how}
            else:
                op = {"t": rng.choice(["get", "has", "len", "iter", "items"]),
                      "k": k if rng.random() < 0.7 else rng.choice([k.upper(), k.lower(), k.swapcase(), k + " ", k.strip("-_"), k[:-1]])}
            op["p"] = path
            y = rng.random()
            if op["t"] in ("item", "del", "root"):
                if y < 0.2:
                    op["fault"] = gen_fault(rng, [1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30], 40)
                elif y < 0.26:
                    op["room"] = rng.randint(1, 14)
            ops.append(op)
        return {"check": self.ID, "focus": [cls], "init": n, "path": path, "ops": ops,
                "style": rng.choice(["inst", "full", "alias", "name", "json"]), "fine": rng.random() < 0.25}

    def run(self, run, phase, carry):
        p = run.plan
        node, path = p["init"], p["path"]
        k, obj = real.call(real.build, node, p["style"])
        if k != "ok":
            raise EndRun("initial object refused")
        self.audit(run, obj, path, node, "after building")
        for j, op in enumerate(p["ops"]):
            if get(node, path) is None:
                raise EndRun("path lost")
            m = get(node, path)
            o = real.at(obj, path)
            t = op["t"]
            run.count("op:" + t)
            if t in ("get", "has", "len", "iter", "items"):
                self.read(run, o, m, op, j)
                continue
            where = f"step {j}: {t} {m['M']}[{op.get('k')!r}] {real.short(dump(op['v']), 140) if 'v' in op else ''}"
            key = op.get("k")
            if isinstance(key, list):
                op = dict(op, k=key[1])
            want, new = self.predict(node, op)
            if want == "skip":
                continue
            ck, a = real.call(prepare, real, op, want == "ok")
            if ck != "ok":
                if want == "ok":
                    raise EndRun("value refused before the edit")
                continue
            fire = lambda: perform(o, op, a)
            cut = False
            if "room" in op:
                got, val = run.squeeze(fire, op["room"])
                cut = got != "ok"
            else:
                got, val, task = run.op(fire, op.get("fault"))
                cut = task.fired is not None
            now = real.observe(obj)
            run.log(j, t, key, want, got, type(val).__name__, real.sig(now))
            run.state(real.sig(now))
            if got == "ok":
                if want != "ok":
                    raise Violation("accepted", f"{where}: {'an illegal key or entry was accepted' if want == 'invalid' else 'deleting a missing key succeeded'}; "
                                    f"collection is now {real.short(now, 260)}")
                if not real.equal(now, new):
                    raise Violation("content", f"{where}: not what a dict would hold afterwards: {real.diff(now, new)}")
                node = new
            else:
                if want == "ok" and not cut:
                    raise Violation("refused", f"{where}: a legal operation failed with {type(val).__name__}: {first(val)}")
                if want == "missing" and not cut and not isinstance(val, KeyError):
                    raise Violation("wrong-error", f"{where}: missing key raised {type(val).__name__}, a dict raises KeyError")
                if want == "invalid" and not cut and got != "invalid":
                    raise Violation("wrong-error", f"{where}: rejected with {type(val).__name__} instead of a validation error")
                if not real.equal(now, node):
                    if not (cut and new is not None and real.equal(now, new)):
                        raise Violation("changed-by-failure", f"{where} failed with {type(val).__name__} but changed the "
                                        f"collection: {real.diff(now, node)}")
                    node = new
            self.audit(run, obj, path, node, where)

    def predict(self, node, op):
        want, new = predict(node, op)
        if want == "ok" and op["p"]:
            from ..model import node_ok
            if not node_ok(new):
                return "skip", None
        return want, new

    def read(self, run, o, m, op, j):
        k = op["k"]
        d = dict((a, b) for a, b in m["d"])
        t = op["t"]
        where = f"step {j}: {t} {m['M']}"
        if t == "get":
            for kk in STRANGE:
                kind, v, _ = run.op(lambda: o[kk])
                if kind == "ok" or not isinstance(v, KeyError):
                    raise Violation("lookup", f"{where}[{kk!r}]: a missing key gave {kind} {type(v).__name__}, a dict raises KeyError")
            kind, v, _ = run.op(lambda: o[k])
            if k in d:
                if kind != "ok" or not real.equal(real.observe(v), d[k]):
                    raise Violation("lookup", f"{where}[{k!r}]: {kind}, expected the stored entry")
                again = o[k]
                if again is not v and isinstance(v, real.BaseModel):
                    # a dict gives the entry itself: what is edited in it shows in the collection
                    raise Violation("lookup", f"{where}[{k!r}]: two lookups gave two different objects, not the entry itself")
            elif kind == "ok" or not isinstance(v, KeyError):
                raise Violation("lookup", f"{where}[{k!r}]: a missing key gave {kind} {type(v).__name__}, a dict raises KeyError")
        elif t == "has":
            for kk in (k, "nope", "", "a\n", k.swapcase(), k + "0" * 200, Text(k), *STRANGE, k.encode()):
                kind, v, _ = run.op(lambda: kk in o)
                if kind != "ok" or v is not (kk in d):
                    raise Violation("membership", f"{where}: {kk!r} in collection gave {v!r}, expected {kk in d}")
        elif t == "len":
            kind, v, _ = run.op(lambda: len(o))
            if kind != "ok" or v != len(d):
                raise Violation("length", f"{where}: gave {v!r}, expected {len(d)}")
            kind, v, _ = run.op(lambda: bool(o))
            if kind != "ok" or v != bool(d):
                raise Violation("length", f"{where}: truth value {v!r}, expected {bool(d)}")
        elif t == "iter":
            kind, v, _ = run.op(lambda: list(o))
            if kind != "ok" or v != list(d):
                raise Violation("iteration", f"{where}: gave {v!r}, expected {list(d)}")
        else:
            kind, v, _ = run.op(lambda: [(a, b) for a, b in o.root.items()])
            if kind != "ok" or [a for a, _ in v] != list(d) or \
                    any(not real.equal(real.observe(b), d[a]) for a, b in v):
                raise Violation("iteration", f"{where}: items differ from the dict")
        run.log(j, t, k)

    def audit(self, run, obj, path, node, where):
        """Every way of looking at the collection agrees with the model."""
        o = real.at(obj, path)
        m = get(node, path)
        d = dict((a, b) for a, b in m["d"])
        try:
            looks = {"len": len(o) == len(d), "iter": list(o) == list(d), "in": all(k in o for k in d),
                     "not in": "nope!" not in o, "keys": all(key_ok(k) for k in o),
                     "get": all(real.equal(real.observe(o[k]), x) for k, x in d.items()),
                     "dump": dumps(o.model_dump(mode="json")) == dumps(dump(m)),
                     "dump order": list(o.model_dump()) == list(d)}
        except Exception as e:  # noqa: BLE001
            raise Violation("audit", f"{where}: looking at the collection fails with {type(e).__name__}: {first(e)}") from None
        bad = [k for k, ok in looks.items() if not ok]
        if bad:
            raise Violation("audit", f"{where}: the collection disagrees with a dict on {', '.join(bad)}")


CHECK = C09()
