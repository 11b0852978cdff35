"""C02: edits are held to the same documented rules as construction."""
from .. import real
from ..model import Gen, MAPS, clone, dump, gen_fault, get, node_ok, put
from ..world import (EXT_FOCUS, FIELD_FOCUS, FORMAT_FOCUS, MAP_FOCUS, RULE_FOCUS, RULE_FIELDS, embed, focus_node, gen_edit,
                     perform, predict, predict_whole, prepare)
from .base import Check, EndRun, Violation, dumps


class C02(Check):
    ID = "C02"
    RUNS = {"quick": 32000, "thorough": 200000}
    FOC = FIELD_FOCUS + RULE_FOCUS + MAP_FOCUS + EXT_FOCUS + FORMAT_FOCUS * 2

    def plan(self, rng, i, tier):
        cls, field = self.FOC[i % len(self.FOC)]
        g = Gen(rng, budget=10, density=rng.choice([0.05, 0.3, 0.7]))
        n = focus_node(g, cls, field)
        path = []
        if rng.random() < 0.35:
            g.budget = 12
            n, path = embed(g, n, [], rng.choice([1, 1, 2, 3, 4]))
        init = clone(n)
        ops = []
        for j in range(rng.choice([1, 2, 3, 4, 6, 8])):
            g.budget = 6
            f = field if j == 0 or rng.random() < 0.4 else None
            op = gen_edit(g, n, path, f, bad=0.45)
            x = rng.random()
            if x < 0.08:
                op["fault"] = gen_fault(rng, [1, 2, 3, 5, 8, 13, 21, 40])
            elif x < 0.11:
                op["room"] = rng.choice([2, 3, 4, 5, 6, 8, 10, 14])
            ops.append(op)
            k, new = predict_whole(n, op)
            if k == "ok":
                n = new
        return {"check": self.ID, "focus": [cls, field], "init": init, "typed": rng.choice([None, None, "email", "text"]),
                "style": rng.choice(["inst", "full", "alias", "name", "json"]), "ops": ops}

    def run(self, run, phase, carry):
        p = run.plan
        real.typed(p.get("typed"))
        node = p["init"]
        k, obj = real.call(real.build, node, p["style"])
        if k != "ok":
            raise EndRun("initial object refused")
        if not real.equal(real.observe(obj), node):
            raise EndRun("initial object differs")
        run.state(real.sig(node))
        for j, op in enumerate(p["ops"]):
            want, new = predict_whole(node, op)
            if want == "skip":
                run.log(j, "skip")
                continue
            ck, a = real.call(prepare, real, op, want == "ok")
            if ck != "ok":
                if want == "ok":
                    raise EndRun("value refused before the edit")
                run.log(j, "no value")
                continue
            try:
                o = real.at(obj, op["p"])
            except Exception:
                raise EndRun("path lost") from None
            fire = lambda: perform(o, op, a)
            if "room" in op:
                got, val = run.squeeze(fire, op["room"])
                cut = got != "ok"
            else:
                got, val, task = run.op(fire, op.get("fault"))
                cut = task.fired is not None
            now = real.observe(obj)
            run.log(j, op["t"], want, got, type(val).__name__, cut, real.sig(now))
            run.count("edit:" + op["t"] + ":" + want)
            if cut:
                # judged by C01; carry on from whatever state is legal
                if want == "ok" and real.equal(now, new):
                    node = new
                elif not real.equal(now, node):
                    raise EndRun("torn by an interruption")
                continue
            where = f"step {j}: {describe(op, node)}"
            if want == "ok":
                if got != "ok":
                    raise Violation("refused", f"{where}: legal edit refused with {type(val).__name__}: "
                                    f"{first(val)}")
                if not real.equal(now, new):
                    raise Violation("readback", f"{where}: accepted, but the object reads back differently: "
                                    f"{real.diff(now, new)}")
                self.dump(obj, new, where)
                self.twin(run, obj, new, where)
                node = new
                run.state(real.sig(node))
            elif want == "missing":
                if got == "ok":
                    raise EndRun("deleting a missing entry succeeded")
            else:
                if got == "ok":
                    raise Violation("accepted", f"{where}: the result breaks the documented rules but the edit was "
                                    f"accepted; object is now {real.short(now, 300)}")
                if got != "invalid":
                    raise Violation("wrong-error", f"{where}: refused with {type(val).__name__} instead of a "
                                    f"validation error: {first(val)}")
                if not real.equal(now, node):
                    raise EndRun("changed by a rejected edit")

    def dump(self, obj, node, where):
        k, d = real.call(obj.model_dump, mode="json")
        if k != "ok":
            raise Violation("dump", f"{where}: accepted, but dumping fails: {first(d)}")
        if dumps(d) != dumps(dump(node)):
            raise Violation("dump", f"{where}: accepted, but dumps {real.short(d, 300)} instead of "
                            f"{real.short(dump(node), 300)}")

    def twin(self, run, obj, node, where):
        """The same content must also be constructible, and give the same object."""
        k, o = real.call(real.build, node, "inst")
        if k != "ok":
            raise Violation("twin", f"{where}: accepted, but building the same content is refused: {first(o)}")
        if not real.equal(real.observe(o), real.observe(obj)):
            raise Violation("twin", f"{where}: edited object differs from one built with the same content: "
                            f"{real.diff(real.observe(obj), real.observe(o))}")


def describe(op, node):
    o = get(node, op["p"]) or {}
    name = o.get("m") or o.get("M")
    pth = "".join(f".{k}" if s == "f" else f"[{k!r}]" for s, k in op["p"])
    val = real.short(dump(op["v"]), 140) if op.get("v") else ""
    return f"{op['t']} {name}{pth and ' at ' + pth} {op.get('k', '')} = {val} ({op.get('how')})"


def first(e):
    s = " ".join(str(e).split())
    return s[:240]


CHECK = C02()
