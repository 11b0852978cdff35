"""C01: a rejected or interrupted edit changes nothing."""
import copy

from .. import real
from ..model import Gen, NONE, clone, get
from ..world import (EXT_FOCUS, FIELD_FOCUS, MAP_FOCUS, RULE_FOCUS, embed, focus_node, gen_edit, perform,
                     predict, predict_whole, prepare)
from .. import procs
from .base import Check, EndRun, Violation, dumps
from .c02 import describe, first

FAULT_KINDS = ["kbd", "mem", "rec", "cut"]


# what a list of processors may be set to: "P" stands for one
LISTS = [["P"], ["P", "P"], [], None, ["P", "x"], ["P", None], "P!", "x", 5, [5], {"P": "P"}, [["P"]], ["P()"], ["P", "P()"], True, "gen"]


def processors(op, P):
    """The live form of an entry of LISTS."""
    cls = P.cls[op["how"]]

    def live(x):
        if isinstance(x, list):
            return [live(y) for y in x]
        if isinstance(x, dict):
            return {k: live(y) for k, y in x.items()}
        if x == "gen":
            return iter([cls, 5])
        return {"P": cls, "P!": cls, "P()": 0}.get(x, x) if isinstance(x, str) and x != "P()" else cls() if x == "P()" else x
    P.now, now = {}, P.now
    try:
        return live(op["v"])
    finally:
        P.now = now


def snap(obj, ids=True):
    """Everything a user can see of an object."""
    out = {"reads": real.sig(real.observe(obj))}
    k, d = real.call(obj.model_dump_json)
    out["dump"] = d if k == "ok" else k
    k, d = real.call(obj.model_dump_json, exclude_unset=True)
    out["dump_set"] = d if k == "ok" else k
    out["order"] = repr(real.order(obj))
    if type(obj) is real.CLS["AsyncAPI3"]:
        out["lists"] = repr([getattr(obj, f, "gone") for f in ("extra_validators", "extra_converters")])
    if ids:
        out["parts"] = repr(real.part_ids(obj))
    return out


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


class C01(Check):
    ID = "C01"
    RUNS = {"quick": 14000, "thorough": 120000}
    FOC = FIELD_FOCUS + RULE_FOCUS + MAP_FOCUS + EXT_FOCUS + [("AsyncAPI3", "!")] * 40

    def plan(self, rng, i, tier):
        cls, field = self.FOC[i % len(self.FOC)]
        g = Gen(rng, budget=10, density=rng.choice([0.05, 0.3, 0.7]))
        plan = {"check": self.ID, "focus": [cls, field]}
        if field == "!":
            plan["lists"] = procs.gen_lists(rng, fail=0.5)
            field = None
            refs, g.refs = g.refs, ["https://example.com/r.json"]
        n = focus_node(g, cls, field or "*")
        if "lists" in plan:
            g.refs = refs
        path = []
        if "lists" not in plan and rng.random() < 0.3:
            g.budget = 12
            n, path = embed(g, n, [], rng.choice([1, 1, 2, 3]))
        plan["init"] = clone(n)
        ops = []
        for j in range(rng.choice([1, 1, 2, 3, 5])):
            g.budget = 6
            bad = 0.6 if rng.random() < 0.6 else 0.0
            op = gen_edit(g, n, path, field if j == 0 or rng.random() < 0.4 else None, bad=bad)
            x = rng.random()
            if x < 0.35:
                op["fault"] = [rng.choice(FAULT_KINDS), round(rng.random(), 4), rng.choice([1, 1, 2, 4])] + rng.choice([[], ["p"]])
            elif x < 0.45:
                op["room"] = rng.randint(1, 16)
            if "lists" in plan and rng.random() < 0.4:
                op["script"] = procs.gen_script(rng)
            if "lists" in plan and rng.random() < 0.25:
                op = dict({k: op[k] for k in ("fault", "room", "script") if k in op}, t="list", p=[],
                          k=rng.choice(["extra_validators", "extra_converters"]), v=rng.choice(LISTS), how=rng.choice(["P0", "P1"]))
                ops.append(op)
                continue
            ops.append(op)
            k, new = predict_whole(n, op)
            if k == "ok":
                n = new
        plan.update(ops=ops, style=rng.choice(["inst", "full", "alias", "name", "json"]),
                    fine=rng.random() < 0.15)
        return plan

    def run(self, run, phase, carry):
        p = run.plan
        node = p["init"]
        lists = p.get("lists")
        P = None
        if lists:
            P = procs.Pipeline(run, lists)
            k, obj = real.call(real.build, node, p["style"], **P.kwargs())
        else:
            k, obj = real.call(real.build, node, p["style"])
        if k != "ok":
            raise EndRun("initial object refused")
        run.state(real.sig(real.observe(obj)))
        for j, op in enumerate(p["ops"]):
            if op["t"] == "list":
                want = "any"
            else:
                want = predict_whole(real.norm_free(real.observe(obj)), op)[0] if not lists else \
                    predict(real.norm_free(real.observe(obj)), op)[0]
            if want == "skip":
                run.log(j, "skip")
                continue
            ck, a = real.call(prepare, real, op, want == "ok") if op["t"] != "list" else ("ok", processors(op, P))
            if ck != "ok":
                run.log(j, "no value")
                continue
            try:
                o = real.at(obj, op["p"])
            except Exception:
                raise EndRun("path lost") from None
            if P:
                P.script(op.get("script"))
            where = f"step {j}: {describe(op, node)}" if op["t"] != "list" else f"step {j}: document.{op['k']} = {op['v']}"
            fire = (lambda: perform(o, op, a)) if op["t"] != "list" else lambda: setattr(o, op["k"], a)
            if op.get("fault"):
                self.sweep(run, op, obj, fire, where, P)
            before = snap(obj)
            twin = copy.deepcopy(obj)
            if "room" in op:
                got, val = run.squeeze(fire, op["room"])
                tail = f"with {op['room']} stack frames left"
            else:
                got, val, _ = run.op(fire)
                tail = ""
            run.count(f"edit:{op['t']}:{got}")
            after = snap(obj)
            run.log(j, op["t"], want, got, type(val).__name__, after["reads"])
            if got != "ok":
                bad = changed(before, after)
                if bad:
                    raise Violation("rejected-edit", f"{where} {tail} failed with {type(val).__name__} but changed "
                                    f"the object ({', '.join(bad)}): {self.what(before, after, bad)}")
                if not (obj == twin):
                    raise Violation("rejected-edit", f"{where} {tail} failed with {type(val).__name__} and the "
                                    "object no longer equals a copy taken before")
            if P:
                P.check_quiet()
            run.state(after["reads"])

    def what(self, a, b, bad):
        k = bad[0]
        return f"{k}: {a[k][:220]} -> {b[k][:220]}"

    def sweep(self, run, op, obj, fire, where, P):
        """Interrupt this very edit at several instants, each in its own copy of the process."""
        kind, frac, points, *mode = op["fault"]

        def trial(at):
            def body():
                before = snap(obj, False)
                got, val, t = run.op(fire, [kind, at, *mode])
                n = t.n if t.seen is None else len(t.seen)
                return {"n": n, "got": got, "exc": type(val).__name__, "fired": t.fired,
                        "before": before, "after": snap(obj, False)}
            return body

        ref = run.fork(trial(0))
        n = ref["n"]
        run.count("interruptible instants", n)
        if n == 0:
            return
        ks = sorted({1 + int(((frac + j / points) % 1.0) * n) for j in range(points)})
        for at in ks:
            r = run.fork(trial(at))
            run.log("cut", at, n, r["got"], r["fired"])
            if r["fired"] is None:
                continue
            run.count("fault:" + kind)
            run.count("fault fired in " + r["fired"])
            run.count("crash points swept")
            d0 = changed(r["before"], r["after"])
            d1 = changed(ref["after"], r["after"])
            if d0 and (d1 or ref["got"] != "ok"):
                raise Violation("interrupted-edit", f"{where} interrupted by {r['exc']} at instant {at} of {n} (in "
                                f"{r['fired']}): the object is neither as before nor as after the edit: "
                                f"{self.what(r['before'], r['after'], d0)}")


CHECK = C01()
