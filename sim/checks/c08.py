"""C08: saving and restoring after a crash loses and invents nothing."""
import json
import math
import random
import re

from .. import real
from ..model import (FIELD_RULES, Gen, MAPS, NONE, OBJS, SHAPE, alts, clone, dump, fields, gen_fault, get, key_ok, node_ok, own_ok,
                     walk)
from ..world import (EXT_FOCUS, FIELD_FOCUS, MAP_FOCUS, RULE_FOCUS, embed, focus_node, gen_edit, perform, predict_whole,
                     prepare)
from .base import Check, EndRun, Violation, dumps
from .c02 import describe, first

LIMITS = {
    ("CorrelationID", "location"): lambda x: x.startswith("$message."),
    ("AsyncAPI3", "asyncapi"): lambda x: re.fullmatch(r"3\.\d+\.\d+(-[\w.\-]+)?", x) is not None,
    ("AMQPOperationBindings", "expiration"): lambda x: x >= 0,
    ("IBMMQServerBindings", "heart_beat_interval"): lambda x: 0 <= x <= 999999,
    ("IBMMQChannelBindings", "max_msg_length"): lambda x: 0 <= x <= 104857600,
    ("IBMMQMessageBindings", "expiry"): lambda x: x >= 0,
    ("KafkaChannelBindings", "partitions"): lambda x: x >= 1,
    ("KafkaChannelBindings", "replicas"): lambda x: x >= 1,
    ("SolaceOperationBindings", "priority"): lambda x: 0 <= x <= 255,
}
assert set(LIMITS) == set(FIELD_RULES)


def sane(n, t, c=None):
    """Does observed content respect every documented rule (formats of URLs and addresses aside)?
    Returns what is wrong, or None."""
    if any("any" in a for a in alts(t)):
        return None
    errs = []
    for a in alts(t):
        e = sane1(n, a, c)
        if e is None:
            return None
        errs.append(e)
    return errs[0] if len(errs) == 1 else max(errs, key=len)


def sane1(n, t, c):
    x = n.get("j")
    if "none" in t:
        return None if n == NONE else "not null"
    if "prim" in t:
        p = t["prim"]
        ok = "j" in n and (isinstance(x, bool) if p == "bool" else
                           isinstance(x, int) and not isinstance(x, bool) if p == "int" else
                           isinstance(x, (int, float)) and not isinstance(x, bool) if p == "float" else
                           isinstance(x, str))
        if ok and c and "max_length" in c and len(x) > c["max_length"]:
            return "too long"
        return None if ok else f"{real.short(n, 60)} is not {p}"
    if "lit" in t:
        return None if "j" in n and any(type(v) is type(x) and v == x for v in t["lit"]) else f"{real.short(n, 60)} not in {t['lit']}"
    if "list" in t:
        if "l" not in n:
            return "not a list"
        return next((e for e in (sane(y, t["list"]) for y in n["l"]) if e), None)
    if "dict" in t:
        if "any" in t["dict"]:
            return None if "D" in n or isinstance(x, dict) else "not a mapping"
        if "D" not in n:
            return "not a mapping"
        return next((e for e in (sane(y, t["dict"]) for _, y in n["D"]) if e), None)
    m = t["model"]
    if SHAPE[m]["kind"] == "map":
        if n.get("M") != m:
            return f"not a {m}"
        for k, y in n["d"]:
            if not key_ok(k):
                return f"{m}: illegal key {k!r}"
            e = sane(y, SHAPE[m]["value"])
            if e:
                return f"{m}[{k!r}]: {e}"
        return None
    if n.get("m") != m:
        return f"not a {m}"
    fs = fields(m)
    if set(n["f"]) != set(fs):
        return f"{m}: fields {sorted(n['f'])}"
    for k, d in fs.items():
        e = sane(n["f"][k], d["type"], d.get("c"))
        if e:
            return f"{m}.{k}: {e}"
        f = LIMITS.get((m, k))
        v = n["f"][k].get("j")
        if f and v is not None and not isinstance(v, (dict, list)) and "j" in n["f"][k]:
            if (isinstance(v, str) or m not in ("CorrelationID", "AsyncAPI3")) and not f(v):
                return f"{m}.{k}: {v!r} is out of range"
    return None if own_ok(n) else f"{m}: breaks its own rules: {real.short(n, 300)}"


def finite(x):
    if isinstance(x, float):
        return math.isfinite(x)
    if isinstance(x, dict):
        return all(finite(y) for y in x.values())
    if isinstance(x, list):
        return all(finite(y) for y in x)
    return True


def ordered(n):
    """The plain data in the order the entries must keep (fields aside)."""
    if "M" in n:
        return [[k, ordered(x)] for k, x in n["d"]]
    if "m" in n:
        return {k: ordered(x) for k, x in n["f"].items()}
    if "l" in n:
        return [ordered(x) for x in n["l"]]
    return None


def corrupt(rng, b):
    """What a failing disk leaves of the saved bytes."""
    b = bytearray(b)
    how = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(["torn", "flip", "flip", "flip", "zero", "lost", "doubled", "swap", "byte"])
        if not b:
            break
        i = rng.randrange(len(b))
        j = min(len(b), i + rng.choice([1, 2, 4, 16, 64]))
        how.append(k)
        if k == "torn":
            del b[i:]
        elif k == "flip":
            b[i] ^= 1 << rng.randrange(8)
        elif k == "zero":
            b[i:j] = bytes(j - i)
        elif k == "lost":
            del b[i:j]
        elif k == "doubled":
            b[i:i] = b[i:j]
        elif k == "swap":
            x = rng.randrange(len(b))
            b[i], b[x] = b[x], b[i]
        else:
            b[i] = rng.choice(b'{}[]",:0123456789truefalsn \\x-$aAzZ_.\n')
    return bytes(b), how


class C08(Check):
    ID = "C08"
    PHASES = 2
    RUNS = {"quick": 12000, "thorough": 110000}
    FOC = FIELD_FOCUS + MAP_FOCUS + EXT_FOCUS + RULE_FOCUS
    STUBS = "the disk (saved bytes, torn and damaged writes), interruptions; the crash is the end of a real process"

    def plan(self, rng, i, tier):
        cls, field = self.FOC[i % len(self.FOC)]
        g = Gen(rng, budget=12, density=rng.choice([0.05, 0.3, 0.7, 0.95]))
        n = focus_node(g, cls, field)
        if cls in OBJS and field in fields(cls) and rng.random() < 0.5:
            n = g.obj(cls, 2, full=(field,))
        path = []
        if rng.random() < 0.5:
            g.budget = 12
            n, path = embed(g, n, [], rng.choice([1, 1, 2, 3, 5]))
        init = clone(n)
        ops = []
        saved = False
        for j in range(rng.choice([1, 2, 3, 5, 8])):
            if rng.random() < 0.35:
                op = {"t": "save", "via": rng.choice(["text", "text", "data"])}
                if rng.random() < 0.15:
                    op["fault"] = gen_fault(rng, [1, 2, 3, 5, 8, 13, 30])
                ops.append(op)
                continue
            g.budget = 5
            e = gen_edit(g, n, path, field if rng.random() < 0.5 else None, bad=0.15)
            ops.append(e)
            k, new = predict_whole(n, e)
            if k == "ok":
                n = new
        ops.insert(rng.randint(0, len(ops)), {"t": "save", "via": rng.choice(["text", "text", "data"])})
        later = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            g.budget = 5
            spots = [q for q, _, _ in walk(n)]
            later.append(gen_edit(g, n, rng.choice(spots), None, bad=0.4))
        return {"check": self.ID, "focus": [cls, field], "init": init, "style": rng.choice(["inst", "full", "alias", "name", "json"]),
                "ops": ops, "later": later, "load": rng.choice(["str", "bytes", "parsed"]),
                "damage": rng.randrange(1 << 30) if rng.random() < 0.5 else None}

    def run(self, run, phase, carry):
        if phase == 0:
            run.carry = self.before(run)
        elif carry:
            self.after(run, carry)

    # ---------------------------------------------------------------- before the crash
    def before(self, run):
        p = run.plan
        k, obj = real.call(real.build, p["init"], p["style"])
        if k != "ok" or not real.equal(real.observe(obj), p["init"]):
            raise EndRun("initial object refused or different")
        disk = None
        for j, op in enumerate(p["ops"]):
            if op["t"] == "save":
                d = self.save(run, obj, op, f"step {j}: save")
                disk = d or disk
                continue
            n = real.norm_free(real.observe(obj))
            k, _ = predict_whole(n, op)
            if k == "skip":
                continue
            ck, a = real.call(prepare, real, op, k == "ok")
            if ck != "ok":
                continue
            got, val, _ = run.op(lambda: perform(real.at(obj, op["p"]), op, a))
            run.log(j, op["t"], got)
        if disk is None:
            return None
        # the original lives on: what it answers to later edits (from the state last saved)
        if disk["live"] == real.sig(real.observe(obj)):
            disk["later"] = self.later(run, obj)
        return disk

    def later(self, run, obj):
        out = []
        for op in run.plan["later"]:
            n = real.norm_free(real.observe(obj))
            k, _ = predict_whole(n, op)
            if k == "skip":
                out.append("skip")
                continue
            ck, a = real.call(prepare, real, op, k == "ok")
            if ck != "ok":
                out.append("no value")
                continue
            got, val, _ = run.op(lambda: perform(real.at(obj, op["p"]), op, a))
            k, text = real.call(obj.model_dump_json)
            out.append([got, type(val).__name__, real.sig(real.observe(obj)), text if k == "ok" else k])
        return out

    def save(self, run, obj, op, where):
        n = real.norm_free(real.observe(obj))
        if not node_ok(n):
            raise EndRun("illegal content")
        fire = obj.model_dump_json if op["via"] == "text" else lambda: obj.model_dump(mode="json")
        got, val, task = run.op(fire, op.get("fault"))
        run.log(where, op["via"], got, val if got == "ok" else type(val).__name__)
        run.count("saves:" + got)
        if got != "ok":
            if task.fired is None:
                raise Violation("save", f"{where} of a legal {n.get('m') or n.get('M')} failed with {type(val).__name__}: {first(val)}")
            return None
        data = json.loads(val) if op["via"] == "text" else val
        if dumps(data) != dumps(dump(n)):
            raise Violation("saved", f"{where} as {op['via']}: saved {real.short(data, 400)} instead of "
                            f"{real.short(dump(n), 400)}")
        # in the same process: equal, and the same text again
        c = type(obj)
        for how, load in (("text", lambda: c.model_validate_json(val if op["via"] == "text" else json.dumps(val))),
                          ("data", lambda: c.model_validate(data)), ("python data", lambda: c.model_validate(obj.model_dump()))):
            got, back, _ = run.op(load)
            if got != "ok":
                raise Violation("restore", f"{where}: restoring from {how} failed with {type(back).__name__}: {first(back)}")
            if not (back == obj) or not real.equal(real.observe(back), n):
                raise Violation("restored", f"{where}: restored from {how}, the object differs: "
                                f"{real.diff(real.observe(back), n) or 'not equal'}")
        text = val if op["via"] == "text" else json.dumps(val)
        run.state(real.sig(n))
        return {"bytes": text.encode().hex(), "text": obj.model_dump_json(), "live": real.sig(real.observe(obj)), "node": n,
                "cls": n.get("m") or n["M"]}

    # ---------------------------------------------------------------- after the crash
    def after(self, run, disk):
        p = run.plan
        raw = bytes.fromhex(disk["bytes"])
        n = disk["node"]
        c = real.CLS[disk["cls"]]
        run.count("crashes")
        got, back, _ = run.op(self.loader(c, raw, p["load"]))
        if got != "ok":
            raise Violation("restore", f"a new process cannot restore {raw[:300]!r}: {type(back).__name__}: {first(back)}")
        if not real.equal(real.observe(back), n):
            raise Violation("restored", f"restored in a new process, the {disk['cls']} differs: {real.diff(real.observe(back), n)}")
        if dumps(ordered(real.norm_free(real.observe(back)))) != dumps(ordered(n)):
            raise Violation("restored", f"restored in a new process, the entries of {disk['cls']} are in another order")
        got, text, _ = run.op(back.model_dump_json)
        if got != "ok" or text != disk["text"]:
            raise Violation("resaved", f"restored in a new process, the {disk['cls']} saves as {str(text)[:300]} instead of "
                            f"{disk['text'][:300]}")
        if "later" in disk:
            now = json.loads(json.dumps(self.later(run, back)))
            for j, (a, b) in enumerate(zip(now, disk["later"])):
                run.count("later edits compared")
                if a != b:
                    raise Violation("later", f"{describe(p['later'][j], n)}: after the restore {real.short(a, 300)}, but on the "
                                    f"original {real.short(b, 300)}")
        if p["damage"] is not None:
            rng = random.Random(p["damage"])
            for k in range(4):
                bad, how = corrupt(rng, raw)
                self.damaged(run, c, bad, how, rng.choice(["str", "bytes", "parsed"]))

    def loader(self, c, raw, how):
        if how == "bytes":
            return lambda: c.model_validate_json(raw)
        if how == "str":
            text = raw.decode("utf-8", "replace")
            return lambda: c.model_validate_json(text)
        data = json.loads(raw.decode("utf-8", "replace"))
        return lambda: c.model_validate(data)

    def damaged(self, run, c, bad, how, load):
        try:
            fire = self.loader(c, bad, load)
            if load == "parsed":
                # half of a surrogate pair is not text: nothing can save it
                json.dumps(json.loads(bad.decode("utf-8", "replace")), ensure_ascii=False).encode()
        except ValueError:
            return
        for h in how:
            run.count("fault:disk " + h)
        got, back, _ = run.op(fire)
        run.log("damaged", how, load, got)
        run.count("damaged text:" + got)
        where = f"{c.__name__} restored ({load}) from damaged text {bad[:400]!r}"
        if got == "invalid":
            return
        if got != "ok":
            raise Violation("damaged", f"{where}: {type(back).__name__} instead of a validation error: {first(back)}")
        n = real.norm_free(real.observe(back))
        e = sane(n, {"model": real.NAME[c]})
        if e:
            raise Violation("damaged-rules", f"{where} breaks the rules: {e}")
        got, again, _ = run.op(lambda: c.model_validate(back))
        if got != "ok" or not real.equal(real.observe(again), n):
            raise Violation("damaged-rules", f"{where} was accepted, but re-validating it "
                            f"{'gives another object' if got == 'ok' else 'fails: ' + first(again)}")
        got, text, _ = run.op(back.model_dump_json)
        if got != "ok":
            raise Violation("damaged-save", f"{where} was accepted, but saving it fails: {first(text)}")
        if not finite(back.model_dump()):
            return
        got, again, _ = run.op(lambda: c.model_validate_json(text))
        if got != "ok":
            raise Violation("damaged-save", f"{where} was accepted, but what it saves cannot be restored: {first(again)}")
        if not real.equal(real.observe(again), n) or again.model_dump_json() != text:
            raise Violation("damaged-save", f"{where} saves {text[:300]}, which restores differently: "
                            f"{real.diff(real.observe(again), n)}")


CHECK = C08()
