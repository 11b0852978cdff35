"""C11: a failed or interrupted operation leaves no residue anywhere."""
import json
import logging
import random

from .. import real
from ..bench import PARTS, Bench, SINK, canon, canon_live, gen_canon, gen_docs, gen_names, gen_op, held
from ..docs import pretty
from ..engine import MON
from ..model import FIELD_RULES, OBJS, Gen, gen_fault, node_ok
from ..world import FORMAT_FOCUS, RULE_FIELDS, damage, focus_node
from .base import Check, EndRun, Violation
from .c04 import gen_sched
from .c07 import all_parts
from .c10 import DOCS, TAGS, pattern

RULED = sorted({*FIELD_RULES, *FORMAT_FOCUS}) + sorted((c, None) for c in RULE_FIELDS)


class C11(Check):
    ID = "C11"
    RUNS = {"quick": 2000, "thorough": 45000}
    NODE_KEYS = ("docs",)
    STUBS = "interruptions, stack depth, failing processors and log sinks, thread scheduling (simulated)"

    def ready(self):
        for part in [None, *range(PARTS)]:
            canon_live(part)

    def plan(self, rng, i, tier):
        if i % 5 == 0:
            # interrupt one validation at many places, each in its own copy of the process
            j = i // 5
            v = ["Unified", "Tags", "Unified", "ExternalDocs"][j % 4]
            part = j // 4 % PARTS if v == "Unified" else None
            n = 8
            return {"check": self.ID, "docs": [], "focus": ["sweep", v, part],
                    "sweep": {"t": "canon", "d": 0, "vals": [v], "part": part}, "kind": rng.choice(["kbd", "mem", "rec", "cut"]),
                    "points": sorted(round(rng.random(), 4) for _ in range(n)), "seed": rng.randrange(1 << 30)}
        if i % 5 == 1:
            return self.mend(rng, i // 5)
        docs = gen_docs(rng, rng.choice([1, 2, 3]))
        p = {"check": self.ID, "docs": docs, "lists": [gen_names(rng) if rng.random() < 0.5 else [] for _ in docs]}
        ops = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            x = rng.random()
            op = gen_op(rng, docs, bad=0.7 if x < 0.4 else 0.2)
            if x >= 0.4:
                y = rng.random()
                if y < 0.75:
                    op["fault"] = gen_fault(rng, [max(1, int(10 ** rng.uniform(0, rng.choice([1.5, 2.5, 3.5]))))], 400)
                elif y < 0.9:
                    op["room"] = rng.randint(1, 40)
                else:
                    op["log"] = [rng.choice([1, 1, 2, 3]), rng.randrange(3)]
            op["times"] = rng.choice([1, 1, 1, 2, 5, 20]) if not any(o.get("times", 1) > 2 for o in ops) else 1
            ops.append(op)
        p["ops"] = ops
        # afterwards: related operations first, then others
        battery = []
        for _ in range(rng.choice([2, 4, 6])):
            x = rng.random()
            if x < 0.35:
                src = rng.choice(ops)
                b = {k: v for k, v in src.items() if k not in ("fault", "room", "log", "times")}
                b["twin"] = rng.random() < 0.7
            else:
                b = gen_op(rng, docs, rng.choice(ops)["d"] if x < 0.6 else None, bad=0.25)
                b["twin"] = rng.random() < 0.4
            battery.append(b)
        p["battery"] = battery
        if rng.random() < 0.15:
            # the document with everything in it, as it is and with one reference led astray
            battery += gen_canon(rng)
        elif rng.random() < 0.2:
            p["sched"] = gen_sched(rng)
        p["fine"] = rng.random() < 0.04
        p["focus"] = [ops[0]["t"], ops[0].get("name") or docs[ops[0]["d"]].get("m") or docs[ops[0]["d"]].get("M")]
        return p

    def mend(self, rng, j):
        """Content that one rule keeps out is refused again and again, then the same without the damage is tried."""
        c, k = RULED[j % len(RULED)]
        n = focus_node(Gen(rng, budget=4, density=0.2), c, k or "*")
        if k and not node_ok(n):
            n = Gen(rng, budget=0, density=0.0).obj(c, 0, full=(k,))
        docs = [n] + gen_docs(rng, 1)
        g = Gen(rng, budget=4, density=0.2)
        ops = []
        for _ in range(12):
            b = damage(g, n, ([], "f:" + k if k else rng.choice(["rule", "x"])))
            if b is not None and len(ops) < 8 and (b.get("m") in OBJS):
                ops.append({"t": "broken", "d": 0, "v": b, "json": rng.random() < 0.3, "times": rng.choice([1, 1, 3])})
            if k and b is not None and rng.random() < 0.3:
                ops.append({"t": "edit", "d": 0, "e": {"p": [], "how": "alias", "t": "set", "k": k, "v": b["f"][k]}, "times": 1})
        battery = [{"t": t, "d": 0, "how": "alias", "twin": False} for t in ("build", "data", "text")]
        battery += [{"t": "broken", "d": 0, "v": o["v"], "json": False, "twin": False} for o in ops[:2] if o["t"] == "broken"]
        battery += [dict(gen_op(rng, docs, 1, bad=0.25), twin=True), dict(gen_op(rng, docs, 0, bad=0.25), twin=True)]
        return {"check": self.ID, "docs": docs, "lists": [[], gen_names(rng)], "ops": ops or [dict(battery[0], times=1)], "battery": battery,
                "fine": False, "focus": ["mend", c, k]}

    def probe(self, run, bench, p):
        MON.pause()
        out = []
        for b in p["battery"]:
            out.append(bench.twin(b) if b["twin"] else bench.do(b)[0])
        return out

    def sweep(self, run, p):
        b = Bench(run, [])
        op = p["sweep"]
        fresh = held()

        def attempt(n):
            got, cut = b.do(op, [p["kind"], n, "p"])
            return [got, cut, b.task.n if b.task.seen is None else len(b.task.seen), held()]

        def body(n, usual):
            got, cut, _, now = attempt(n)
            if not cut:
                return "not cut"
            MON.pause()
            where = f"after a validation by {op['vals']} had been interrupted by {got[1]} at place {n}"
            again = b.do(op)[0]
            if again != ["ok", "accepted"]:
                raise Violation("again", f"{where}: repeated, its outcome is {real.short(again, 300)}")
            rng = random.Random(p["seed"] + n)
            look = [gen_canon(rng)[1] for _ in range(1)]
            deep = now not in (fresh, usual)
            if deep:
                # the library now holds something it never holds otherwise: look everywhere
                look += [dict(op, part=k, wrong=w, to=rng.randrange(50), vals=["Unified"]) for k in range(PARTS)
                         for w in range(len(canon(k)[1])) if rng.random() < 0.25]
                look += [dict(op, part=None, wrong=w, to=rng.randrange(50), vals=[v]) for v in ("Tags", "ExternalDocs")
                         for w in range(len(canon(None)[1])) if rng.random() < 0.4]
            for x in look:
                if x["vals"] != ["Unified"]:
                    path, kinds = canon(x["part"])[1][x["wrong"] % len(canon(x["part"])[1])]
                    if kinds != [{"Tags": "Tag", "ExternalDocs": "ExternalDocumentation"}[x["vals"][0]]] or \
                            pattern(path) not in TAGS + DOCS:
                        continue
                got = b.do(x)[0]
                if got[0] != "invalid":
                    raise Violation("residue", f"{where}: a document with a reference to a component of the wrong kind at "
                                    f"{pretty(canon(x['part'])[1][x['wrong'] % len(canon(x['part'])[1])][0])} is not refused by "
                                    f"{x['vals']} any more: {real.short(got, 200)}")
            return "looked closer" if deep else "cut"
        ref = run.fork(lambda: attempt(10 ** 9))
        if ref[0] != ["ok", "accepted"]:
            raise EndRun("canonical document refused")
        total, usual = ref[2], ref[3]
        closer = 0
        for f in p["points"]:
            n = 1 + int(f * total)
            got = run.fork(lambda: body(n, usual))
            run.log(n, total, got)
            run.count("interruption points swept: " + got)
            if got != "not cut":
                run.count("fault:" + p["kind"])
            closer += got == "looked closer"
            if closer == 2:
                break
            run.ops += 1

    def run(self, run, phase, carry):
        p = run.plan
        if "sweep" in p:
            return self.sweep(run, p)
        logging.getLogger().addHandler(SINK)
        bench = Bench(run, p["docs"])
        if all(o is None for o in bench.live):
            raise EndRun("documents refused")
        bench.start(p["lists"])
        truth = run.fork(lambda: self.probe(run, bench, p))
        if "sched" in p:
            return self.threads(run, p, bench, truth)
        for j, op in enumerate(p["ops"]):
            truth = self.step(run, bench, p, op, f"step {j}: ", truth)

    def step(self, run, bench, p, op, where, truth):
        where += describe(op)
        states = [bench.state(j) for j in range(len(bench.live))]
        given = [named(o) for o in bench.live]
        want = run.fork(lambda: bench.do(op)[0])
        if want is None:
            return truth
        failed = False
        for k in range(op.get("times", 1)):
            if "log" in op:
                SINK.n[0] = 0
                SINK.fail[0] = op["log"]
            got, cut = bench.do(op, op.get("fault"), op.get("room"))
            if "log" in op:
                cut = SINK.fail[0] is None
                SINK.fail[0] = None
                if cut:
                    run.count("fault:log sink")
            run.log(where, k, got if not cut else got[:2], cut)
            if got is None:
                break
            failed = failed or cut or got[0] != "ok"
            if not cut and got[0] == "ok":
                break
            if not cut and got != want:
                raise Violation("repeat", f"{where} failed as {real.short(got, 200)}, but in a process without the earlier "
                                f"failures its outcome is {real.short(want, 200)}")
        if not failed:
            run.count("operation succeeded")
            return run.fork(lambda: self.probe(run, bench, p))
        run.count("failed:" + op["t"] + (":cut" if cut else ":" + got[0] if got else ""))
        # an edit cut short may have been complete, and then it counts even where it changed no content
        same = [bench.state(j) == s and (not cut or named(bench.live[j]) == given[j]) for j, s in enumerate(states)]
        self.judge(run, bench, p, truth, same, where)
        if all(same):
            got, _ = bench.do(op)
            run.log("again", got)
            if got != want:
                raise Violation("again", f"{where} was interrupted or failed; repeated, its outcome is "
                                f"{real.short(got, 250)}; where it never failed it is {real.short(want, 250)}")
            if got is not None and got[0] == "ok" or [bench.state(j) for j in range(len(bench.live))] != states:
                truth = run.fork(lambda: self.probe(run, bench, p))
        else:
            truth = run.fork(lambda: self.probe(run, bench, p))
        for j in range(len(bench.live)):
            run.state(bench.state(j) or "")
        return truth

    def judge(self, run, bench, p, truth, same, where):
        after = run.fork(lambda: self.probe(run, bench, p))
        for b, x, y in zip(p["battery"], truth, after):
            if not b["twin"] and not same[b["d"]]:
                continue
            run.count("later operations compared")
            if x != y:
                raise Violation("residue", f"after {where} had failed or was interrupted: {describe(b)}"
                                f"{' on a newly built document' if b['twin'] else ''} has outcome {real.short(y, 250)}; "
                                f"before the failure it had {real.short(x, 250)}")

    def threads(self, run, p, bench, truth):
        """One thread fails or is interrupted while another works on documents of its own."""
        other = Bench(run, p["docs"])
        other.start(p["lists"])
        work = [b for b in p["battery"]]
        solo = run.fork(lambda: [other.twin(b) if b["twin"] else other.do(b)[0] for b in work])
        states = [bench.state(j) for j in range(len(bench.live))]
        given = [named(o) for o in bench.live]
        res, done = [], set()

        def victim():
            for op in p["ops"]:
                for _ in range(min(op.get("times", 1), 3)):
                    got, cut = bench.do(op, op.get("fault"), None)
                    run.log("victim", describe(op), got if not cut else got[:2], cut)
                    run.count("concurrent " + ("cut" if cut else got[0] if got else "skipped"))
                    if got is not None and (cut or got[0] == "ok"):
                        done.add(op["d"])

        def worker():
            for b in work:
                res.append(other.twin(b) if b["twin"] else other.do(b)[0])
        run.clients([victim, worker], p["sched"])
        for b, x, y in zip(work, solo, res):
            if x != y:
                raise Violation("thread", f"{describe(b)} next to failing operations in another thread has outcome "
                                f"{real.short(y, 250)}; alone it has {real.short(x, 250)}")
        same = [bench.state(j) == s and (j not in done or named(bench.live[j]) == given[j]) for j, s in enumerate(states)]
        self.judge(run, bench, p, truth, same, "operations in another thread")


def named(o):
    """Which fields each part of a live document counts as given."""
    return None if o is None else [sorted(x.__pydantic_fields_set__) for x in all_parts(o)]


def describe(op):
    s = op["t"]
    if s == "read":
        s = op["name"]
    if s == "edit":
        s += f" {op['e']['t']} {op['e'].get('k')!r} at {op['e']['p']}"
    if "vals" in op:
        s += f" validators {op['vals']}"
    if isinstance(op.get("s"), dict) and op["s"]:
        s += f" script {op['s']}"
    return f"{s} of document {op['d']}"


CHECK = C11()
