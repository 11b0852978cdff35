"""C12: outcomes depend only on content, never on the surroundings."""
import asyncio
import json
import random
import threading

from .. import real
from ..bench import Bench, gen_canon, gen_docs, gen_names, gen_op, rich
from ..docs import HOMES, KINDS, LOCATIONS, PARTS, blank_doc, canon_live, plain, plant, ref_node
from ..engine import MON, Client
from ..surround import ACTS, CONFIGS, arrange, gen_env, spawn
from ..model import FIELD_RULES, OBJS, Gen, get
from ..world import RULE_FIELDS, damage, focus_node
from .base import Check, EndRun, Violation
from .c04 import BROKEN, C04, EXTERNAL, gen_sched

RULED = [(c, None) for c in RULE_FIELDS] + list(FIELD_RULES)
ZYG = {}
SEQ = [0]


def warm():
    """Touch everything that loads modules late, before the file system stops working."""
    rng = random.Random(5)
    from ..model import MAPS
    from .c07 import DOC_READERS, READERS
    docs = gen_docs(rng, 1)
    for n in docs:
        k, o = real.call(real.to_real, n)
        if k == "ok":
            for f in list(READERS.values()) + (list(DOC_READERS.values()) if n.get("m") == "AsyncAPI3" else []):
                real.call(f, o, 3)
    for c in OBJS + MAPS:
        real.call(real.CLS[c].model_validate, {"a b": 1})
        real.call(real.CLS[c].model_validate_json, "{")
    for v in ("a@example.com", "http://a.example", "x"):
        real.call(real.CLS["Contact"].model_validate, {"email": v, "url": v})
    for part in range(PARTS):
        canon_live(part)


def zygote(k):
    """Started by the process that owns the runs (see ready), used by its forked children."""
    if k not in ZYG:
        ZYG[k] = spawn(k)
    return ZYG[k]


class C12(Check):
    ID = "C12"
    RUNS = {"quick": 1000, "thorough": 26000}
    NODE_KEYS = ("docs",)
    WAIT = 400
    STUBS = "file system, network, clock, random state, garbage collector, log sinks and process configuration (simulated)"

    def ready(self):
        for k in range(len(CONFIGS)):
            if k in ZYG and ZYG[k].poll() is not None:
                del ZYG[k]
            zygote(k)

    def reset(self):
        for z in ZYG.values():
            z.kill()
            z.wait()
        ZYG.clear()

    def plan(self, rng, i, tier):
        docs = gen_docs(rng, rng.choice([1, 2, 3]))
        # every class in turn, with as much in it as fits
        docs.append(rich(rng, OBJS[i % len(OBJS)]))
        ops = [{"t": rng.choice(["build", "data", "text"]), "how": rng.choice(["inst", "alias"]), "d": len(docs) - 1,
                "twin": rng.random() < 0.3}]
        for _ in range(rng.choice([3, 5, 8])):
            op = gen_op(rng, docs, bad=0.3)
            op["twin"] = rng.random() < 0.3
            ops.append(op)
        main = len(docs)
        # documents with one reference, of every form that resolution may come across
        for ref in rng.sample(BROKEN, 3) + rng.choices(EXTERNAL):
            steps, kinds = rng.choice(LOCATIONS)
            g = plain(rng, ["a", "b"])
            n, path = plant(g, blank_doc(g), {"model": "AsyncAPI3"}, steps, ref_node("https://example.com/r.json"))
            get(n, path)["f"]["ref"]["j"] = ref
            docs.append(n)
            ops.append({"t": "build", "d": len(docs) - 1, "how": "inst", "vals": ["Unified"], "conv": [], "make": "list", "s": {}, "twin": False})
        if rng.random() < 0.3:
            # many hops, ending in a component, nowhere or in themselves
            kind = rng.choice([k for k in sorted(HOMES) if k in KINDS])
            g = plain(rng, ["a", "b"])
            ref, n = C04().chain(rng, g, blank_doc(g), kind, None, None, int(10 ** rng.uniform(0.5, 2.5)), rng.choice(["end", "end", "cycle", "gap", "wrong"]))
            n, _ = plant(g, n, {"model": "AsyncAPI3"}, rng.choice([s for s, ks in LOCATIONS if kind in ks]), ref_node(ref))
            docs.append(n)
            ops.insert(rng.randrange(len(ops) + 1), {"t": "build", "d": len(docs) - 1, "how": "inst", "vals": ["Unified"],
                                                     "conv": [], "make": "list", "s": {}, "twin": False})
        if rng.random() < 0.05:
            ops += [dict(op, twin=False) for op in gen_canon(rng) if op["part"] is not None]
        if rng.random() < 0.1:
            from .c10 import C10, FOCUS
            c = rng.choice([lambda: C04().churn(rng, rng.randrange(len(LOCATIONS))), lambda: C10().churn(rng, rng.choice(FOCUS))])()
            if c["alt"]:
                ops.append({"t": "churn", "d": 0, "nodes": [c["init"], *c["alt"]], "vals": c["vals"], "n": c["n"], "twin": False})
        # content that only a rule of its own keeps out
        for j in range(4):
            c, k = RULED[(i * 4 + j) % len(RULED)]
            g = Gen(rng, budget=4, density=0.2)
            n = focus_node(g, c, k or "*")
            docs.append(n)
            for _ in range(2):
                b = damage(g, n, ([], "f:" + k if k else "rule"))
                if b is not None:
                    ops.append({"t": "broken", "d": len(docs) - 1, "v": b, "json": rng.random() < 0.3, "twin": False})
        envs = []
        for j in range(rng.choice([2, 3, 4])):
            e = gen_env(rng)
            if j == 0:
                e["z"] = 1 + i % (len(CONFIGS) - 1)
            if rng.random() < 0.4:
                e["acts"] = [[rng.choice(sorted(ACTS)), rng.randrange(len(ops)), max(1, int(10 ** rng.uniform(0, 3)))]
                             for _ in range(rng.choice([1, 1, 3]))]
            if rng.random() < 0.12:
                e["sched"] = gen_sched(rng)
            envs.append(e)
        return {"check": self.ID, "docs": docs, "lists": [gen_names(rng) if rng.random() < 0.5 else [] for _ in docs],
                "ops": ops, "envs": envs, "main": main, "past": gen_docs(rng, 1), "fine": rng.random() < 0.03,
                "focus": [ops[0]["t"], envs[0]["z"]]}

    def shrink(self, plan):
        for j in range(len(plan["envs"])):
            if len(plan["envs"]) > 1:
                yield dict(plan, envs=plan["envs"][:j] + plan["envs"][j + 1:])
            for k in list(plan["envs"][j]):
                if k not in ("z", "seed"):
                    e = {a: b for a, b in plan["envs"][j].items() if a != k}
                    yield dict(plan, envs=plan["envs"][:j] + [e] + plan["envs"][j + 1:])
            if plan["envs"][j]["z"]:
                e = dict(plan["envs"][j], z=0)
                yield dict(plan, envs=plan["envs"][:j] + [e] + plan["envs"][j + 1:])
        yield from Check.shrink(self, plan)

    # ---------------------------------------------------------------- one execution, inside a zygote's child
    def workload(self, run, p, env, out):
        bench = Bench(run, p["docs"])
        bench.start(p["lists"])
        acts = {}
        for name, j, n in env.get("acts", []):
            acts[j] = (name, n)
        for j, op in enumerate(p["ops"]):
            fault = ["act:" + acts[j][0], acts[j][1]] if j in acts else None
            if op["twin"]:
                k, o = real.call(real.to_real, p["docs"][op["d"]])
                a, _ = bench.do(op, fault, target=o) if k == "ok" else (None, 0)
            else:
                a, _ = bench.do(op, fault)
            out.append([describe_short(op), a])
            if op["t"] == "churn" and a is not None and a[0] == "ok":
                k = len(op["nodes"])
                for i, x in enumerate(a[1]):
                    if x != a[1][i % k]:
                        raise Violation("surroundings", f"document {i} of {op['n']} built and given up in turn has the same content as "
                                        f"document {i % k}, which gave {a[1][i % k]}, but gives {x}")
            o = bench.live[op["d"]]
            if o is not None:
                k, text = real.call(o.model_dump_json)
                out.append(["saved", text if k == "ok" else [k, type(text).__name__]])
                run.state(text if k == "ok" else k)

    def inside(self, run, p, env):
        out = []
        if "acts" not in env and "sched" not in env:
            MON.pause()
        arrange(env)
        if "past" in env:
            rng = random.Random(env["seed"])
            for n in p["past"] + p["docs"][:p.get("main", 9)]:
                k, o = real.call(real.to_real, n)
                if k != "ok":
                    continue
                b = Bench(run, [n])
                b.start([["Unified", "Tags"]])
                for _ in range(3):
                    b.do(gen_op(rng, [n], 0, bad=0.5))
            run.count("env:past work in the process")
        if "sched" in env:
            def noise():
                rng = random.Random(env["seed"])
                b = Bench(run, p["past"] + p["docs"][:p.get("main", 9)])
                for _ in range(4):
                    b.do(gen_op(rng, b.docs, bad=0.5))
            run.clients([lambda: self.workload(run, p, env, out), noise], env["sched"])
        elif "loop" in env:
            async def go():
                self.workload(run, p, env, out)
            asyncio.run(go())
        elif "thread" in env:
            c = Client(1, lambda: self.workload(run, p, env, out))
            run.clients([c.fn], [])
        else:
            self.workload(run, p, env, out)
        run.carry = out

    # ---------------------------------------------------------------- comparing executions
    def ask(self, run, p, env):
        z = zygote(env["z"])
        SEQ[0] += 1
        rid = f"{id(run)}.{run.plan.get('index')}.{SEQ[0]}"
        q = {k: p[k] for k in p if k != "envs"}
        z.stdin.write(json.dumps({"plan": q, "env": env, "id": rid, "verbose": False}).encode() + b"\n")
        z.stdin.flush()
        while True:
            line = z.stdout.readline()
            if not line:
                raise RuntimeError(f"the process with configuration {env['z']} died")
            r = json.loads(line)
            if r.get("id") == rid:
                break
        if "harness" in r:
            raise RuntimeError(r["harness"])
        if "viol" in r:
            raise Violation(r["viol"][0], r["viol"][1] + f" (surroundings {env})")
        if "v" not in r:
            raise Violation("progress", f"no end in sight with surroundings {env}: {r}")
        v = r["v"]
        if v.get("viol"):
            raise Violation(v["viol"][0], v["viol"][1] + f" (surroundings {env})")
        for k, n in v["stats"].items():
            run.count(k, n)
        run.states.update(v["states"])
        run.ops += v["ops"]
        MON.steps += v["steps"]
        return v["carry"]

    def run(self, run, phase, carry):
        p = run.plan
        if phase == 1:
            return self.inside(run, p, carry)
        base = self.ask(run, p, {"z": 0, "seed": 0})
        if not base:
            raise EndRun("nothing to compare")
        run.log(base)
        for env in p["envs"]:
            got = self.ask(run, p, env)
            run.count("executions compared")
            run.count(f"config:{env['z']}")
            for k in env:
                if k in ("deny", "clock", "random", "gc", "litter", "logging", "environ", "reclimit", "streams", "files", "tracer", "asked", "facts"):
                    run.count("fault:" + k)
            run.log(env, got == base)
            for j, (x, y) in enumerate(zip(base, got)):
                if x != y:
                    what = f"operation {x[0]}" if x[0] != "saved" else f"saving after {base[j - 1][0]}"
                    raise Violation("surroundings", f"{what} gives {real.short(y[1], 300)} with surroundings "
                                    f"{ {k: v for k, v in env.items() if k != 'seed'} } (process configuration "
                                    f"{CONFIGS[env['z']]}), but {real.short(x[1], 300)} in the reference process")
            if len(base) != len(got):
                raise Violation("surroundings", f"the workload ended early with surroundings {env}")


def describe_short(op):
    from .c11 import describe
    return describe(op)


CHECK = C12()
__all__ = ["threading"]
