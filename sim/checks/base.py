"""What every check provides."""
import json

from ..engine import EndRun, Run, Violation  # noqa: F401
from ..model import NONE, SHAPE, clone, fields, node_ok, fits


def dumps(x):
    return json.dumps(x, sort_keys=True, default=str)


class Check:
    ID = ""
    PHASES = 1
    RUNS = {"quick": 4000, "thorough": 60000}
    NODE_KEYS = ("init",)

    def plan(self, rng, i, tier):
        raise NotImplementedError

    def run(self, run, phase, carry):
        raise NotImplementedError

    def reset(self):
        """After a run that was ended from outside: give up what it may have left half done."""

    # ---------------------------------------------------------------- shrinking
    def shrink(self, plan):
        """Smaller plans, most drastic first."""
        for key in ("ops", "sched", "faults", "clients"):
            xs = plan.get(key)
            if not isinstance(xs, list) or not xs:
                continue
            n = len(xs)
            step = n
            while step >= 1:
                for a in range(0, n, step):
                    if key == "clients" and step == n:
                        continue
                    p = dict(plan)
                    p[key] = xs[:a] + xs[a + step:]
                    yield p
                step //= 2
        for key in ("clients",):
            for ci, c in enumerate(plan.get(key) or []):
                if isinstance(c, dict):
                    for q in self.shrink(c):
                        p = clone(plan)
                        p[key][ci] = q
                        yield p
        if plan.get("fine"):
            p = dict(plan)
            p["fine"] = False
            yield p
        for i, g in enumerate(plan.get("sched") or []):
            if g[0] > 1:
                p = clone(plan)
                p["sched"][i][0] = g[0] // 2
                yield p
        for key in self.NODE_KEYS:
            v = plan.get(key)
            if isinstance(v, dict):
                for s in simpler(v):
                    if node_ok(s):
                        p = dict(plan)
                        p[key] = s
                        yield p
            elif isinstance(v, list):
                for j, n in enumerate(v):
                    if isinstance(n, dict) and ("m" in n or "M" in n):
                        for s in simpler(n):
                            if node_ok(s):
                                p = dict(plan)
                                p[key] = v[:j] + [s] + v[j + 1:]
                                yield p
        for j, op in enumerate(plan.get("ops") or []):
            v = op.get("v") if isinstance(op, dict) else None
            if isinstance(v, dict) and ("m" in v or "M" in v or "l" in v):
                for s in simpler(v):
                    p = dict(plan)
                    p["ops"] = plan["ops"][:j] + [dict(op, v=s)] + plan["ops"][j + 1:]
                    yield p


def simpler(n):
    """Nodes with one part dropped or reset to its default."""
    if "m" in n:
        for k, d in fields(n["m"]).items():
            x = n["f"].get(k)
            if x is None:
                continue
            dv = {"j": d.get("default")}
            if x != dv and not d.get("required"):
                yield dict(n, f=dict(n["f"], **{k: dv}))
        for k in n["x"]:
            yield dict(n, x={a: b for a, b in n["x"].items() if a != k})
        for k, x in n["f"].items():
            for s in simpler(x):
                yield dict(n, f=dict(n["f"], **{k: s}))
    elif "M" in n and isinstance(n["d"], list):
        for i in range(len(n["d"])):
            yield dict(n, d=n["d"][:i] + n["d"][i + 1:])
        for i, (k, x) in enumerate(n["d"]):
            for s in simpler(x):
                yield dict(n, d=n["d"][:i] + [[k, s]] + n["d"][i + 1:])
    elif "l" in n:
        for i in range(len(n["l"])):
            yield {"l": n["l"][:i] + n["l"][i + 1:]}
        for i, x in enumerate(n["l"]):
            for s in simpler(x):
                yield {"l": n["l"][:i] + [s] + n["l"][i + 1:]}
    elif "D" in n:
        for i in range(len(n["D"])):
            yield {"D": n["D"][:i] + n["D"][i + 1:]}
