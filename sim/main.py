"""Entry point: run one check, or replay one file.

  main.py C01 [--tier quick|thorough] [--runs N] [--workers N] [--cap SECONDS]
  main.py replay FILE
  main.py digest C01 FIRST COUNT      (prints the event-log digest of each run)
"""
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
CAP = {"quick": 240, "thorough": 3000}


def respawn():
    """Pin the surroundings of the simulator itself."""
    want = {"PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": "/nonexistent/sim"}
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    env = dict(os.environ, **want)
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        env.pop(k, None)
    os.execve(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


def get_check(cid):
    return importlib.import_module("sim.checks." + cid.lower()).CHECK


def make_plan(check, seed, i, tier):
    from sim.engine import rng_for
    p = check.plan(rng_for(seed, check.ID, i), i, tier)
    p.update(check=check.ID, seed=seed, index=i)
    return json.loads(json.dumps(p))


def run_plan(check, plan, verbose=False):
    from sim.engine import execute
    wait = getattr(check, "WAIT", 60)
    r = execute(check, plan, wait, verbose)
    if r.get("timeout"):
        check.reset()
        r = execute(check, plan, max(200, wait), verbose)
        if r.get("timeout"):
            check.reset()
            r["viol"] = ["progress", "the run did not finish within 200 s"]
    return r


# ------------------------------------------------------------------ workers
def worker(check, seed, tier, w, n, total, deadline, wfd, rfd_stop):
    acc = {"runs": 0, "stats": {}, "steps": 0, "ops": 0, "replayed": 0, "mismatch": 0, "early": 0,
           "trivial": 0, "samples": [], "focus": 0}
    logs, states, inters, foci = set(), set(), set(), set()
    first = None
    i = w
    limit = total
    err = None
    known = []
    while i < limit and time.monotonic() < deadline:
        if select.select([rfd_stop], [], [], 0)[0]:
            # another worker found a violation at a smaller index: go no further than that
            data = os.read(rfd_stop, 64).split()
            if not data:
                break
            limit = min(limit, *(int(x) for x in data))
            continue
        try:
            plan = make_plan(check, seed, i, tier)
        except Exception:  # noqa: BLE001
            import traceback
            err = f"planning run {i}: {traceback.format_exc()}"
            break
        r = run_plan(check, plan)
        if r.get("harness"):
            err = f"run {i}: {r['harness']}"
            break
        acc["runs"] += 1
        acc["steps"] += r["steps"]
        acc["ops"] += r["ops"]
        for k, v in r["stats"].items():
            acc["stats"][k] = acc["stats"].get(k, 0) + v
        states.update(r["states"])
        if r["inter"]:
            inters.add(r["inter"])
        if "focus" in plan:
            foci.add(json.dumps(plan["focus"]))
        if r["ops"] == 0:
            acc["trivial"] += 1
        else:
            logs.add(r["log"])
        if any(k.startswith("ended early") for k in r["stats"]):
            acc["early"] += 1
        if w == 0 and len(acc["samples"]) < 3 and r["ops"]:
            acc["samples"].append({"index": i, "plan": trim(plan), "digest": r["log"], "steps": r["steps"]})
        if i % 97 == 0 and not r["viol"]:
            acc["replayed"] += 1
            r2 = run_plan(check, plan)
            if r2["log"] != r["log"]:
                acc["mismatch"] += 1
        if r["viol"]:
            k = known_match(check.ID, plan, r["viol"])
            if k:
                known.append(k)
            else:
                first = [i, r["viol"]]
                os.write(wfd, (json.dumps({"found": i}) + "\n").encode())
                break
        i += n
    acc.update(first=first, err=err, logs=sorted(logs), states=sorted(states), inters=sorted(inters),
               foci=sorted(foci), known=known)
    data = (json.dumps({"done": acc}, default=str) + "\n").encode()
    while data:
        m = os.write(wfd, data)
        data = data[m:]


def trim(x, n=900):
    s = json.dumps(x, sort_keys=True, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "..."


def known_list():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def known_match(cid, plan, viol):
    """An open finding identified by the specific thing that fails, or None."""
    for k in known_list():
        if k.get("status") == "open" and k["property"] == cid and k["kind"] == viol[0] \
                and k["match"] in viol[1]:
            return k["what"]
    return None


def explore(check, seed, tier, workers, total, cap):
    t0 = time.monotonic()
    deadline = t0 + cap
    procs = []
    sys.stdout.flush()
    for w in range(workers):
        r, wr = os.pipe()
        sr, sw = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.close(sw)
                for _, pr, psw in procs:
                    os.close(pr)
                    os.close(psw)
                worker(check, seed, tier, w, workers, total, deadline, wr, sr)
            except BaseException:  # noqa: BLE001
                import traceback
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        os.close(sr)
        procs.append((pid, r, sw))
    bufs = {r: b"" for _, r, _ in procs}
    res = []
    live = {r for _, r, _ in procs}
    while live:
        rs, _, _ = select.select(list(live), [], [], 5)
        if time.monotonic() > deadline + 500:
            for pid, _, _ in procs:
                os.kill(pid, signal.SIGKILL)
        for r in rs:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                continue
            bufs[r] += b
            while b"\n" in bufs[r]:
                line, bufs[r] = bufs[r].split(b"\n", 1)
                m = json.loads(line)
                if "found" in m:
                    for _, _, sw in procs:
                        try:
                            os.write(sw, f"{m['found']} ".encode())
                        except OSError:
                            pass
                else:
                    res.append(m["done"])
    for pid, r, sw in procs:
        os.close(r)
        os.close(sw)
        os.waitpid(pid, 0)
    return res, time.monotonic() - t0


def minimise(check, plan, viol, limit=45.0):
    """Greedy shrinking while the same class of violation persists."""
    t0 = time.monotonic()
    tried = 0
    progress = True
    while progress and time.monotonic() - t0 < limit:
        progress = False
        for cand in check.shrink(plan):
            if time.monotonic() - t0 > limit:
                break
            tried += 1
            cand = json.loads(json.dumps(cand))
            try:
                r = run_plan(check, cand)
            except Exception:  # noqa: BLE001
                continue
            if r.get("viol") and r["viol"][0] == viol[0]:
                plan, viol = cand, r["viol"]
                progress = True
                break
    return plan, viol, tried


def main_check(cid, tier, runs=None, workers=None, cap=None):
    from sim import engine
    engine.boot()
    check = get_check(cid)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    workers = workers or min(8, os.cpu_count() or 4)
    total = runs or check.RUNS[tier]
    cap = cap or CAP[tier]
    print(f"{cid}: seed {seed}, tier {tier}, {total} runs on {workers} workers", flush=True)
    res, wall = explore(check, seed, tier, workers, total, cap)
    if len(res) != workers:
        print(f"HARNESS ERROR: {workers - len(res)} workers died", flush=True)
        return 2
    errs = [r["err"] for r in res if r["err"]]
    firsts = sorted((r["first"] for r in res if r["first"]), key=lambda x: x[0])
    cov = coverage(check, res, wall, seed)
    code = 0
    nviol = 0
    for what in sorted({k for r in res for k in r["known"]}):
        print(f"KNOWN-FINDING: property={cid} {what}", flush=True)
    if firsts:
        i, viol = firsts[0]
        plan = make_plan(check, seed, i, tier)
        before = size(plan)
        small, sviol, tried = minimise(check, plan, viol)
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", f"{cid}-{seed}-{i}.json")
        trace = run_plan(check, small, verbose=True)
        doc = {"check": cid, "seed": seed, "index": i, "violation": sviol, "size": [before, size(small)],
               "candidates_tried": tried, "plan": small, "trace": trace.get("text", [])}
        write(path, doc)
        again = replay_fresh(path)
        if again != 1:
            # keep the plan as found: shrinking went through something that does not repeat
            doc.update(plan=plan, violation=viol, note="not minimised: the shrunk plan did not repeat")
            write(path, doc)
            again = replay_fresh(path)
        print(f"  run {i}: [{doc['violation'][0]}] {doc['violation'][1]}", flush=True)
        print(f"  plan shrunk from {before} to {size(doc['plan'])} bytes in {tried} tries; "
              f"fresh replay {'repeats it' if again == 1 else 'does NOT repeat it'}", flush=True)
        print(f"VIOLATION property={cid} replay={path}", flush=True)
        nviol = 1
        code = 1
    elif errs:
        print("HARNESS ERROR: " + errs[0], flush=True)
        code = 2
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.ASSUME if hasattr(check, "ASSUME") else [], "wall_s": round(wall, 2),
          "violations": nviol}
    os.makedirs(EVID, exist_ok=True)
    write(os.path.join(EVID, f"{cid}.json"), ev)
    print(f"{cid}: {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct, {cov['library_operations']} "
          f"operations, {cov['logical_steps']} steps in {wall:.1f} s", flush=True)
    return code


def size(p):
    return len(json.dumps(p))


def write(path, doc):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, path)


def replay_fresh(path):
    try:
        return subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "replay", path],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=500,
                              stdin=subprocess.DEVNULL).returncode
    except subprocess.TimeoutExpired:
        return -1


def coverage(check, res, wall, seed):
    stats = {}
    u = lambda k: set().union(*(set(r[k]) for r in res))
    for r in res:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    runs = sum(r["runs"] for r in res)
    logs, states, inters, foci = u("logs"), u("states"), u("inters"), u("foci")
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    per_h = int(runs / wall * 3600) if wall else 0
    return {
        "evaluations": runs,
        "distinct_nontrivial": len(logs),
        "rule": "one evaluation is one simulated run: a plan drawn from its own seed (VERIF_SEED:check:index) and "
                "executed from a pristine forked process. A run counts as distinct and non-trivial when it executed "
                "at least one library operation and its event log (operations, outcomes, schedule) differs from "
                "that of every other run.",
        "samples": [s for r in res for s in r["samples"]][:3] or [{"note": "none"}],
        "runs_per_hour": per_h,
        "seeds_per_hour": per_h,
        "simulated_time": "the library has no clock; time is logical: one step per library line (or bytecode "
                          "instruction in fine-grained runs) executed under the scheduler",
        "logical_steps": sum(r["steps"] for r in res),
        "library_operations": sum(r["ops"] for r in res),
        "faults_injected": faults,
        "fault_sites": {k[15:]: v for k, v in sorted(stats.items()) if k.startswith("fault fired in ")},
        "preemptions": stats.get("preemption", 0),
        "distinct_interleavings": len(inters),
        "distinct_document_states": len(states),
        "focus_points_covered": len(foci),
        "probes": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault", "preemption"))},
        "replays_compared": sum(r["replayed"] for r in res),
        "replays_differing": sum(r["mismatch"] for r in res),
        "runs_without_operations": sum(r["trivial"] for r in res),
        "runs_ended_early": sum(r["early"] for r in res),
        "real_components": "all of asyncapi3 from /repo, pydantic, pydantic-core, CPython threads",
        "stubbed_components": check.STUBS if hasattr(check, "STUBS") else
        "thread scheduling, interruptions and stack depth (simulated)",
    }


def main_replay(path):
    from sim import engine
    engine.boot()
    with open(path) as f:
        doc = json.load(f)
    check = get_check(doc["check"])
    r = run_plan(check, doc["plan"], verbose=True)
    for t in r.get("text", []):
        print("  ", t)
    if r.get("harness"):
        print("HARNESS ERROR: " + r["harness"])
        return 2
    if r["viol"]:
        print(f"  [{r['viol'][0]}] {r['viol'][1]}")
        same = r["viol"] == doc["violation"]
        print("same violation as recorded" if same else "a violation, worded differently from the recorded one")
        print(f"VIOLATION property={doc['check']} replay={path}")
        return 1
    print("no violation")
    return 0


def main_digest(cid, a, n):
    from sim import engine
    engine.boot()
    check = get_check(cid)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    for i in range(a, a + n):
        r = run_plan(check, make_plan(check, seed, i, "quick"))
        print(i, r["log"], r["steps"], r["inter"], r.get("viol"), r.get("harness"), flush=True)
    return 0


def main(argv):
    if argv[0] == "replay":
        return main_replay(argv[1])
    if argv[0] == "digest":
        return main_digest(argv[1], int(argv[2]), int(argv[3]))
    opt = {}
    it = iter(argv[1:])
    for a in it:
        opt[a.lstrip("-")] = next(it)
    tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    return main_check(argv[0], tier, int(opt["runs"]) if "runs" in opt else None,
                      int(opt["workers"]) if "workers" in opt else None,
                      float(opt["cap"]) if "cap" in opt else None)


if __name__ == "__main__":
    respawn()
    sys.path.insert(0, HERE)
    sys.exit(main(sys.argv[1:]))
