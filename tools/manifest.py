"""Writes MANIFEST.json from the list of checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "Seeded search over edit histories, rejection causes, interruption instants and stack depths on every "
           "class and field; each edit is compared with a full snapshot taken before it. Samples, does not enumerate.",
    "C02": "Seeded search over edit histories on every class and field; verdicts and results compared with an "
           "independent reference model of the documented rules and with fresh construction of the same content.",
    "C03": "Seeded search over places, routes of unvalidated damage and re-validation routes for every class and "
           "field; sound content is checked to pass. Only damage to typed content counts.",
    "C04": "Seeded search over reference locations, targets, chains, cycles, colliding keys, edit histories and "
           "thread schedules; verdicts compared with an independent resolver over the reference model.",
    "C05": "Seeded search over donors, owners and edits with full snapshots of every other owner, and over thread "
           "schedules with results compared to solo runs.",
    "C06": "Seeded search over processor lists, failures, edits and schedules; recorded calls compared with the "
           "documented pipeline.",
    "C07": "Seeded search over readers, interruptions and schedules of concurrent readers; full snapshots before and "
           "after, answers compared with solo answers.",
    "C08": "Seeded search over histories, crash points and damaged saved text; restored documents compared with the "
           "reference model and the original in a fresh process.",
    "C09": "Seeded search over operation sequences on every collection class against a dict model, with "
           "interruptions and stack exhaustion.",
    "C10": "Seeded search over documented locations, targets, histories and schedules against an independent table "
           "of the documented places.",
    "C11": "Seeded search over failing and interrupted operations; a battery of later operations is compared with "
           "a process where the failure never happened.",
    "C12": "Seeded search over workloads, each run in several differently configured processes and under injected "
           "surroundings faults; event logs must be identical.",
}
NA = {
    "C13": "Pure function of one input: no schedule, clock, fault or history takes part, so simulation has nothing to "
           "vary. (Both spellings are used to build objects inside the simulated workloads.)",
    "C14": "Pure function of one input, and the official schema is not available offline.",
    "C15": "Pure function of one string; no schedule, fault or history takes part. (Sample strings of each format are "
           "used inside the simulated workloads.)",
    "C16": "Pure function of the class definitions; no schedule, fault or history takes part.",
    "C17": "Pure function of one name; no schedule, fault or history takes part.",
}
checks = []
na = [{"property": k, "reason": v} for k, v in NA.items()]
for cid in sorted(NOTES):
    if os.path.exists(os.path.join(HERE, "sim", "checks", cid.lower() + ".py")):
        checks.append({
            "property": cid, "quick_cmd": f"./check.sh {cid} --tier quick",
            "thorough_cmd": f"./check.sh {cid} --tier thorough",
            "evidence_file": f"evidence/{cid}.json",
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration", "level_note": NOTES[cid]})
    else:
        na.append({"property": cid, "reason": "check under construction"})
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every seam is sys.monitoring events, forked processes, simulated locks and "
                "processors supplied through the public API."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
