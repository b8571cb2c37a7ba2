#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
T = {
 "C01": "deterministic simulation: several callers with built, copied and re-keyed engines preempted at single statements by a seeded scheduler, entropy faults and refused calls; each caller's own solo run is the oracle",
 "C02": "deterministic simulation: seeded preemption inside every call, entropy faults and refused calls; fingerprints of inputs, shared objects and earlier results at the preemption points and afterwards, results overwritten by their owners",
 "C03": "deterministic simulation: long-lived engines under seeded histories with refused and starved calls and preemption; a newly built engine is the oracle",
 "C04": "deterministic simulation: receivers with seeded pasts (earlier results, abandoned and refused calls, other sizes) and aliased operands; the same call into an empty receiver is the oracle",
 "C05": "deterministic simulation: nodes exchanging blobs over a lossy, duplicating, reordering network and a crashing disk; structural and by-use equality oracles",
 "C06": "deterministic simulation: disk and network faults (truncation, torn, lost, stale sectors, bit flips) on stored blobs; crash, time, memory and content oracles",
 "C07": "deterministic simulation: seeded schedules over shared keyed streams, reference stream oracle",
 "C08": "deterministic simulation: samplers over a fault-injected byte source, support and progress oracles",
 "C10": "deterministic simulation: a client and several workers over a network that loses, duplicates, delays and reorders, with crashes, torn writes and restarts from stored keys and ciphertexts; slot-by-slot reference model with worst-case error bounds, progress once faults stop",
 "C11": "deterministic simulation: nodes with the fast key-switching engine, key generators with entropy faults, refused calls, reused engines and receivers, seeded preemption; exact noise oracle",
 "C12": "deterministic simulation: key authorities and workers with entropy faults, refused calls, seeded preemption and reused engines; exact key-error and noise oracles",
 "C13": "deterministic simulation: key holders and senders with entropy faults, refused calls, seeded preemption and reused receivers; exact phase oracle",
 "C14": "deterministic simulation: long histories of evaluator calls over a growing pool of ciphertexts with refused calls, crash/restart from stored objects, dirty receivers and several engines; exact phase ledger as oracle",
 "C09": "deterministic simulation: entropy-device faults and seeded task schedules, freshness oracle over the history",
}
NOTE = "seeded search over simulated runs of the real code; bounded rings, step counts and fault budgets (see DESIGN.md); every failure is confirmed, minimised and replayed in a fresh process"
exec(open(here + "/tools/techniques.py").read()) if os.path.exists(here + "/tools/techniques.py") else None
NA = {
 "N01": None, "N02": None, "N03": None, "N04": None,
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"bash bin/check.sh {i} quick", "thorough_cmd": f"bash bin/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": REASON.get(i, "no check yet: the world for it is not built") if 'REASON' in globals() else "no check yet: the world for it is not built"})
m = {"version": 1,
 "setup_cmd": "bash bin/setup.sh",
 "hooks": {"guard": "go build -overlay (no file of /repo is changed: the seams and yield points are inserted into copies of the sources at build time)",
           "enable": "bin/build.sh instruments /repo's working tree with sim/cmd/instrument and builds sim/cmd/vsim with the overlay", "source_commits": []},
 "checks": checks, "not_applicable": na,
 "notes": "one simulator (sim/) decides every property; bin/replay.sh FILE replays a violation"}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
