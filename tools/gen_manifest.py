#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
tech = {
    "net": "deterministic simulation: seeded search over message, disk, crash and entropy faults in a simulated network",
    "adv": "deterministic simulation: seeded search over corrupting and dishonest nodes in a simulated network",
    "thr": "deterministic simulation: seeded search over thread schedules and crash points, race detector as extra oracle",
    "ent": "deterministic simulation: seeded search over entropy-source faults",
    "alg": "deterministic simulation: seeded histories checked against an executable reference model",
}
table = {
    "C01": "net", "C02": "net", "C03": "adv", "C04": "adv", "C05": "thr", "C06": "thr", "C07": "ent", "C08": "ent", "C09": "net", "C10": "adv",
    "C11": "adv", "C12": "net", "C13": "adv", "C14": "net", "C15": "thr", "C16": "net", "C17": "alg", "C18": "alg", "C19": "thr", "C20": "adv", "C21": "adv",
}
note = ("Seeded search, not exhaustive: assurance covers the executions explored (counts, fault kinds and histories are in the evidence file). "
        "The repository's code runs unmodified in meaning; network, disk, entropy, threads and crashes are simulated. Trusts the Go compiler, "
        "the simulator and, for adversarial properties, the completeness of its strategy library.")
extra = {
    "thr": " Preemption is at statement granularity of the repository's own packages; dependencies run atomically. Data races are judged by Go's race detector under the simulated schedules.",
    "adv": " Cryptographic hardness is assumed: only the simulator's strategies are tried.",
}
na = {
    "C30": "a pure function of its argument: no concurrency, time, I/O, randomness or second party for a simulator to control",
    "C31": "a pure function of its argument: no concurrency, time, I/O, randomness or second party for a simulator to control",
    "C32": "a pure function of its arguments; its effect on honest and dishonest proofs is covered through C01, C09 and C14",
    "C33": "a pure function of a label: nothing for a simulator to schedule or fail; its use by provers and verifiers is exercised through C01 and C11",
    "C34": "a pure function of its arguments: nothing for a simulator to schedule or fail; the supported ranges are exercised through C01, C09 and C14",
    "C35": "pure functions of their arguments: nothing for a simulator to schedule or fail; used indirectly by C01, C03 and C11",
    "C36": "about physical time and memory-access patterns of real hardware, which a simulation with virtual time does not observe",
}
here_checks = [l.split()[0] for l in open(os.path.join(here, "tools", "checks.txt")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Checks instrument a copy of /repo's working tree through go build -overlay; /repo has no hook commits. "
             "Replay a violation with ./replay.sh FILE. Longer thorough runs: VERIF_TIER=thorough ./check.sh ID -seconds N.",
}
for p in props:
    i = p["id"]
    if i in here_checks:
        k = table[i]
        m["checks"].append({
            "property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": tech[k], "level": "exploration", "level_note": note + extra.get(k, ""),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
