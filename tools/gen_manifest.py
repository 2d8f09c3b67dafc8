#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks whose source exists."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
MC = "model_checking"
EX = "exploration"
T = {
 "C01": (MC, "exhaustive inputs/masks plus schedule enumeration of the real garbling over simulated TCP, tables opened and compared with the gate function"),
 "C02": (MC, "schedule enumeration (task order, select order, partial reads and writes, join order) of the real protocol stack"),
 "C03": (MC, "exhaustive secrets in tiny fields and schedule enumeration of multiplication and degree reduction"),
 "C04": (MC, "enumerated transformations, secrets and schedules of both sharing transformations"),
 "C05": (EX, "enumeration of requests and of the draws behind the material of the real preprocessing, opened against its definition"),
 "C06": (EX, "enumeration of honest randomness given every t-view, or ranks of the view map"),
 "C07": (EX, "enumeration of dealer randomness given the adversary's view of the online messages"),
 "C08": (EX, "enumeration of all randomness in tiny fields; ranks of all share subsets in the shipped field"),
 "C09": (EX, "enumeration of all secrets, randomness and positions in tiny fields; unit vectors in the shipped field"),
 "C10": (EX, "enumeration of all share vectors in tiny fields; all one- and two-share alterations in the shipped field"),
 "C11": (EX, "enumeration of field elements and operand pairs against shift-and-add arithmetic"),
 "C12": (MC, "all set-up histories and all thread interleavings at pause points of the real table construction"),
 "C13": (EX, "enumeration of values, lengths and layouts through the real encoders"),
 "C14": (EX, "enumeration of all point lists in tiny fields, every monomial"),
 "C15": (EX, "enumeration of all contribution subsets: ranks of every submatrix that extraction relies on"),
 "C16": (EX, "enumeration of all small circuit files, groupings and layouts against an interpreter"),
 "C17": (EX, "enumeration of all small circuits and packing parameters"),
 "C18": (EX, "enumeration of circuits and parameters; announced counts compared with what the real garbling takes"),
 "C19": (EX, "enumeration of child counts and nestings of protocol IDs"),
 "C20": (MC, "schedule and fault-free history enumeration of the real message router over simulated TCP"),
 "C21": (MC, "enumeration of stream splits, payload sizes and schedules of the real framing code"),
 "C22": (MC, "enumeration of start orders and connection schedules of the real set-up"),
 "C23": (MC, "schedule enumeration of rounds and barriers"),
 "C24": (MC, "schedule enumeration with byte counts taken from the simulated wire"),
 "C25": (EX, "matrices identified from unit-key garblings, all uses compared"),
 "C26": (MC, "schedule enumeration of the real benchmark programs in a simulated machine"),
 "C29": (EX, "whole garblings of small circuits, effects of every secret compared with the span of fresh randomness for every set of t parties"),
 "C30": (EX, "whole runs of the steps, of preprocessing and of garbling; bytes of every party on all connections compared with the average"),
 "C31": (MC, "schedule enumeration of several real protocol instances on one network, every instance's results opened"),
 "C32": (EX, "the real launcher with a recording stand-in for the programs, all numbers of parties up to a bound"),
 "C33": (EX, "the real generator script on all requests up to a bound, every combination of outputs of its matrices weighed"),
 "C34": (EX, "the real estimate script and whole runs of preprocessing and garbling over enumerated parameters and circuits, traffic compared"),
 "C27": (EX, "enumeration of descriptions and parameters, material compared with real preprocessing"),
}
LN = {
 MC: "bounded: parameters, deviations from the base schedule and execution counts are capped as reported in the evidence; every explored execution is the real code",
 EX: "bounded: complete within the stated fields, sizes and configurations",
}
checks = []
for p, (lvl, tech) in sorted(T.items()):
    if not os.path.exists(f"mc/src/bin/{p.lower()}.rs"):
        continue
    checks.append({"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": tech, "level": lvl, "level_note": LN[lvl]})
na = [{"property": "C28", "reason": "the LPN script is a numerical search that takes a minute per parameter set and the computation estimates are formulas: no executions to enumerate, and the only oracle would be a second copy of the same formulas"}]
for l in open("properties.jsonl"):
    i = json.loads(l)["id"]
    if i not in T and i != "C28" or i in T and not any(c["property"] == i for c in checks):
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash run.sh --build",
     "hooks": {"guard": "none", "enable": "no instrumentation in the repository; the checks replace tokio, rand, rand_chacha, rayon-core and argh at link time through [patch.crates-io] in mc/Cargo.toml", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Python scripts run with stand-ins for numpy and galois (standins/). Every check rebuilds from /repo into /verif/target (release and a build with debug assertions and overflow checks) and runs both. Known findings: known_findings.txt. Replay: bash run.sh <ID> quick --replay <file>."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
