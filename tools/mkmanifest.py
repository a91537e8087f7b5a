#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. DONE lists the properties that have a check."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE=json.load(open(os.path.join(here,"tools","claimed.json")))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
NA={
"C19":"computational hardness of lattice and group assumptions: no execution of the system, under any schedule or fault, shows or refutes it",
"C20":"pure functions of their input (encode, then decode): no schedule, fault, clock, message or I/O to simulate; their observable consequences are decided through C01, C02, C03, C05 and C12",
"C21":"physical execution time and memory-access patterns: the simulator replaces the clock and the scheduler, so what it would measure is its own behaviour, not the code's",
}
checks=[]
for p in props:
    i=p["id"]
    if i in DONE:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":"deterministic simulation with fault injection: seeded search over schedules, faults and inputs of the real code in one process, with replay and minimisation",
          "level":"exploration","level_note":DONE[i]})
na=[]
for p in props:
    i=p["id"]
    if i in NA: na.append({"property":i,"reason":NA[i]})
    elif i not in DONE: na.append({"property":i,"reason":"the check is not built yet"})
m={"version":1,"setup_cmd":"./setup.sh",
"hooks":{"guard":"zzsim overlay (go build -overlay, generated at check time by /verif/sim/instrument; /repo holds no hook)","enable":"/verif/build.sh: every file of the current tree is rewritten into a build overlay outside /repo; without -overlay the shipped code is unchanged","source_commits":[]},
"checks":checks,"not_applicable":na,
"notes":"Deterministic simulation of the whole system. See DESIGN.md. replay.sh FILE replays a violation."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
