#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: offline oracle (reference model) over the recorded outputs of generated runs"
T = {
 "C04": MODEL, "C05": MODEL, "C06": "runtime monitoring: source and output of generated runs compared node by node",
 "C15": "runtime monitoring: race detector, delays woven before statements, goroutine/processor perturbation; outputs of all schedules compared",
 "C13": "runtime monitoring: comments of recorded outputs checked against sources, runs with and without the setting compared",
 "C16": "runtime monitoring: files written and listed recorded and compared with the documented places",
 "C17": "runtime monitoring: recorded runs over generated directory trees compared with the expanded listing",
 "C18": "runtime monitoring: recorded stdout and file-mode runs compared with each other and the model",
 "C19": "runtime monitoring under injected faults: exit status and completeness of the output of runs with one broken part (input damage, permissions, full disk, resource limits, failing system calls)",
 "C20": "runtime monitoring under hostile inputs: crash, hang and exit-status monitor over mutated and generated files and flags",
 "C21": "runtime monitoring: effects of every setting observed for generated combinations of flags, environment and configuration",
 "C22": "runtime monitoring: runs with templates compared with runs of the text rendered by an independent use of text/template",
 "C23": "runtime monitoring: recorded runs of a command line and of the equivalent instruction file compared",
 "C24": "runtime monitoring: outputs in all styles and indents compared with the plain one and the model",
 "C25": "runtime monitoring: snapshots of inodes, times and content, system-call trace monitor (strace) and kills injected at system calls",
 "C26": "runtime monitoring: histories of runs recorded and compared with fresh runs",
 "C29": "runtime monitoring under resource limits: runs over many files with few descriptors and without garbage collection, outputs compared with the model",
 "C30": "runtime monitoring with known faults: messages of runs with exactly one wrong part among many files, checked against where it was planted",
 "C33": "runtime monitoring with known faults: files before and after runs with one wrong input, and their standard output, compared",
 "C32": "runtime monitoring: recorded runs in generated surroundings (environment, directories, files near by, standard input) compared with a plain run",
 "C31": "runtime monitoring with injected ends: signals and errors at system calls (strace) and random times; files left, standard output and the repeated run compared with an undisturbed run",
 "C27": "runtime monitoring: every output read by two independent YAML parsers, aliases and comments checked",
}
FAULT = {"C19", "C25", "C31", "C33"}
NOTE = {
 "C15": "No schedule of the executed ones raced or changed the output; schedules are sampled (delays, GOMAXPROCS, GC, slow readers), not enumerated. ",
 "C19": "Faults are sampled from a catalogue of places and kinds; what is judged is the exit status, the message and that success means complete output. ",
 "C20": "Coverage is that of the executed inputs; a run counts as hanging after a generous time limit under an idle machine. ",
 "C31": "Stopping points are sampled by file, system call and count; without strace, runs are stopped after random times only. ",
 "C25": "Kills hit sampled system calls; without strace the traced cases are replaced by snapshot cases. ",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({
        "property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
        "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, MODEL),
        "level": "fault_enumeration" if i in FAULT else "exploration",
        "level_note": NOTE.get(i, "The property held on every execution of the real binary which was observed; inputs are sampled by generators. ") + "Trusts the reference model and comparison code in harness/, written from the documentation, the YAML library for parsing (cross-checked by C27), and the assumptions listed in the evidence.",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are committed to /repo: C15 weaves delays into copies of the current sources with 'go build -overlay'."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
