#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("supervised execution of every entry point and accessor on hostile strings; panic hook, exit status, CPU clock, 2 MiB stacks, AddressSanitizer (thorough)", "exploration",
         "Every sequence of up to 3 (thorough: 5) of 21 tokens is enumerated, alone and inside a calendar; mutated, spliced, truncated, deeply nested, repeated and hostile-valued documents are sampled."),
 "C20": ("executed instructions counted under callgrind and bytes counted by an allocator, growth judged over three sizes", "exploration",
         "115 document shapes x 3 sizes x up to 9 operations."),
 "C21": ("differential monitor between threads, repetitions, histories and processes; Miri over several schedules; AddressSanitizer (thorough)", "exploration",
         "Documents, orders and schedules are sampled; the library has no shared mutable state, so the schedules are few."),
 "C03": ("round-trip monitor with an independent RFC 5545 decoder as oracle, hostile generated and enumerated values", "exploration",
         "Every string up to length 6 (quick: 5) over the nine significant characters is enumerated; longer and arbitrary Unicode values are sampled."),
 "C04": ("output monitor: strict independent RFC 5545 reader over everything the writers produce, compared with a builder model", "exploration",
         "All fold alignments 0..79 x 12 character classes x 22 lengths are enumerated; builder programs are sampled."),
 "C05": ("differential monitor: unfold output compared with an independent RFC 5545 unfolder, hostile folds generated and enumerated", "exploration",
         "All short strings over CR, LF, space, tab and letters are enumerated; fold positions in long documents are sampled."),
 "C06": ("layout-invariance monitor: the same document is read in many layouts, results compared", "exploration",
         "Line-ending, folding, blank-line and case layouts are sampled over generated documents; single-line layouts are enumerated."),
 "C07": ("differential monitor: generated documents against the tree they were generated from, fixtures against an independent strict reader", "exploration",
         "Documents are sampled from a grammar that covers every production used by the parser, plus all repository fixtures."),
 "C08": ("fault injection into valid documents, verdict by an independent reader", "fault_enumeration",
         "Every truncation point and every single-line deletion, duplication or corruption of generated documents is injected; documents are sampled."),
 "C09": ("round-trip monitor over the parser's own writer against an independent reader", "exploration",
         "Documents are sampled; typed-list separators are recorded as known findings."),
 "C10": ("conservation monitor: what the independent reader sees in a text has to be found in the typed calendar", "exploration",
         "Documents are sampled, repeated names in every position."),
 "C18": ("round-trip monitor through serde_json, compared structurally", "exploration",
         "Documents are sampled; depth is limited to what serde_json's recursion limit allows."),
 "C02": ("round-trip monitor over builder programs, model of what was put in as oracle", "exploration",
         "Builder programs are sampled; size, depth and length extremes have their own workload."),
 "C11": ("determinism monitor: the same content built in permuted orders, written through every entry point, octets compared", "exploration",
         "Insertion orders and documents are sampled."),
 "C12": ("history monitor: every getter compared with a sequential model after every operation and after re-reading", "exploration",
         "Operation histories are sampled."),
 "C13": ("round-trip monitor over dates and date-times, compared with a chrono model, all zones enumerated", "exploration",
         "Every chrono-tz zone is enumerated; instants, forms and properties are sampled."),
 "C14": ("instant monitor: conversions compared with chrono-tz's own mapping, gaps and folds enumerated", "exploration",
         "Every offset transition found in every zone is a case; instants in between are sampled."),
 "C15": ("round-trip monitor over alarms, triggers and durations with an independent duration reader", "exploration",
         "Durations at every power of ten and unit boundary are enumerated, others sampled; seconds beyond 2^32 are a known finding."),
 "C16": ("output monitor with a run-wide UID register and a wall-clock bracket, several threads, processes and time zones", "exploration",
         "Programs, documents and schedules are sampled; uniqueness is observed over a run."),
 "C17": ("history monitor: every view of the calendar compared with a sequential model after every operation", "exploration",
         "Operation histories are sampled; refresh intervals of 2^32 s or more are a known finding."),
 "C19": ("round-trip monitor over single items, compared with the item inside a calendar", "exploration",
         "Items are sampled; every line length up to 240 is enumerated."),
 "C22": ("differential monitor against the RFC 5545 type table, table enumerated", "exploration",
         "The table of names x all VALUE parameters is enumerated with spelling variants; other names are sampled."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for i in ids:
    if i in T:
        t, level, note = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + t, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")
