#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "runtime monitoring: event logs and state snapshots of generated builders judged by a reference model"
NOTE_TRACE = "Held on the generated definitions and histories of this run (counts in the evidence file); trusts rustc 1.88.0, the instrumented value types and the reference model in lib/trace.py."
CLAIMED = {p: (TRACE, NOTE_TRACE) for p in "P01 P02 P03 P04 P05 P06 P07 P08 P09 P12 P13 P14 P15".split()}
SURF = "runtime monitoring: reachability probes run from six vantage points, compared with the documented surface"
NOTE_SURF = "Held on the generated definitions of this run (counts in the evidence file); trusts rustc 1.88.0 name resolution and the surface model in lib/surface.py."
for p in ("P10", "P11"): CLAIMED[p] = (SURF, NOTE_SURF)
for p in ("P13", "P14"): CLAIMED[p] = (TRACE + "; trait-implementation probes", NOTE_TRACE)
MAC = "runtime monitoring: the real macro implementation run on generated, mutated and faulty inputs; "
NOTE_MAC = "Held on the generated inputs of this run (counts in the evidence file); trusts syn's parser as the judge of what is Rust and, for the sample sent through it, rustc 1.88.0."
CLAIMED["P17"] = (MAC + "panic, termination and output-validity monitor", NOTE_MAC)
CLAIMED["P18"] = (MAC + "verdicts compared with a catalogue of mistakes and with valid definitions", NOTE_MAC)
CLAIMED["P19"] = ("runtime monitoring: repeated expansions under shuffled orders, threads, environments and an interposed libc compared with each other", NOTE_MAC)
CLAIMED["P20"] = (MAC + "marked attributes traced from input to generated items", NOTE_MAC)
CLAIMED["P16"] = ("runtime monitoring: metamorphic pairs of definitions run through the same histories, event logs and probed surfaces compared", NOTE_TRACE.replace("the reference model in lib/trace.py", "the rewritings in lib/meta.py"))
CLAIMED["P21"] = ("runtime monitoring: the same definitions and histories run plainly and in hostile surroundings, event logs compared", NOTE_TRACE.replace("the reference model in lib/trace.py", "the plain run as reference"))
CLAIMED["P22"] = ("runtime monitoring: the same definitions and histories run across editions and feature sets, event logs compared, compiler warnings watched", NOTE_TRACE.replace("the reference model in lib/trace.py", "rustc's lints and the 2021/std run as reference"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOT = {}
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [{"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CLAIMED[p][0], "level": "exploration", "level_note": CLAIMED[p][1]} for p in ids if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NOT.get(p, "not claimed yet: its check is still being built")} for p in ids if p not in CLAIMED],
     "notes": "No hooks are needed in /repo: every monitor observes through the public macro and the public function of derive_builder_core. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
