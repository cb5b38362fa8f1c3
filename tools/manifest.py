#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
TECH = {
 "C01": "runtime monitor: emitted Verilog executed against a reference interpreter",
 "C02": "runtime monitor: emitted Verilog executed against a reference interpreter, exhaustiveness oracle",
 "C03": "runtime monitor: emitted Verilog executed against a reference layout",
 "C04": "runtime monitor: emitted Verilog simulated cycle by cycle against a reference model of registers and memories",
 "C05": "runtime monitor: emitted Verilog simulated cycle by cycle against a reference model of pipelines; verdict monitor on mis-staged programs",
 "C08": "runtime monitor: optimised Verilog simulated cycle by cycle against the reference model",
 "C13": "metamorphic runtime monitor: respelled programs must get the same verdict, messages and hardware",
 "C17": "runtime monitor: random module trees and scopes resolved by a reference resolver; resolved values observed in simulation, violations must be rejected",
 "C18": "runtime monitor: constants computed through chains of generic units, and sizes, depths and initial values made of them, observed in simulation against exact integers; false where clauses, misfitting literals and sizes must be rejected",
 "C07": "runtime monitor: values sent through random plumbing of inverted wires simulated and compared bit for bit with what was set, drivers counted, and programs with one use missing or too many observed to be rejected",
 "C16": "runtime monitor: library units simulated at random types and sizes against reference functions; documented examples executed; online conservation and order monitor of the FIFO, crossings and memories under many clock interleavings",
 "C11": "runtime monitor: hostile and mutated texts compiled in worker processes watched for panics, deaths, endless runs, silent failures, written outputs and spans outside their file",
 "C12": "metamorphic verdict monitor: single-violation mutants of generated programs must be rejected, their correct twins accepted",
 "C09": "runtime monitor: the Verilog emitted for a corpus and generated programs, with names made hostile, parsed and elaborated by an independent front end that reports undeclared, doubly declared, doubly driven, misconnected and mis-sized items; renamed generated programs simulated",
"C10": "runtime monitor: outputs of repeated runs (threads, processes) compared byte for byte; variants with reordered and unrelated items simulated",
 "C06": "runtime monitor: emitted Verilog executed against a reference interpreter that expands every abstraction",
}
NOTE = "Every violation is an observed execution of the real compiler whose result contradicts the stated oracle. A pass covers only the programs, inputs and histories generated in that run (counted in the evidence file). Trusted: the harness's own Verilog simulator and language model."
json.dump({
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [{"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
   "technique": TECH[p], "level": "exploration", "level_note": NOTE} for p in sorted(TECH)],
 "not_applicable": [{"property": p["id"], "reason": "no check has been built for it yet"} for p in map(json.loads, open("/verif/properties.jsonl")) if p["id"] not in TECH],
 "notes": "The checks rebuild the harness in /verif/harness, which links the compiler crates of /repo's working tree. No hooks in /repo are needed: everything is observed through public interfaces.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
