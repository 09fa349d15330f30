#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
SIM = "deterministic simulation with fault injection: the real program runs on a simulated operating system, seeded search over "
LIB = "deterministic simulation with fault injection: the real library runs under a simulated scheduler and simulated caller components, seeded search over "
CLAIMED = {
 "C01": ("exploration", SIM + "layouts, values, stream slicing and interruptions, against an executable reference model of dehydration", "Sampled. Oracle abstains on union/intersection and a few unspecified layout files."),
 "C02": ("exploration", SIM + "layouts, datasets, stream slicing and interruptions, against an executable reference model of hydration", "Sampled. Oracle abstains on union/intersection and a few unspecified layout files."),
 "C03": ("exploration", SIM + "pipelines of simulated processes with crashes, broken pipes and I/O errors; round-trip oracle", "Sampled; up to four processes per history."),
 "C04": ("exploration", SIM + "chains of conversions over sliced and interrupted streams, against independent codecs", "Sampled."),
 "C05": ("fault_enumeration", SIM + "fault positions and kinds on every stream and file; the simulated devices know what was delivered", "Fault positions are drawn over the calls of a fault-free run of the same case."),
 "C06": ("exploration", SIM + "hash seeds, clocks, addresses, environments, slicings and statement orders; byte equality of runs", "Sampled."),
 "C07": ("fault_enumeration", SIM + "refusals and fault positions; prefix and no-mutation oracle over the recorded history of calls", "Fault positions are drawn over the calls of a fault-free run of the same case."),
 "C08": ("fault_enumeration", SIM + "truncation points, damaged bytes and read errors, against strict independent parsers", "Sampled."),
 "C09": ("exploration", SIM + "sets of layout files, their roles, orders and defects, against a set model", "Sampled."),
 "C10": ("exploration", LIB + "interleavings of caller threads at every basic block, allocation, lock and component access; sequential answers as oracle", "Sampled schedules; every thread switch is the simulator's choice."),
 "C11": ("fault_enumeration", LIB + "histories of calls on one dataset with failures of the caller's components; reference model of the store", "Fault positions are drawn over the component accesses."),
 "C13": ("fault_enumeration", SIM + "layout files, orders of files, mistakes, hash seeds, slicings and fault positions; the emitted item is read back and compared with a reference reading of the designated layout", "Sampled. The description covers kind, name, components, types, patterns, inputs and graphs; names outside ASCII are not covered, and emitted code is not compiled here (C15 does that for a fixed set of layouts)."),
 "C15": ("exploration", LIB + "histories of derived and layout writers and readers of one store, edits of the store in between, and failures of the caller's components; each side is the other's oracle", "Sampled histories over 42 derivable types, 12 of them generated from layout files. Byte strings and floating point numbers are not covered."),
 "C16": ("exploration", LIB + "histories of additions, refused additions, failing sources of names, and layered collections; set model", "Sampled histories."),
 "C19": ("fault_enumeration", LIB + "histories of reads from a dataset whose resources have several names, with statement orders of the simulator's choice and failures of the caller's components; executable reference model of hydration", "Sampled. Fault positions are drawn over the component accesses of a fault-free read."),
 "C12": ("exploration", SIM + "values and layouts introducing resources; injectivity of names checked by matching to the reference model", "Sampled."),
 "C14": ("exploration", SIM + "slicings, interruptions and pathological data; simulated calls and allocations bounded", "Work is measured in simulated calls and allocations, with a wide margin."),
}
NA = {
 "C17": "a pure function of the pattern and the string: no schedule, clock, I/O, randomness, fault or second party for a simulation to decide, so the family does not apply",
 "C18": "a pure function of the syntax tree: no schedule, clock, I/O, randomness, fault or second party for a simulation to decide, so the family does not apply",
}
m = {"version": 1, "setup_cmd": "./build.sh cli,lib,derived", "checks": [], "not_applicable": []}
for p, (level, tech, note) in sorted(CLAIMED.items()):
    m["checks"].append({"property": p, "quick_cmd": f"VERIF_TIER=quick ./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}", "technique": tech, "level": level, "level_note": note, "evidence_file": f"evidence/{p}.json"})
for p, r in sorted(NA.items()):
    if p not in CLAIMED:
        m["not_applicable"].append({"property": p, "reason": r})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
