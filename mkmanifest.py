#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the set of checks)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
notes = {
 "C01": "Sampled histories of load/prune/optimize/subset/write/restart/re-load over generated and real fonts; every re-read font is compared with an independent reference parse of the written bytes and with the reference model of the history.",
 "C02": "Every successful write of sampled histories is judged by an independent sfnt checker (directory, order and search fields, alignment, overlaps, checksums, cross-table agreement) and by the library's own validation, in memory and on the simulated disk.",
 "C03": "Writers and the simulated disk fail at chosen bytes and calls (error, short write, silent loss, full disk, failing create/close); success is compared with the undisturbed bytes.",
 "C04": "Queries and repeated writes, with and without injected faults between, are compared with an execution of the same history without the writes.",
 "C05": "The same bytes are delivered in seeded chunkings, empty reads and data+EOF, from memory, stream and file; results must equal whole delivery.",
 "C06": "Reads and seeks fail, end early or are cut at seeded points; an accepted result must equal the result of the intact source and validation must not pass damaged data.",
 "C07": "Structured damage (length, offset, count fields, swapped and cut tables) and random bytes; statement budget bounds time, the address space limit and the measured allocation bound memory, every panic counts.",
 "C08": "Verdicts on intact and on singly altered fonts are compared with a reference validator.",
 "C09": "Interleaved operations on several related fonts; after each, every other font answers as in a history without the operation.",
 "C10": "Subsets are compared with a reference subsetter; glyph closures computed by the reference parser.",
 "C11": "Each history runs with different map orders, log levels, other fonts, earlier failures, clocks and random numbers, and again in a fresh process; everything visible must be identical.",
 "C12": "2-4 simulated goroutines, preempted at seeded statements; every result is compared with the same goroutine running alone. Concurrent access to one map is reported as the crash it can be. Statement granularity on sequentially consistent memory: no weak-memory effects.",
 "C13": "Process death and power loss at seeded statements and disk calls; what survives on the simulated disk is judged. Assumes 512-byte atomic sectors and a journalled directory.",
 "C14": "Every handle and every changed name on the simulated disk is accounted for after each file operation, with and without faults.",
 "C15": "Every lookup in seeded histories is compared with the answer the reference parser gives from the font's bytes and the reference model of the history.",
 "C16": "Table sets, widths and everything else after pruning and optimizing are compared with the reference model, also in what is written and derived afterwards.",
 "C17": "Each run executes one command line of truecli on the simulated disk, with faults; exit status, output file and every other file are compared with the reference.",
 "C21": "Histories as in C15 with faults and restarts between; every report is compared, as far as it is recognised, with the reference parse of the font's bytes and the reference model of the history.",
 "C20": "Each run executes one command line of truecli twice, in two simulated processes that differ in map orders, clock, random numbers, read chunking and files lying around; both outputs must agree, and for info agree with the library's table information and the reference parse of the mappings.",
}
claimed = [p for p in os.environ.get("CLAIMED", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C20 C21").split()]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none in /repo: the checks rewrite the current sources at build time and pass them with 'go build -overlay'", "enable": "sim/build.sh DIR", "source_commits": []},
 "checks": [{
  "property": p,
  "quick_cmd": f"./check.sh {p}",
  "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
  "evidence_file": f"evidence/{p}.json",
  "technique": "deterministic simulation with fault injection: seeded search over simulated histories, judged by a reference model",
  "level": "exploration",
  "level_note": notes[p] + " Sampling: a clean run is evidence on the explored seeds, not proof.",
 } for p in claimed],
 "not_applicable": [
  {"property": "C18", "reason": "Pure functions of one string in an internal package, no state, schedule, I/O or fault for a simulation to control; the only use the font library makes of them (name records) is decided under C15 and C01."},
  {"property": "C19", "reason": "A constant table: nothing executes, so there is nothing to simulate. Its use when reading and writing post tables is decided under C21 (every standard name, at its position, in generated fonts)."},
 ],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
