#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
BASE = ("Seeded search, not proof: what is reported is that no violation occurred in the executed simulated runs. "
        "Real code: all of /repo/src compiled from the working tree with AddressSanitizer. Simulated: allocator, environment, exit/abort, "
        "standard streams, printing targets, callbacks and callers. Trusts the simulator, glibc, gcc and ASan. ")
N = {
 "C01": ("seeded simulation of call histories with unwinding callbacks and failing allocations; differential oracle: the same call on a pristine copy of the library with a freshly built equal table", "One known finding (date format %p) is excluded from generation and re-checked separately."),
 "C02": ("seeded allocation-fault injection (nth, from nth on, by size, byte budget) into random programs in a simulated process; oracle: exactly one handler call, or the fault-free result", "Handlers that return are not simulated (the library documents none)."),
 "C03": ("seeded allocation-fault injection with an unwinding handler, then retry and continuation; reference models of every object kind", "The bytes lost by an interrupted call are allowed; everything else must be released at the end."),
 "C04": ("seeded stream-fault injection (failing, torn and for a while failing writes at any position, all buffering modes) on cookie streams; oracle: the text the dynamic-string counterpart produces", "Streams are glibc streams with a simulated device."),
 "C05": ("simulated allocator with exact ownership over seeded histories; reachability scan of the library's globals at the end of each run", "Leak means: allocated by a completed call, still live after every object was released, and not reachable from the library's globals."),
 "C06": ("seeded operation histories under simulated heap contents; reference model: a text value", "Appending a string to itself is excluded (undocumented)."),
 "C07": ("seeded registry histories; reference model: a map", "Iterators are not used across modifications."),
 "C08": ("deterministic scheduler preempting callers at basic blocks, memory accesses and C library calls with seeded interleavings (random quanta, at new places, at chosen places, at the library's static data); oracle: each caller alone on a pristine copy of the library", "Sequentially consistent interleavings at the granularity of single memory accesses; hardware and compiler reordering are out of reach. Runs an unoptimised build of the same sources."),
 "C09": ("the same seeded program executed under three simulated memory personalities (fill, reuse, placement, stack garbage, errno); results compared", "Uninitialised reads that never reach a result are not reported."),
 "C10": ("seeded programs with abandoned calls; inputs in write-protected pages and definitions snapshotted, inspected from callbacks and after every call", ""),
 "C11": ("seeded parses at every error capacity against a reference parse with ample capacity, with rejecting handlers and failing allocations before", ""),
 "C12": ("seeded accept/reject plans for the entry handlers of random tables and command lines; reference model of option scanning and delivery checks the recorded callback history", "The model covers tables whose short options are letters and digits and whose long names are ASCII."),
 "C13": ("seeded arrays, ranges and comparison functions; allocation failures and unwinding at seeded comparisons; permutation and order oracle at every end", ""),
 "C14": ("seeded histories of identity changes, registrations and parses with failing allocations; reference composition of each message", ""),
 "C15": ("seeded nesting of library calls inside callbacks (two levels); oracle: inner and outer calls alone on a pristine copy of the library", "Parses are nested only where the property allows them."),
 "C16": ("seeded hash table histories with adversarial hash functions and sizes; reference model: a map", ""),
 "C17": ("seeded programs under faults with a simulated clock of executed basic blocks; each call must finish within a polynomial budget of its input sizes", "A defect that makes a call slower by less than the slack of the budget (two orders of magnitude) is not reported."),
}
NA = {
 "N01": "a pure function of one argument text: no schedule, fault, time, I/O or history enters; simulation would be plain input fuzzing with a second strtol as oracle",
 "N02": "a pure function of one argument text, decided by strtod: nothing for a scheduler or fault injector to vary",
 "N03": "a pure function of the format and one argument text (the history dependence of date slots is part of C01): nothing for a scheduler or fault injector to vary",
 "N04": "a pure function of one argument text: nothing for a scheduler or fault injector to vary",
 "N05": "a pure function of pattern and text; language equivalence needs an automata-theoretic oracle, not schedules or faults",
 "N06": "a pure function of the table definition: nothing for a scheduler or fault injector to vary (its independence of history, memory, streams and interleaving is decided by C01, C04, C08, C09)",
 "N07": "a pure function of text and margins: nothing for a scheduler or fault injector to vary (termination is decided by C17)",
}
m = {"version": 1, "setup_cmd": "./check build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are symbol-level (objcopy on the compiled objects), FILE* cookies and the library's own callbacks. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in N:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": "deterministic simulation with fault injection: " + N[i][0], "level": "exploration", "level_note": (BASE + N[i][1]).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
