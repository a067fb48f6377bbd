#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
NOTE = {
 "C01": "Seeded interleavings (preemption at any basic block and lock) of loads, searches, listings, suggestions and toggles by 2-4 callers; every history is checked for an order of the calls that explains all answers (linearizability against the catalogues' specifications).",
 "C02": "Loads of damaged and cut files among other calls, 1-3 callers; histories checked as in C01 with failed loads having no effect.",
 "C03": "Truncation fault at every byte of small files and at sampled and structural bytes of larger ones, through the decoder and through initialize.",
 "C04": "Seeded storage damage; decoding and, if accepted, listing/filtering/sorting/searching under memory and processor limits, stack exhaustion detected.",
 "C05": "Built index against the index decoded from its file, N in 2..8, other hash seeds on either side, concurrent loads under the seeded scheduler.",
 "C06": "As C01 with re-entrant host callbacks, throwing getters, malformed filters and foreign items; deadlock and lack of progress are detected by the scheduler, later calls must still succeed.",
 "C07": "Handles used long after other loads, failed loads and builds, under seeded interleavings, against the catalogue they came from.",
 "C08": "Random histories of toggles on several handlers (one to two callers) and searches with filters; results compared with the unfiltered ranking filtered by the specification.",
 "C09": "Same queries by several callers, orders, hash seeds and after other calls; exact sequence compared with a fresh single-threaded instance under other hash seeds.",
 "C10": "Ordered searches among loads and failed calls; result must be the unordered set arranged by title or price from the source data.",
 "C11": "Random histories of registering, removing, toggling with throwing and re-entering listeners; every delivered call compared with a reference model.",
 "C12": "As C11, with loads, failed loads and builds in between; get_status compared with the parity model.",
 "C13": "Interleaved iterators, listings and probes against the source catalogue.",
 "C14": "The same document built repeatedly under different hash seeds (product numberings); the loaded results are compared with the source document and each other.",
 "C15": "Random value sequences; the reader's input stops at every byte, the writer's sink fails at chosen bytes; values compared with what was written.",
 "C16": "2-4 threads building and loading at once on shared arenas under the seeded scheduler, N in 2..8; each result compared with the same work done alone.",
 "C17": "The real main.rs over a simulated file system: short, interrupted, failing reads and writes, full disk, kill at any file operation.",
 "C23": "Seeded damage to the text of catalogue documents; each is indexed under memory and processor limits on a small stack next to a loaded catalogue; what is accepted must be the index of what a separate JSON reader finds in the text, and is then loaded and used.",
}
TRUST = " Sampling, not proof: assurance is for the seeds explored. Trusts the simulated JavaScript host and file system, and sequential consistency at basic-block granularity (no weak memory)."
NA = {
 "C18": "Ranking tolerance of misspellings is a pure function of index and query: no schedule, time, fault or random choice enters, so there is nothing for a simulator to decide.",
 "C19": "Accepting a document is a pure function of its text; simulating it would be plain input generation.",
 "C20": "Shortening a description is a pure function of one string. (That it stays a prefix across builds and loads is part of C05 and C14.)",
 "C21": "The similarity score is a pure function of two strings. (That suggestions come from the current catalogue is part of C01.)",
 "C22": "A pure function of one string, not reachable through the host interface at all.",
}
checks = [{
  "property": k,
  "quick_cmd": f"./check.sh {k} quick",
  "thorough_cmd": f"./check.sh {k} thorough",
  "technique": "deterministic simulation with fault injection",
  "level": "exploration",
  "level_note": v + TRUST,
} for k, v in NOTE.items()]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the seams are the dependencies (wasm-bindgen, js-sys, ahash replaced through [patch]), the futex and file system calls of libc, the allocator, and basic-block callbacks added by the compiler (see DESIGN.md). Replay: sim/target/dst-Cxx replay FILE (after ./check.sh)."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
