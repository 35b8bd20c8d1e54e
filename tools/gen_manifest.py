#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
SET = "runtime monitoring: real code driven by exhaustive small and random windows, each result judged online by a reference set model (checked build)"
ARI = "runtime monitoring: real code driven by random and limit values, each result judged online by a wide-integer reference (checked build)"
NET = "runtime monitoring: random operation histories on the real graph, every state judged online against a shortest-path reference model (checked build)"
SCH = "runtime monitoring: random restriction histories on real schedulers, every slot judged online against a reference solver (checked build)"
T = {**{f"C{i:02}": SET for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16)}, **{f"C{i:02}": ARI for i in (11, 12, 13, 14, 15, 27)},
     **{f"C{i:02}": NET for i in (17, 18, 19, 20, 21, 22)}, **{f"C{i:02}": SCH for i in (23, 24, 25)},
     "C29": SET, "C30": "runtime monitoring: real texts of graphs and schedules after random histories, read back and judged online against their windows (checked build)",
     "C31": "runtime monitoring: the real clock bracketed by readings of the system clock, each elapsed time judged online (checked build)",
     "C32": "runtime monitoring: real constraints in all forms compared pairwise, each answer judged online against the relation they denote (checked build)",
     "C33": "runtime monitoring: sources which log what is taken from them, the log judged online after each interval yielded by real lazy compositions (checked build)",
     "C34": "runtime monitoring: the instructions executed by real operations counted by callgrind on growing graphs and sets, their growth judged against the stated power of the size; allocations counted online by the allocator during each operation of random cases (checked build)",
     "C35": "race detectors and runtime monitoring: several threads ask shared values the same queries, with random delays, under ThreadSanitizer (standard library included), Miri with varied schedules, and the checked build; each answer judged against those of a single thread",
     "C36": "runtime monitoring: instants, windows, constraints and iterators defined by the harness given to the real code (every pair of windows of a line of seven instants, then random ones), each result judged online by a reference model or against the library's own types (checked build)",
     "C15": "runtime monitoring: real renderings of random values, each text parsed back and judged online (checked build)",
     "C16": "runtime monitoring: iterator protocol monitor at every step of random lazy expressions, against the reference set model (checked build)",
     "C26": "sanitizers: hostile call sequences under the library's unsafe-precondition checks, AddressSanitizer and the Miri interpreter; oversized requests in separate processes",
     "C28": "runtime monitoring: real values through four serialisation routes and back, each judged online (checked build)"}
N = "Held on the executions observed (counted in the evidence file), no more; trusts the reference model in /verif/harness. The checked build also turns arithmetic overflows and violated unsafe preconditions into reports."
S = {"C34": "The costs are compared between two sizes of some fifty scenarios, a factor 1.5 beyond the stated growth being tolerated; allocations are judged in all cases.",
     "C35": "Held on the interleavings observed; a race detector sees races on the executed paths only, whether or not they changed an answer.",
     "C26": "No report of the instrumentations on the executions observed; ASan and Miri see only the paths driven."}
m = {"version": 1, "setup_cmd": "cd harness && cargo build --offline --profile chk --bin c01",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": T[p["id"]], "level": "exploration", "level_note": S.get(p["id"], N)} for p in P],
     "not_applicable": [],
     "notes": "No hooks are needed in /repo: everything observed is public API. Known findings and repairs are listed in known_findings.txt."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
