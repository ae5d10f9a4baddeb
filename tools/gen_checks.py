#!/usr/bin/env python3
"""Writes MANIFEST.json (python3 tools/gen_checks.py)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusted: the reference model in mc/ref (written from the documentation, independent of the code), the explorer mc/ex, the Go toolchain."
DFS = "stateless model checking of the real code: exhaustive enumeration of "
C = {
 "C01": (DFS + "all token/symbol sequences up to a length bound, each parse compared with a reference grammar", "Exhaustive within the bounds of the evidence (all token sequences, symbol strings, all code points in every lexical context); nothing beyond them."),
 "C02": (DFS + "all bytes, code points and quoting strings in all positions, each build compared with a reference model", "Exhaustive over the byte and code point classes and strings within the bounds."),
 "C03": (DFS + "all bounded fragment trees in both styles, each result compared with a reference model and re-read placeholder by placeholder", "Exhaustive over trees within the bounds of pieces, args, items and depth."),
 "C04": (DFS + "all bounded sequences of args over a catalogue of look-alike values against a reference model of equality", "Exhaustive over sequences of the catalogue of values."),
 "C05": (DFS + "all bounded fragment trees against a compositional reference model", "Exhaustive over trees within the bounds."),
 "C06": (DFS + "all #join templates, ranges and lists within bounds against a reference model", "Exhaustive over templates, ranges and lists within the bounds."),
 "C07": (DFS + "all bounded supplies of args and fragments to all bounded templates against a reference model of usage", "Exhaustive over templates and supplies within the bounds."),
 "C08": (DFS + "all bounded sequences of template tokens, exotic values, items and builder calls; any panic, hang or result along with an error is a violation", "Exhaustive over the alphabets within the bounds; a hang is judged by a generous limit of time and memory."),
 "C09": (DFS + "all function signatures, names and literal/parameter pairs within bounds against a reference of the documented rules", "Exhaustive over the alphabet of types, names and literals within the bounds."),
 "C10": ("explicit-state breadth-first search over a model of contexts, every state replayed on the real code and compared; plus exhaustive histories", "All reachable states of up to 5 contexts within the depth bound; the model is bound to the code by replaying every transition."),
 "C11": ("stateless model checking of thread interleavings: the real code with scheduling points inserted into every statement under a controlled scheduler, all schedules up to a preemption bound", "All schedules of 2-3 goroutines within the preemption bound and place class of the evidence; the memory model is sequentially consistent, unsynchronized accesses are covered by a separate free-running pass with the race detector (complementary, sampling)."),
 "C12": (DFS + "all bounded sequences of builds and edits of objects sharing parts; each build compared with the model of a fresh object", "Exhaustive over sequences within the bounds."),
 "C13": (DFS + "all bounded sequences of edits of two fragments sharing the caller's slices against a value model", "Exhaustive over sequences within the bounds."),
 "C14": ("explicit-state search and exhaustive enumeration of builder call histories of the real code against a reference model of the query", "Exhaustive over histories and reachable model states within the bounds."),
 "C15": (DFS + "all placements of args over the clauses of a query against a reference model", "Exhaustive over placements within the bounds."),
 "C16": (DFS + "all bounded reference graphs between joins against a reference model of reachability", "Exhaustive over graphs of up to 3 (thorough 4) joins and all ways and places of references."),
 "C17": (DFS + "all bounded CTE dependency graphs against a reference model of reachability", "Exhaustive over graphs of up to 3 (thorough 4) CTEs with cycles."),
 "C18": ("explicit-state search and exhaustive enumeration of valid and invalid builder histories of the real code against a reference model of validity", "Exhaustive over histories within the bounds."),
 "C19": (DFS + "all bounded lists of ordering columns and directions and histories around them against a reference model", "Exhaustive over lists within the bounds."),
 "C20": (DFS + "all names of a catalogue and all code points in every form and use of tables and columns against a reference model", "Exhaustive over catalogue, forms and uses."),
 "C21": (DFS + "all bounded strings over dangerous words, value catalogues and query texts; the interpolated text is re-read by an independent SQL literal scanner", "Exhaustive over the words and values within the bounds."),
 "C22": (DFS + "all bounded lists of values in all shapes against a reference flattening", "Exhaustive over lists of the catalogue within the bounds."),
 "C23": ("exhaustive fault injection: a scripted driver behind the real database/sql, all result shapes and every point of failure enumerated against a reference model", "Every single fault (and pairs) at every step of every result within the bounds."),
 "C24": ("exhaustive fault injection: a scripted driver behind the real database/sql, all answers and every point of failure enumerated against a reference model", "Every single fault at every step of every helper for the enumerated queries and answers."),
 "C25": (DFS + "all token/symbol sequences up to a length bound, positions compared with a reference grammar", "Exhaustive within the bounds of the evidence."),
 "C27": (DFS + "all bounded histories and nestings with debug mode on at any position, results and log entries compared with a reference model", "Exhaustive over histories and nestings within the bounds."),
 "C28": (DFS + "all histories of operations on all bounded property lists, and functions using them, against a reference model", "Exhaustive over lists and histories within the bounds."),
 "C29": (DFS + "all cases of 29 bounded families built, rebuilt, combined and interpolated in both styles, the results compared with each other", "Exhaustive over the cases of the families; needs no model of the result."),
 "C26": ("exhaustive fault injection: every evaluation of every probe in all bounded fragment trees and clauses fails once, with each kind of error", "Every single fault at every evaluation within the bounded shapes."),
}
LEVEL = {"C23": "fault_enumeration", "C24": "fault_enumeration", "C26": "fault_enumeration"}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in C:
        na.append({"property": i, "reason": "no check"})
        continue
    t, n = C[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": t, "level": LEVEL.get(i, "model_checking"), "level_note": n + TRUST})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks use the public API, C11 instruments a copy of the working tree through a build overlay."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
