#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the properties that have a check."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": ("metamorphic and model-based property testing", "two random legal spellings of one random command line must agree with each other and with an independent reference model"),
 "C02": ("model-based property testing", "every random SLASH/DASH command line must give what an independent reference model says, token conservation included"),
 "C03": ("model-based and metamorphic property testing", "random distributions are compared with a reference model that doesn't look ahead, and with the same arguments without interleaved options"),
 "C04": ("model-based property testing", "random valid and mutated command lines on random command trees: SUCCESS exactly when the reference model finds every constraint satisfied"),
 "C05": ("model-based and metamorphic property testing", "random histories of assign/append/clear on random alias graphs are compared with a replayed history"),
 "C06": ("model-based property testing", "every queried flag or command name is compared with a naive linear search over the declared ones"),
 "C07": ("property testing with fault injection into declarations", "a random valid declaration must be accepted, and the same with a forbidden feature injected at a random position rejected"),
 "C08": ("differential property testing", "conversions of random texts are compared with an independent exact-arithmetic oracle"),
 "C09": ("model-based property testing", "splits and list accessors are compared with naive re-implementations and the round-trip through join"),
 "C10": ("model-based property testing", "random trees with names reused at every level are compared with the reference model"),
 "C11": ("model-based property testing", "breaking options at random positions: token conservation is compared with the reference model"),
 "C12": ("metamorphic and model-based property testing", "a two-stage parse of random command lines with foreign tokens must see every token exactly once"),
 "C13": ("model-based and metamorphic property testing", "the log of all callbacks is compared with the reference model, and insertions with the expanded command line"),
 "C14": ("stateful differential property testing", "stepping is compared with parsing at once and, at every step, with the reference model's snapshot"),
 "C15": ("stateful differential property testing", "random histories of parses, copies, moves and help requests are compared with a fresh parser's outcome"),
 "C16": ("property testing against an independent reading of the help text", "the generated help of random command trees is parsed back and compared with the declaration"),
 "C17": ("round-trip property testing", "the layout of random texts is undone by an independent reader and compared with the original words, with limits checked per line"),
 "C18": ("model-based property testing with forked processes", "messages, streams, exit codes and exceptions of random failing command lines are compared with the reference model"),
 "C19": ("coverage-guided fuzzing (libFuzzer) and random API sequences under sanitizers", "arbitrary bytes are decoded into API call sequences; crashes, sanitizer reports, hangs and foreign exceptions are failures"),
 "C20": ("differential property testing", "complete transcripts of the library and the amalgamated edition, built from the same tree, must be equal"),
 "C21": ("round-trip property testing", "every attribute reported by the views of random declarations is compared with the declaration; ids, sources and the printed summary are checked against the reference model"),
 "C22": ("property-based testing (Hypothesis) against a reference model, with idempotence and a differential check with g++ -E", "the output of the tool for random source trees and command lines is compared with a model of what has to be in it, merged again, and for a sample preprocessed by g++ and compared with the preprocessed originals"),
 "C23": ("property-based testing (Hypothesis) of whole processes against a reference model", "random command lines for the example programs, built from the tree with sanitizers and run as processes: streams, files and exit codes are compared with an independent description of each program"),
 "C24": ("property-based testing of threads under ThreadSanitizer", "random declarations and command lines are used by 2-4 threads at once, sharing a const parser and its results; everything they see is compared with a sequential run"),
 "C25": ("property testing with injected faults", "the k-th allocation, callback or written byte of a random operation fails; the exception, the number of live allocations and the behaviour afterwards are checked"),
}
PYTHON = {"C22": "harness/mergecpp.py, Hypothesis and g++'s preprocessor", "C23": "harness/examples.py, Hypothesis, clang and the sanitizers"}
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
have = {p for p in props if os.path.exists(os.path.join(VERIF, "harness/props", p + ".cpp"))} | set(PYTHON)
m = {
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "checks": [{
   "property": p,
   "quick_cmd": "python3 check.py " + p,
   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
   "technique": NOTES[p][0],
   "level": "exploration",
   "level_note": "Generated-input search: " + NOTES[p][1] + ". The assurance is statistical and bounded by the generators (see DESIGN.md)" + (
    ". Trusts the oracle in " + PYTHON[p] + "." if p in PYTHON else
    "; the library is built from /repo with " + ("ThreadSanitizer" if p == "C24" else "address and undefined-behaviour sanitizers") + ". Trusts the oracle in harness/, clang and the sanitizers."),
 } for p in props if p in have],
 "not_applicable": [{"property": p, "reason": "Not built yet."} for p in props if p not in have],
 "notes": "No hooks in /repo are needed: everything is observed through the public API.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
