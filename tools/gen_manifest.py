#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "explicit enumeration of every execution of the real code within bounds, each compared step by step with a reference model"
N = {
"C01": ("exhaustive enumeration of text pairs x context lengths, create/apply executed on the real code", ""),
"C02": ("exhaustive exploration of format/parse/reverse/clone walks from every patch in bounds against a model patch", ""),
"C03": ("exhaustive enumeration of text pairs x context lengths, reverse/apply/format/parse against a model", ""),
"C04": ("exhaustive enumeration of text pairs x context lengths; both texts are rebuilt from the hunks by a model", ""),
"C05": ("exhaustive enumeration of text pairs; edit count against a dynamic programming model", "The oracle needs no part of the library."),
"C06": ("exhaustive enumeration of text pairs x context lengths against a reference grouping", "Gaps of exactly twice the context length may be grouped either way."),
"C07": ("exhaustive lock-step exploration of the str and the bytes API over pairs, triples, patch texts, names and options", ""),
"C08": ("exhaustive enumeration of grammar-directed patch texts against an independent reference parser", "Inputs on which unified diff is silent (explicit '+' in numbers, other escapes, text after the no-newline marker) are executed but not judged."),
"C09": ("exhaustive enumeration of bases x patches; result, place and error number against exhaustive search by the model", ""),
"C10": ("exhaustive enumeration of patches x drifts of the base against a model", "Only patches whose hunks occur exactly once in the drifted base are judged, as the property says."),
"C11": ("exhaustive enumeration of text pairs x merge options", ""),
"C12": ("exhaustive enumeration of text triples against a diff3 model fed with the library's own line diffs", "The line diffs are read through create_patch_bytes with unlimited context; C04 and C05 judge them."),
"C13": ("exhaustive enumeration of text triples x styles x marker lengths against a reference renderer and relations between options", ""),
"C14": ("exhaustive enumeration of text triples, each merged in both orders", ""),
"C15": ("exhaustive enumeration of patches x all formatter options x output paths against a reference renderer", ""),
"C16": ("exhaustive fault enumeration: every sequence of sink answers with a bounded number of deviations at every call", "Deviations beyond the bound (2-3 per run) are not tried."),
"C17": ("exhaustive exploration of call histories with process snapshots (fork), and of option-setter sequences; oracle: the same call first in a fresh process", "Histories across threads are interleaved at call granularity."),
"C18": ("exhaustive enumeration of file names over special characters and of all Unicode scalar values, formatted and parsed back", "The quick tier takes every scalar value below U+3100 and every 97th above; the thorough tier takes all."),
"C19": ("exhaustive enumeration of inputs and option values of every public function under overflow checks, with a supervisor that catches aborts and hangs", "A hang is a case that gives no result in 30 s."),
"C20": ("exhaustive enumeration of pairs of edit sets; the merge is accounted for line by line", ""),
"C21": ("exhaustive exploration of all walks on all version histories in bounds, with patches as objects, text and bytes", ""),
"C22": ("exhaustive enumeration of ordered pairs of patches and of one-part variations, equality/clone/reverse/accessors against model values", ""),
"C23": ("exhaustive enumeration of text pairs, triples and sequences of option setters; shortcuts against fully stated options", "What each stated option does is judged by C06, C12, C13, C15 and C18."),
}
checks = []
for i, (t, note) in N.items():
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "model checking: " + t,
        "level": "model_checking",
        "level_note": ("Every execution within the bounds listed in the evidence file runs on the real code built from /repo; nothing is sampled and nothing is claimed beyond the bounds. Trusted: the reference models in mc/src/model.rs. " + note).strip(),
    })
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
     "notes": "One Rust program (mc/) explores all properties through diffy's public API; no hooks in /repo are needed. ./check.sh replay FILE reruns a reported violation. Repaired defects: known_findings.txt."}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
