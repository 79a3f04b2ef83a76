#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
MISSED = "c06-hunk-size-cap c13-many-conflicts c18-dev-null c19-recursive-preamble c17-shared-name-buffer c17-shared-ids c17-racy-table".split()
print("| planted bug | caught by | needs |\n|---|---|---|")
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/../seeded/*/meta.json")):
    d = json.load(open(f))
    i = f.split("/")[-2]
    print(f"| {i}{'\\*' if i in MISSED else ''} | {d['property']} | {d['needs'].replace('|', '\\|')} |")
