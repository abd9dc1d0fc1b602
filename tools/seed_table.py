#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md. `MISSED` says which were missed at first."""
import glob, json, os
MISSED = {
    "c03-clone-from": "clone_from added to the interpreter and the histories",
    "c09-len-16-bits": "lengths around 2^16 and 2^32",
    "c17-nightly-table": "all border configurations watched, not five builds",
    "c18-uninit": "was a tool error; objects never made are `lost`",
    "c15-setup-count": "long histories of set-ups (C15_long)",
    "c02-neon-192": "every construction on every build, keys of all sizes",
    "c16-lazy-table": "processes whose first calls meet",
    "c06-len-16-bits": "chains of 2^16 keys and more, whose rounds come back to where they were",
    "c06-recursion": "the same",
    "c17-rv64-branch": "secrets with zeros inside the schedule or the state, for the builds memcheck does not follow",
    "c18-prefetch": "the keys of a chain end where their memory ends",
    "c08-x4-not-const": "a library whose `new` is not const is built without constants, which then answer `panic`",
    "c16-not-sync": "what threads may share is a fact of the specification",
    "c01-nightly-software": "19 border configurations executed by every check",
    "c18-neon-uninit": "emulated Miri builds of the NEON and RISC-V code",
}
try:
    exec(open(os.path.dirname(os.path.abspath(__file__)) + "/missed.py").read())
except OSError:
    pass
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
t = ["| change | property | what it breaks | missed at first; what the check gained |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    i = f.split("/")[1]
    m = json.load(open(f))
    t.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {MISSED.get(i, '')} |")
s = open("DESIGN.md").read()
head = s[:s.index("<!-- SEEDED -->")]
open("DESIGN.md", "w").write(head + "<!-- SEEDED -->\n" + "\n".join(t) + "\n")
