#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl"""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE = ("TLC validates traces of the real library, from every build that can be made and run here, against the TLA+ "
        "specification AesApi, which fixes every outcome; the models named in DESIGN.md are explored exhaustively at "
        "small scale. Assumes rustc, qemu, Miri and TLC are right; inputs outside the executed corpora are covered only by "
        "the argument in DESIGN.md.")
BASE = "TLA+ specification AesApi: TLC validates traces recorded from every build of the library"
TOUR = "; a tour of every transition of the design's history graph (AesHistories) and behaviours generated by TLC (AesGen) are replayed into the code"
TECH = {
    "C16": BASE + ", its threads' calls included, natively and under Miri's schedules; AesConc explored exhaustively",
    "C17": "TLA+ observer specification (AesLeak): TLC validates recorded instruction and address traces of the real code against it; AesObserver explored exhaustively",
    "C18": BASE + ", under Miri too, where undefined behaviour is an outcome no step of AesApi allows",
    "C20": "TLA+ specification of the configuration space (AesSelect) enumerated by TLC; every configuration it names is built and run, and TLC judges what ran against it (AesBuilt)",
}
import sys
sys.path.insert(0, "/verif")
from vt import main, models
for p in props:
    t = BASE + (TOUR if p["id"] in main.TOURED or p["id"] in main.PLAYED else "")
    q = models.QUICK.get(p["id"], [])
    TECH.setdefault(p["id"], t + "; " + ", ".join(q) + " explored exhaustively")
m = {"version": 1, "setup_cmd": "./check.py setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the public API exposes the abstract state", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"./check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {p['id']}",
                 "technique": TECH[p["id"]],
                 "level": "model_checking", "level_note": NOTE} for p in props],
     "not_applicable": []}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
