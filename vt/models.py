"""The models TLC explores for each property, besides the traces of the real code.
A model speaks about the specification and the design, not about the code under test: if one does not hold, the
machinery is broken (exit 2), not the library."""
import os, tempfile
from concurrent.futures import ThreadPoolExecutor
from .build import BUILD, ToolError
from .tlc import SPEC, tlc

LEVEL = {}
ASSUMPTIONS = [
    "rustc, LLVM and the linkers translate the library as their users expect; qemu and Miri execute foreign code as the processors do",
    "the executed inputs stand for the others: TLC checks the design for all inputs of small instances, and the code is "
    "compared with the specification on the executed inputs only",
    "TLC's fingerprints do not collide (each run reports a probability below 1e-8)",
]

# configuration -> explored quickly for these properties, thoroughly for those
QUICK = {
    "C01": ["FipsKat", "AesDesign_long", "AesBackends_keys"],
    "C02": ["FipsKat", "AesLaws_ciphers"],
    "C03": ["AesDesign_slots"],
    "C04": ["AesLaws_lanes"],
    "C05": ["FipsKat", "AesBackends_blocks"],
    "C06": ["AesDesign_wide"],
    "C07": ["AesBackends_bytes", "AesBackends_circuit"],
    "C08": ["AesLaws_buffers"],
    "C09": ["AesLaws_buffers"],
    "C10": ["AesLaws_buffers"],
    "C11": ["AesLaws_bits"],
    "C12": ["AesLaws_bits", "AesBackends_blocks"],
    "C13": ["AesLaws_lanes"],
    "C14": ["AesLaws_text"],
    "C15": ["AesDesign_slots"],
    "C16": ["AesConc"],
    "C17": ["AesObserver"],
    "C18": ["AesLaws_buffers"],
    "C19": ["AesLaws_real"],
    "C20": ["AesSelect"],
}
DEEP = {
    "C01": ["AesDesign_keys", "AesDesign_real", "AesBackends_blocks", "AesBackends_bytes"],
    "C02": ["AesDesign_keys", "AesDesign_keyspre", "AesDesign_square", "AesDesign_real"],
    "C03": ["AesDesign_keys", "AesDesign_keyspre", "AesDesign_square"],
    "C04": ["AesDesign_wide", "AesDesign_widepre", "AesDesign_wideesm"],
    "C05": ["AesBackends_bytes", "AesBackends_circuitall", "AesDesign_wideesm"],
    "C06": ["AesDesign_widepre", "AesDesign_wideesm"],
    "C07": ["AesBackends_circuitall", "AesBackends_keys", "AesBackends_blocks", "AesDesign_widepre", "AesDesign_wideesm"],
    "C15": ["AesDesign_keys"],
    "C19": ["AesLaws_rounds", "AesLaws_square"],
}
# mistakes that TLC must find: (module, configuration, what to replace, by what)
MUTANTS = {
    "C03": [("AesDesign", "AesDesign_slots", '"none"', '"middle"'), ("AesDesign", "AesDesign_slots", '"none"', '"lazy-clone"')],
    "C04": [("AesDesign", "AesDesign_wide", '"none"', '"lane-key"')],
    "C05": [("AesBackends", "AesBackends_blocks", "INVARIANT Holds", "INVARIANT NotBad")],
    "C06": [("AesDesign", "AesDesign_wide", '"none"', '"chain-drops-odd"')],
    "C15": [("AesDesign", "AesDesign_slots", '"none"', '"convert-in-place"')],
    "C16": [("AesConc", "AesConc", '"own"', f'"{m}"') for m in ("shared", "object", "cache", "table")],
    "C20": [("AesSelect", "AesSelect", '"none"', f'"{m}"') for m in ("stable", "ct-first", "big-endian", "not-with-nightly")],
    "C17": [("AesObserver", "AesObserver", '"gates"', f'"{m}"') for m in ("table", "skip", "early")],
}


def explore(cfg, workers, thorough):
    r = tlc(cfg.split("_")[0], cfg, timeout=850 if not thorough else 3000, workers=workers, heap="4g")
    if not r.ok():
        raise ToolError(f"the model {cfg} does not hold: {r.out[-1500:]}")
    return {"model": cfg, "states": r.distinct, "transitions": r.generated, "depth": r.depth, "result": "no error"}


def mutant(module, cfg, a, b):
    text = open(f"{SPEC}/{cfg}.cfg").read()
    if a not in text:
        raise ToolError(f"{cfg}: no {a}")
    os.makedirs(BUILD + "/tlc", exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="mut", suffix=".cfg", dir=BUILD + "/tlc")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text.replace(a, b))
        r = tlc(module, path[:-4], timeout=600, workers=2)
    finally:
        os.unlink(path)
    if "is violated" not in r.out:
        raise ToolError(f"the mistake {b} in {cfg} goes unnoticed: {r.out[-800:]}")
    return {"model": f"{cfg} with {b}", "states": r.distinct, "result": "violated, as it must be"}


def check(run, pid, thorough):
    jobs = [(explore, (c, 2, thorough)) for c in QUICK.get(pid, []) + (DEEP.get(pid, []) if thorough else [])]
    jobs += [(mutant, m) for m in (MUTANTS.get(pid, []) if thorough else MUTANTS.get(pid, [])[:1])]
    with ThreadPoolExecutor(3 if thorough else 1) as ex:
        for m in ex.map(lambda j: j[0](*j[1]), jobs):
            run.models.append(m)
            run.states += m["states"]
            run.transitions += m.get("transitions", 0)

