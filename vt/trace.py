"""Commands, answers and their events; validation of traces by TLC."""
import json, os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from .build import BUILD, ToolError
from .tlc import tlc


def hx(s):
    return [] if s == "-" else list(bytes.fromhex(s))


def operand(s):
    return {"g": int(s[1:]), "h": []} if s[0] == "@" else {"g": 0, "h": hx(s)}


def slot(s):
    return 100 + int(s[1:]) if s[0] == "s" else int(s)


def capped(n):
    """TLC's integers end at 2^31 - 1; every length from 2^30 on is as good as 2^30 to the specification"""
    return min(int(n), 1 << 30)


def event(line):
    """The trace event of a command (without outcomes)"""
    t = line.split(" ")
    if t[0] == "many":
        t = t[2:]
    op = t[0]
    keep = int(t.pop()[1:]) if t[-1][0] == ">" else 0
    if op in ("reset", "shr"):
        return {"op": op}
    if op == "kn":
        return {"op": op, "s": slot(t[1]), "f": t[2], "h": hx(t[3])}
    if op in ("kc", "kl", "kf"):
        return {"op": "kc" if op == "kc" else "kl", "d": slot(t[1]), "s": slot(t[2])}
    if op == "kd":
        return {"op": op, "s": slot(t[1])}
    if op == "mix":
        return {"op": op, "f": t[1], "x": operand(t[2]), "r": keep}
    if op == "u128":
        return {"op": op, "h": hx(t[2])}
    if op == "kt":
        return {"op": op, "f": t[1], "s": slot(t[2])}
    if op in ("fmt", "fmtl"):        # flags: what else the format asks for
        f, _, flags = t[-2].partition("~")
        return {"op": op, "f": f, "flags": flags, "x": operand(t[-1]), **({"n": int(t[1])} if op == "fmtl" else {})}
    if op == "pack":
        return {"op": op, "f": t[1], "h": hx(t[2])}
    w = int(t[1])
    if op == "kx":
        return {"op": op, "w": w, "s": slot(t[2]), "x": operand(t[3]), "r": keep}
    if op == "rep":
        return {"op": "kx", "w": w, "s": slot(t[3]), "x": operand(t[4]), "r": keep}
    if op == "rnd":
        return {"op": op, "w": w, "f": t[2], "x": operand(t[3]), "y": operand(t[4]), "r": keep}
    if op == "chain":
        return {"op": op, "w": w, "f": t[2], "x": operand(t[3]), "r": keep,
                "k": [] if t[4] == "-" else [operand(k) for k in t[4].split(",")]}
    if op == "chainp":
        return {"op": op, "w": w, "f": t[2], "x": operand(t[3]), "k": [operand(k) for k in [t[4], *t[5].split(",")]],
                "n": int(t[6]), "r": keep}
    if op == "bit":
        return {"op": op, "w": w, "f": t[2].rstrip("="), "x": operand(t[3]), "y": operand(t[4]), "r": keep}
    if op == "cmp":
        return {"op": op, "w": w, "f": t[2], "x": operand(t[3]), "y": operand(t[4])}
    if op == "bytes":
        c, p = t[2], 0
        if c.startswith("const"):
            c, p = "const", int(c[5:])
        return {"op": op, "w": w, "f": c, "p": p, "h": hx(t[4])}
    if op == "slice":
        return {"op": op, "w": w, "h": hx(t[3])}
    if op == "store":
        return {"op": op, "w": w, "x": operand(t[3]), "h": hx(t[4])}
    if op == "bslice":
        return {"op": op, "w": w, "n": capped(t[2]), "h": hx(t[3])}
    if op == "bstore":
        return {"op": op, "w": w, "n": capped(t[2]), "x": operand(t[3]), "h": hx(t[4])}
    if op == "dbg":
        f, _, flags = t[2].partition("~")
        return {"op": op, "w": w, "f": f, "flags": flags, "x": operand(t[3])}
    if op == "set":
        return {"op": op, "w": w, "x": operand(t[2]), "r": keep}
    raise ToolError("event of " + line[:80])


def outcome(a):
    """An answer of the harness as an outcome of the specification"""
    t, _, v = a.partition(" ")
    if t in ("ok", "panic", "cut"):
        return {"t": t, "v": hx(v) if v else []}
    if t == "err":
        return {"t": t, "v": [int(v)]}
    return {"t": "fault", "v": []}       # stray, crash: never allowed by the specification


COST = {"kn": 11, "kx": 13, "rep": 13, "rnd": 1, "chain": 1, "chainp": 2, "mix": 1}


def cost(line):
    op = line.split(" ", 1)[0]
    c = COST.get(op, 0.4)
    if op in ("kx", "rnd", "chain", "chainp", "rep"):
        c *= int(line.split(" ", 2)[1])
        if op.startswith("chain"):
            c *= 1 + line.count(",")
    return 0.6 + c


def groups(lines):
    """[(first, last+1)] of the behaviours in lines"""
    g = []
    for i, l in enumerate(lines):
        if l == "reset" or not g:
            g.append([i, i])
        g[-1][1] = i + 1
    return g


class Verdict:
    def __init__(self):
        self.states = self.transitions = self.events = self.behaviours = 0
        self.mismatches = []     # (line index, expected)
        self.errors = []


def validate(lines, outcomes, shards=8, prefix=0, timeout=600, alts=None):
    """Validates the trace of `lines` with `outcomes[i]` the list of distinct answers to line i.
    The first `prefix` lines (shared set-up) are part of every shard."""
    pre, gs = list(range(prefix)), [(a + prefix, b + prefix) for a, b in groups(lines[prefix:])]
    loads = [0.0] * shards
    parts = [[] for _ in range(shards)]
    for a, b in sorted(gs, key=lambda g: -sum(cost(l) for l in lines[g[0]:g[1]])) if len(gs) < 20000 else gs:
        i = loads.index(min(loads))
        loads[i] += sum(cost(l) for l in lines[a:b])
        parts[i].append((a, b))
    os.makedirs(BUILD + "/tlc", exist_ok=True)
    d = tempfile.mkdtemp(prefix="tr", dir=BUILD + "/tlc")
    v = Verdict()

    def one(k):
        idx = list(pre)
        for a, b in sorted(parts[k]):
            idx += range(a, b)
        path = f"{d}/{k}.ndjson"
        with open(path, "w") as f:
            for i in idx:
                e = event(lines[i])
                e["o"] = [outcome(a) for a in outcomes[i]]
                if alts is not None:
                    e["b"] = [outcome(a) for a in alts.get(i, [])]
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        r = tlc("AesTrace", env={"TRACE": path}, timeout=timeout)
        return idx, r

    try:
        with ThreadPoolExecutor(shards) as ex:
            for k, (idx, r) in enumerate(ex.map(one, [k for k in range(shards) if parts[k]])):
                v.states += r.distinct
                v.transitions += max(0, r.generated - 1)
                m = re.findall(r'<<"MISMATCH", (\d+), "(.*)">>', r.out)
                if m:
                    at, exp = int(m[0][0]), json.loads(m[0][1].replace('\\"', '"'))
                    v.mismatches.append((idx[at - 1], exp))
                elif not r.ok() or r.depth - 1 != len(idx):
                    v.errors.append(f"TLC rejected a trace without a mismatch (rc {r.rc}, depth {r.depth} of {len(idx)}): "
                                    + r.out[-1500:])
        v.events = len(lines)
        v.behaviours = len(gs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return v
