"""Behaviours generated by TLC from the specification, as commands for the harness."""
import json, random, re
from collections import deque
from concurrent.futures import ThreadPoolExecutor
from .build import ToolError
from .tlc import tlc


def histories(run):
    """the transitions of AesHistories: {state: [(call, state)]}, and the initial state"""
    r = tlc("AesHistories", timeout=200)
    if not r.ok():
        raise ToolError("AesHistories: " + r.out[-800:])
    g, start = {}, None
    for m in re.finditer(r'^<<"EDGE", ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*")>>', r.out, re.M):
        a, e, b = (json.loads(x) for x in m.groups())
        start = start or a
        g.setdefault(a, []).append((json.loads(e), b))
    run.models.append({"model": "AesHistories", "states": r.distinct, "transitions": sum(map(len, g.values())),
                       "result": "no error; every transition toured on the real code"})
    run.states += r.distinct
    run.transitions += r.generated
    return g, start


def walks(g, start, r, length):
    """walks from the initial state that together take every transition"""
    todo = {a: list(l) for a, l in g.items()}
    for l in todo.values():
        r.shuffle(l)
    left = sum(map(len, todo.values()))
    out = []
    while left:
        at, walk = start, []
        while left and len(walk) < length:
            if todo[at]:
                e, b = todo[at].pop()
                left -= 1
                walk.append(e)
                at = b
                continue
            # the nearest state with something left to do
            seen, q, path = {at: None}, deque([at]), None
            while q:
                x = q.popleft()
                if todo[x]:
                    path = x
                    break
                for e, b in g[x]:
                    if b not in seen:
                        seen[b] = (x, e)
                        q.append(b)
            if path is None:
                raise ToolError("a transition that cannot be reached")
            steps = []
            while path != at:
                x, e = seen[path]
                steps.append(e)
                path = x
            walk += reversed(steps)
            # replay the steps to know where we are
            for e in reversed(steps):
                at = next(b for f, b in g[at] if f == e)
        out.append(walk)
    return out


def tour(run, c, related, keylen, length=24):
    """adds to the corpus c behaviours that take every transition of AesHistories"""
    g, start = histories(run)
    for rep in range(len(keylen) if c.t else 1):
        for i, walk in enumerate(walks(g, start, c.r, length)):
            n = keylen[(i + rep) % len(keylen)]
            keys = dict(zip("ab", related(c, n, 2)))
            x = c.rb(64)
            live = set()
            c.reset()

            def use(s):
                w = c.r.choice((1, 1, 1, 1, 1, 2, 4))
                c.put(f"kx {w} {s} {(x if c.r.random() < 0.5 else c.mixed(64))[:16 * w].hex()}")
            for e in walk:
                o = e["op"]
                if o == "kn":
                    c.put(f"kn {e['s']} {e['f']} {keys[e['k']].hex()}")
                    live.add(e["s"])
                elif o in ("kc", "kl", "kf"):
                    c.put(f"{o} {e['d']} {e['s']}")
                    live.add(e["d"])
                elif o == "kd":
                    c.put(f"kd {e['s']}")
                    live.discard(e["s"])
                else:
                    use(e["s"])
            for s in sorted(live):
                use(s)


# ---- behaviours of AesApi drawn by TLC -----------------------------------------------------------
SAME_PACK = {"2from1s": ("2from1s", "2to1s"), "4to1s": ("4from1s", "4to1s", "4from2s", "4to2s", "tour")}


def hexs(v):
    return bytes(v).hex() if v else "-"


def command(e, r):
    """the command of a call; r chooses between forms that the specification does not tell apart"""
    def opnd(o):
        return f"@{o['g']}" if o["g"] else hexs(o["h"])

    op = e["op"]
    keep = f" >{e['r']}" if e.get("r") else ""
    if op == "kn":
        return f"kn {e['s']} {e['f']} {hexs(e['h'])}"
    if op in ("kc", "kl"):
        return f"{'kf' if op == 'kl' and r.random() < 0.3 else op} {e['d']} {e['s']}"
    if op == "kd":
        return f"kd {e['s']}"
    if op == "kx":
        return f"kx {e['w']} {e['s']} {opnd(e['x'])}{keep}"
    if op == "rnd":
        return f"rnd {e['w']} {e['f']} {opnd(e['x'])} {opnd(e['y'])}{keep}"
    if op == "mix":
        return f"mix {e['f']} {opnd(e['x'])}{keep}"
    if op == "chain":
        return f"chain {e['w']} {e['f']} {opnd(e['x'])} {','.join(map(opnd, e['k'])) or '-'}{keep}"
    if op == "bit":
        f = e["f"] + ("=" if e["f"] != "not" and r.random() < 0.5 else "")
        return f"bit {e['w']} {f} {opnd(e['x'])} {opnd(e['y'])}{keep}"
    if op == "cmp":
        return f"cmp {e['w']} {e['f']} {opnd(e['x'])} {opnd(e['y'])}"
    if op == "set":
        return f"set {e['w']} {opnd(e['x'])}{keep}"
    if op == "slice":
        return f"slice {e['w']} {r.choice([0, r.randrange(64), 100, 101])} {hexs(e['h'])}"
    if op == "store":
        return f"store {e['w']} {r.choice([0, r.randrange(64), 100, 101])} {opnd(e['x'])} {hexs(e['h'])}"
    if op == "bytes":
        return f"bytes {e['w']} {e['f']} {r.choice(['arr', 'store', 'reg'])} {'-' if e['f'] in ('zero', 'default') else hexs(e['h'])}"
    if op == "u128":
        return f"u128 {r.choice(['in', 'out', 'both'])} {hexs(e['h'])}"
    if op == "fmt":
        return f"fmt {e['f']} {opnd(e['x'])}"
    if op == "dbg":
        return f"dbg {e['w']} {e['f']} {opnd(e['x'])}"
    if op == "pack":
        return f"pack {r.choice(SAME_PACK.get(e['f'], (e['f'],)))} {hexs(e['h'])}"
    raise ToolError("call " + repr(e)[:100])


def generated(run, seed, behaviours, depth, shards=8):
    """(lines, outcomes): behaviours of AesApi with the outcome TLC gives every call"""
    def one(k):
        return tlc("AesGen", timeout=600, args=("-simulate", f"num={behaviours // shards}", "-depth", str(depth),
                                                "-seed", str(seed * 100 + k)))
    lines, exp, n = [], [], 0
    r = random.Random(seed)
    with ThreadPoolExecutor(shards) as ex:
        for res in ex.map(one, range(shards)):
            k = 0
            for m in re.finditer(r'^<<"CALL", (\d+), ("(?:[^"\\]|\\.)*")>>', res.out, re.M):
                if m.group(1) == "1":
                    lines.append("reset")
                    exp.append({"t": "ok", "v": []})
                d = json.loads(json.loads(m.group(2)))
                lines.append(command(d["e"], r))
                exp.append(d["o"])
                k += 1
            if not res.ok() or k < depth:
                raise ToolError("AesGen: " + res.out[-800:])
            n += k
    run.models.append({"model": "AesGen", "states": n, "result": "behaviours drawn at random, executed on every build"})
    run.states += n
    run.transitions += n
    return lines, exp
