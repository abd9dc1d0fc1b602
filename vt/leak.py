"""C17: what an observer of control flow and addresses sees, recorded from the real code and judged by TLC (AesLeak)."""
import json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import multiprocessing
from . import aes, build, step
from .build import BUILD, HARNESS, ToolError
from .tlc import tlc

N = 1200
CHEAP = re.compile(r"and|or|xor|not|assign|bytes|parse|store|u128|pack|split|spread|control")


def names():
    s = open(HARNESS + "/src/leak.rs").read()
    return re.findall(r'"(\w+)"', s[s.index("NAMES: "):s.index("];", s.index("NAMES: "))])


def publics(name):
    if name.startswith("chain"):
        return [1, 2, 5, 12]
    if name.startswith(("parse", "store")):
        k = 16 * int(name[5:])
        return [k, k + 5] + ([k - 1] if name[0] == "p" else [])
    return [0]


def patterns(seed, k):
    r = random.Random(seed)
    rnd = lambda n: bytes(r.randrange(256) for _ in range(n))
    one = rnd(16)
    words = bytearray(rnd(N))
    for i in range(0, N, 16):
        words[i + 12:i + 16] = bytes(4)
    low = bytes(b & 15 for b in rnd(N))
    l = [bytes(N), rnd(N), (one * N)[:N], b"\xff" * N, bytes(words), bytes(16) + rnd(N - 16),
         rnd(16) + bytes(16) + rnd(N - 32), low, bytes(range(256)) * 4 + rnd(N - 1024), bytes(x | 0x80 for x in rnd(N)),
         rnd(32) + bytes(N - 32), rnd(1) * N]
    while len(l) < k:
        l.append(rnd(N))
    return l[:k]


def hard(name, seed):
    """secrets that make something zero inside: all words of a part of the expanded key, the state after a round"""
    r = random.Random(seed)
    rnd = lambda n: bytes(r.randrange(256) for _ in range(n))
    m = re.fullmatch(r"(setup|[edc])(\d\d\d)|(chain_)?(enc|dec)(_last)?(\d)", name)
    l = []
    if m and m[1] == "setup":
        nk = int(m[2]) // 32
        for at in [*range(nk, 3 * nk + 28 - nk + 1, nk), 4 * (nk + 7) - nk]:
            l.append(aes.key_from([bytes(4)] * nk, min(at, 4 * (nk + 7) - nk), nk))
    elif m and m[2]:
        rk = aes.expand(k := rnd(int(m[2]) // 8))
        for i in (1, 2, len(rk) - 2):
            p = (aes.cipher_for if m[1] == "d" else aes.plain_for)(rk, i, bytes(16))
            l.append(k + p * 7)
    elif m:
        w, d = int(m[6]), m[4]
        f = (lambda x: aes.mc(aes.sub_shift(x))) if d == "enc" else lambda x: aes.imc(aes.inv_sub_shift(x))
        if m[5]:
            f = aes.sub_shift if d == "enc" else aes.inv_sub_shift
        if m[3]:
            x, k = rnd(16), rnd(16)
            l.append(x * w + k * w + f(aes.xor(x, k)) * w)      # zero after the first round
            l.append(x * w + k * w + f(aes.xor(x, k)) * w + f(bytes(16)) * w)
        else:
            x = rnd(16)
            l.append(x * w + f(x) * w)
    return [(x + rnd(N))[:N] for x in dict.fromkeys(l)]


def lines(kind, ops, pats, seed=None):
    ctl = [bytes(N), b"\xff" * N]
    return [f"{kind} {o} {n} {p.hex()}" for o in ops for n in publics(o)
            for p in (ctl if o.startswith("control") else pats + (hard(o, seed) if seed is not None else []))]


def task(a):
    """in a process of its own: one build, some operations"""
    b, profile, ls, deadline = a
    try:
        seen, steps = step.watch(b, profile, ls, deadline)
        return seen, steps, ""
    except (ToolError, OSError) as e:
        return [], 0, repr(e)


def memcheck(b, profile, ls):
    """number of reports per line; (None, why) if this cannot be done here"""
    log = f"{BUILD}/memcheck.{os.getpid()}.{b.name}.{profile}"
    cmd = ["valgrind", "-q", "--error-limit=no", "--undef-value-errors=yes", "--log-file=" + log, b.binary(profile)]
    try:
        r = subprocess.run(cmd, input=("\n".join(ls) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=300)
    except (OSError, subprocess.TimeoutExpired) as e:
        return None, repr(e)
    try:
        text = open(log, errors="replace").read()
        os.unlink(log)
    except OSError:
        text = ""
    got = re.findall(r"^ok (\d+)$", r.stdout.decode("ascii", "replace"), re.M)
    if r.returncode != 0 or len(got) != len(ls):
        return None, f"valgrind ended with {r.returncode} after {len(got)} of {len(ls)} lines: {text[:300]}"
    return [int(x) for x in got], text


def plan(thorough, seed):
    """[(build, profile, number of secrets, processes)] to step"""
    k = 3 if thorough else 1
    l = [("va", "release", 10 * k, 2), ("va", "dev", 5 * k, 2), ("a5", "release", 10 * k, 2), ("a5", "dev", 5 * k, 2),
         ("ni", "release", 8 * k, 1), ("ne", "release", 8 * k, 2), ("ne", "dev", 5 * k, 2), ("v8", "bare", 5 * k, 2),
         ("rv64", "bare", 5 * k, 3), ("rv32", "bare", 5 * k, 5), ("x86ni", "bare", 5 * k, 2), ("ct", "release", 2 * k, 2),
         ("bect", "bare", 2, 2)]
    if thorough:
        l += [("ni", "dev", 6, 2), ("ct", "dev", 2, 4), ("x86ct", "bare", 2, 6)]
    return l


def C17(run):
    from . import main, models
    backends = build.all_backends()
    from . import select
    with ThreadPoolExecutor(1) as ex:
        fm = ex.submit(models.check, run, run.pid, main.THOROUGH)
        soft = [b for b in select.configurations(border=True) if b.c["base"] == "constant-time"]
        select.make_all(soft)
        build.build_all([backends[n] for n in backends if n not in ("sw", "besw", "bea64")])
        main.log("built")
        fm.result()
    use = {(b.name, p) for b, p in main.usable(run, backends.values())}
    ops = names()
    cheap = [o for o in ops if CHEAP.search(o) and not o.startswith("c1")]
    events, origin = [], []     # origin: what to show for an event
    # -- taint
    pats = patterns(main.SEED, 6 if main.THOROUGH else 2)
    todo = [(backends[n], p) for n, p in (("ct", "release"), ("ct", "dev"), ("ni", "release"), ("ni", "dev"), ("x86ct", "bare"))
            if (n, p) in use]
    tl = lines("taint", ops, pats[::-1])
    with ThreadPoolExecutor(5) as ex:
        for (b, p), (got, text) in zip(todo, ex.map(lambda bp: memcheck(*bp, tl), todo)):
            lab = main.label(b, p)
            if got is None:
                run.note(f"{lab}: not followed by memcheck: {text}")
                continue
            run.builds.append(lab + " (memcheck)")
            run.executions += len(got)
            for l, c in zip(tl, got):
                _, f, n, h = l.split()
                events.append({"k": "taint", "b": lab, "f": f, "n": int(n), "c": c})
                origin.append((l, c, text))
    main.log(f"memcheck: {len(events)} runs")
    # -- stepping
    deadline = time.time() + (560 if main.THOROUGH else 170)
    tasks = []
    for n, p, k, procs in plan(main.THOROUGH, main.SEED):
        if (n, p) not in use:
            continue
        if n == "bect":
            tasks.append((backends[n], p, lines("leak", ["control_table", "control_branch"] + cheap, patterns(main.SEED, k)),
                          deadline))
            if main.THOROUGH:
                tasks.append((backends[n], p, lines("leak", [o for o in ops if o not in cheap], patterns(main.SEED, k)), deadline))
            continue
        for i in range(procs):
            # a build that memcheck does not follow, and of which nothing but special values would show a branch
            special = main.SEED if n not in ("ni", "ct") and p != "dev" else None
            tasks.append((backends[n], p, lines("leak", ops[i::procs], patterns(main.SEED, k), special), deadline))
    weight = {"q-riscv32-c": 8, "q-i686-c": 8, "q-armv7-c": 8, "q-riscv64-c": 7, "q-aarch64-c": 7, "q-s390x-c": 7, "rv32": 9, "rv64": 8, "v8": 7, "x86ni": 6, "ct": 10, "bect": 11, "x86ct": 11}
    # the constant-time software as every architecture is given it, with whatever does not yet select hardware
    few = ["control_table", "control_branch", "enc1", "dec1", "mc", "imc", "enc_last1", "dec_last1", "setup128", "setup192", "d128", "c128"]
    for b in soft:
        if b.profile in b.failed:
            run.note(f"{b.name} could not be built")
        elif b.possible:
            least = not b.c["asked"] and not b.c["nightly"]
            l = ops if main.THOROUGH and least else few if least or main.THOROUGH else few[:3]
            tasks.append((b, b.profile, lines("leak", l, patterns(main.SEED, 12)[1::10] + patterns(main.SEED, 12)[:1]), deadline))
    # what takes seconds first, so that no configuration goes unwatched; then the longest
    tasks.sort(key=lambda t: -(20 if t[0].name.startswith("q-") and len(t[2]) < 50 else weight.get(t[0].name, 0)))
    steps = 0
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork")) as ex:
        for (b, p, ls, _), (seen, st, err) in zip(tasks, ex.map(task, tasks)):
            lab = b.name if b.name.startswith("q-") else main.label(b, p)
            steps += st
            if err:
                run.note(f"{lab}: not stepped: {err}")
                continue
            if len(seen) < len(ls):
                run.note(f"{lab}: {len(ls) - len(seen)} of {len(ls)} runs not stepped for lack of time")
            if seen and lab + " (stepped)" not in run.builds:
                run.builds.append(lab + " (stepped)")
            run.executions += len(seen)
            for l, (dig, _, where) in zip(ls, seen):
                _, f, m, h = l.split()
                events.append({"k": "watch", "b": lab, "f": f, "n": int(m), "o": dig[:24]})
                origin.append((l, where, ""))
    main.log(f"stepped: {len(events)} runs in all, {steps} instructions and addresses")
    if not events:
        raise ToolError("no build could be watched")
    # a control run whose operation was cut off by the time limit proves nothing
    from collections import Counter
    cnt = Counter((e["b"], e["k"], e["f"]) for e in events)
    keep = [i for i, e in enumerate(events) if not (e["f"].startswith("control") and e["k"] == "watch" and
                                                    cnt[e["b"], e["k"], e["f"]] < 2)]
    events, origin = [events[i] for i in keep], [origin[i] for i in keep]
    bad = []
    shards = {}
    for i, e in enumerate(events):
        shards.setdefault((e["b"], e["k"]), []).append(i)
    d = tempfile.mkdtemp(prefix="lk", dir=BUILD)

    def one(idx):
        path = f"{d}/{idx[0]}.ndjson"
        with open(path, "w") as f:
            for i in idx:
                f.write(json.dumps(events[i]) + "\n")
        return tlc("AesLeak", env={"TRACE": path}, timeout=600, heap="1500m")
    try:
        with ThreadPoolExecutor(8) as ex:
            for (k, idx), r in zip(shards.items(), ex.map(one, shards.values())):
                if "NotBlind" in r.out and "violated" in r.out:
                    raise ToolError(f"{k}: a control operation went unnoticed: " + r.out[-400:])
                if not r.ok() or r.depth - 1 != len(idx):
                    raise ToolError("TLC: " + r.out[-800:])
                bad += [idx[int(x) - 1] for x in re.findall(r'<<"LEAK", (\d+)>>', r.out)]
                run.states += r.distinct
                run.transitions += r.generated - 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    run.events += len(events)
    run.traces += len(shards)
    run.extra["instructions_and_addresses_observed"] = steps
    rr = random.Random(main.SEED)
    for i in sorted(rr.sample(range(len(events)), 6)):
        run.samples.append({**events[i], "secret": origin[i][0].split()[3][:64]})
    groups = {}
    for i in bad:
        groups.setdefault((events[i]["b"], events[i]["k"]), []).append(i)
    os.makedirs(BUILD + "/replay", exist_ok=True)
    for (lab, k), l in groups.items():
        path = f"{BUILD}/replay/C17-{len(run.violations)}.json"
        e = events[l[0]]
        info = [{"operation": events[i]["f"], "public": events[i]["n"], "line": origin[i][0],
                 "seen": origin[i][1]} for i in l[:20]]
        with open(path, "w") as f:
            json.dump({"property": "C17", "build": lab, "observer": k, "runs": info, "memcheck": origin[l[0]][2][:4000]}, f, indent=1)
        run.violations.append(path)
        main.log(f"LEAK {lab} ({k}): " + ", ".join(sorted({f"{events[i]['f']}/{events[i]['n']}" for i in l}))[:400]
                 + f"; first: {origin[l[0]][1]}")
    return run
