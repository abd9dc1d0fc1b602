"""Decides one property: runs its behaviours on every build, lets TLC judge the traces."""
import json, os, re, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build, corpus, models, select, tour, trace
from .build import BUILD, HERE, ToolError

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class Run:
    """What one check has done so far"""
    def __init__(self, pid):
        self.pid = pid
        self.notes = []
        self.violations = []        # texts
        self.states = self.transitions = self.traces = self.events = self.executions = 0
        self.mass = 0
        self.models = []
        self.samples = []
        self.assumptions = []
        self.builds = []
        self.extra = {}

    def note(self, s):
        log("note:", s)
        self.notes.append(s)


def label(b, p):
    return b.name if p in ("bare", "miri") else f"{b.name}/{p}"


def usable(run, backends):
    """[(backend, profile)] that were built. A build that fails is another property's business, except for C07."""
    l = []
    for b in backends:
        for p in b.profiles():
            if b.miri or p in b.bins:
                l.append((b, p))
            elif p in b.failed:
                run.note(f"{label(b, p)} could not be built: {b.failed[p].strip().splitlines()[0][:200] if b.failed[p].strip() else ''}")
    return l


# ---- mass executions: which behaviours deserve TLC's attention -----------------------------------
MASK = {"C01": 1, "C02": 1, "C03": 1, "C04": 1, "C05": 6, "C06": 8, "C08": 128, "C09": 256, "C10": 256, "C11": 16,
        "C12": 32, "C13": 64, "C14": 512, "C15": 1, "C07": 1023, "C18": 1023, "C19": 6}
TOURED = {"C03", "C15"}           # every transition of AesHistories
PLAYED = {"C03": 80, "C07": 240, "C15": 80, "C18": 80}      # behaviours drawn from AesApi
SPEED = {"release": 1.0, "dev": 0.15, "bare": 0.02}


def mass_lines(pid, b, p, thorough):
    n = int(SPEED[p] * (12e6 if thorough else 1.2e6))
    if b.runner and not b.bare:
        n //= 25
    if pid == "C14" or MASK[pid] == 1:
        n //= 3
    parts = 4
    return [f"mass {MASK[pid]} {SEED * 1000 + i} {max(200, n // parts)}" for i in range(parts)]


def mass(run, use, jobs):
    """Random behaviours run in place against the compiled reference; returns the deviating ones"""
    def one(bp):
        b, p = bp
        ls = mass_lines(run.pid, b, p, THOROUGH)
        ans = build.run(b, p, ls, timeout=600 if THOROUGH else 240)
        return b, p, ls, ans
    found = []
    todo = [bp for bp in use if not bp[0].miri]
    with ThreadPoolExecutor(jobs) as ex:
        for b, p, ls, ans in ex.map(one, todo):
            for l, a in zip(ls, ans):
                if a == "ok -":
                    run.mass += int(l.split()[3])
                elif a and a.startswith("mass "):
                    found.append((label(b, p), a[5:].split(";")))
                elif a and a.startswith("crash"):
                    run.note(f"{label(b, p)}: {a} in a mass run")
                    found += locate_crash(b, p, l)
    return found


def locate_crash(b, p, line):
    """A mass run that died: generate its behaviours with the reference build is not possible here, so
    halve the number of commands until the deviation is in one short run."""
    _, mask, seed, n = line.split()
    lo, hi = 0, int(n)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        a = build.run(b, p, [f"mass {mask} {seed} {mid}"], timeout=60)[0]
        if a == "ok -":
            lo = mid
        elif a and a.startswith("mass "):
            return [(label(b, p), a[5:].split(";"))]
        else:
            hi = mid
    return []


# ---- running and validating ----------------------------------------------------------------------
def execute(run, lines, use, jobs=8):
    """outcomes: per line, a dict answer -> [labels]"""
    outcomes = [dict() for _ in lines]

    def one(bp):
        b, p = bp
        return label(b, p), build.run(b, p, lines, timeout=600 if THOROUGH else 100)
    short = {}
    with ThreadPoolExecutor(jobs) as ex:
        for lab, ans in ex.map(one, use):
            n = 0
            for o, a in zip(outcomes, ans):
                if a is not None:
                    o.setdefault(a, []).append(lab)
                    n += 1
            run.executions += n
            if lab not in run.builds:
                run.builds.append(lab)
            if n < len(lines):
                short.setdefault(len(lines) - n, []).append(lab)
    for n, labs in short.items():
        run.note(f"{n} of {len(lines)} commands not executed by {' '.join(labs)}")
    return outcomes


def under_miri(run, lines, outcomes, size, names=None, timeout=420):
    """Some whole behaviours are also executed under Miri, each build drawing its own: undefined behaviour
    (accesses outside, uninitialised or misaligned, aliasing, invalid values) ends them with an answer that
    the specification does not allow."""
    import random
    groups, cur = [], []
    for i, l in enumerate(lines):
        if l == "reset" and cur:
            groups.append(cur)
            cur = []
        cur.append(i)
    groups.append(cur)
    groups = [g for g in groups if not any(lines[i].startswith("bs") or len(lines[i]) > 4000 for i in g)]
    todo = [b for n, b in build.miri_backends().items() if names is None or n in names]

    def one(k, b):
        r = random.Random(f"{SEED}{run.pid}{k}")
        order = groups[:]
        r.shuffle(order)
        pick = []
        for g in order:
            if len(pick) >= size:
                break
            pick += r.sample(g, 24) if len(g) > 40 and all(independent(lines[i]) for i in g) else g
        pick = sorted(set(pick))
        return b, pick, build.run(b, "miri", [lines[i] for i in pick], timeout=timeout)
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for b, pick, ans in ex.map(one, range(len(todo)), todo):
            k = 0
            for i, a in zip(pick, ans):
                if a is not None:
                    outcomes[i].setdefault(a, []).append(b.name)
                    k += 1
            run.executions += k
            n += k
            if k and b.name not in run.builds:
                run.builds.append(b.name)
            if k < len(pick):
                run.note(f"{b.name}: {len(pick) - k} of {len(pick)} commands not executed: {b.failed.get('miri', '')[:200]}")
    run.extra["calls_executed_under_miri"] = run.extra.get("calls_executed_under_miri", 0) + n
    log(f"under Miri: {n} commands")


def independent(l):
    return l == "reset" or not re.match(r"k|.*[@>]", l)


def sample(run, lines, outcomes, k=6):
    import random
    r = random.Random(SEED)
    idx = [i for i, l in enumerate(lines) if l != "reset" and outcomes[i]]
    for i in sorted(r.sample(idx, min(k, len(idx)))):
        run.samples.append({"call": lines[i][:300], "outcomes": {a[:200]: len(w) for a, w in outcomes[i].items()}})


def judge(run, lines, outcomes, prefix=0, only=None, what="trace"):
    """TLC on the trace; reports every mismatch"""
    obs = [list(o) if only is None or i in only else [] for i, o in enumerate(outcomes)]
    v = trace.validate(lines, obs, prefix=prefix, timeout=800)
    run.states += v.states
    run.transitions += v.transitions
    run.events += v.events
    run.traces += v.behaviours
    if v.errors:
        raise ToolError(v.errors[0])
    for at, exp in v.mismatches:
        report(run, lines, outcomes, at, exp, prefix)
    log(f"{what}: {v.events} events, {v.behaviours} behaviours, {v.states} states, {len(v.mismatches)} shard(s) rejected")
    return v


def not_built(run, b, p, msg):
    """a build without any outcome differs from those that have one"""
    os.makedirs(BUILD + "/replay", exist_ok=True)
    path = f"{BUILD}/replay/{run.pid}-{len(run.violations)}.json"
    with open(path, "w") as f:
        json.dump({"property": run.pid, "build": label(b, p), "toolchain": b.toolchain, "target": b.target, "flags": b.flags,
                   "features": b.features, "compiler": msg[-3000:]}, f, indent=1)
    run.violations.append(path)
    log(f"MISMATCH {label(b, p)} does not compile: " + msg.strip()[:300])


def behaviour(lines, at, prefix=0):
    a = at
    while a > 0 and lines[a] != "reset":
        a -= 1
    a = max(a, prefix)
    return lines[:prefix] + lines[a:at + 1]


def show(exp):
    h = "".join("%02x" % b for b in exp["v"])
    return f"{exp['t']} {h if exp['t'] != 'err' else exp['v'][0]}".strip()


def report(run, lines, outcomes, at, exp, prefix):
    os.makedirs(BUILD + "/replay", exist_ok=True)
    path = f"{BUILD}/replay/{run.pid}-{len(run.violations)}.json"
    d = {"property": run.pid, "call": lines[at], "specified": show(exp), "outcomes": outcomes[at],
         "behaviour": behaviour(lines, at, prefix), "prefix": prefix}
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    run.violations.append(path)
    bad = {a: w for a, w in outcomes[at].items() if trace.outcome(a) != exp}
    log(f"MISMATCH {lines[at][:200]}\n    specified {show(exp)[:200]}\n    "
        + "\n    ".join(f"{','.join(w)}: {a[:200]}" for a, w in bad.items()))


def played(run, use):
    """behaviours generated from the specification, replayed on every build"""
    n = PLAYED[run.pid] * (8 if THOROUGH else 1)
    lines, exp = tour.generated(run, SEED * 31 + int(run.pid[1:]), n, 60)
    outcomes = execute(run, lines, use)
    bad, dead = 0, False
    for i, (l, x, o) in enumerate(zip(lines, exp, outcomes)):
        dead = dead and l != "reset"         # after a wrong answer the registers differ
        if not dead and any(trace.outcome(a) != x for a in o):
            dead, bad = True, bad + 1
            if bad <= 4:
                report(run, lines, outcomes, i, x, 0)
    run.traces += lines.count("reset")
    run.extra["generated_calls_replayed"] = len(lines)
    log(f"replayed {lines.count('reset')} generated behaviours, {len(lines)} calls: {bad} deviate")


# ---- the checks ----------------------------------------------------------------------------------
def make(pid):
    c = corpus.Corpus(SEED * 7919 + int(pid[1:]), THOROUGH)
    only = getattr(corpus, pid)(c)
    return c, only


def standard(run):
    pid = run.pid
    checked = build.checked_backends()
    backends = list(build.all_backends().values()) + checked
    with ThreadPoolExecutor(2) as ex:
        fm = ex.submit(models.check, run, pid, THOROUGH)
        build.build_all(backends)
        log("built")
        c, only = make(pid)
        use = usable(run, backends)
        more = select.configurations(border=not THOROUGH) if pid == "C07" else select.unlike(build.all_backends().values())
        select.make_all(more)
        use += usable(run, [b for b in more if b.possible])
        log(f"{len(more)} configurations")
        if pid == "C07":
            for b in backends + more:
                for p, m in b.failed.items():
                    if select.theirs(m) or select.lacking(m) and len(use) > 1:
                        not_built(run, b, p, m)
        if not any(not b.bare for b, _ in use):
            raise ToolError("nothing could be built")
        if pid in TOURED:
            tour.tour(run, c, corpus.related, corpus.KEYLEN)
        if pid == "C15":
            corpus.C15_long(c, 2000000 if THOROUGH else 250000)
        lines = c.l
        found = mass(run, [bp for bp in use if not bp[0].name.startswith("q-") and bp[0] not in checked], 8) if pid in MASK else []
        log(f"mass: {run.mass} commands, {len(found)} deviating behaviours")
        seen = set()
        for lab, g in found[:24]:
            if g[-1] not in seen:
                seen.add(g[-1])
                if only is not None:
                    only.update(range(len(lines), len(lines) + len(g)))
                lines = lines + g
        outcomes = execute(run, lines, use)
        log(f"executed {len(lines)} commands on {len(use)} builds")
        ref(run, lines, outcomes)
        if pid == "C18":
            under_miri(run, lines, outcomes, 4000 if THOROUGH else 250, timeout=3000 if THOROUGH else 300)
        elif pid == "C07" and "a5" not in {b.name for b, _ in use}:
            under_miri(run, lines, outcomes, 2000 if THOROUGH else 150, names={"m-a5", "m-va"}, timeout=300)
        sample(run, lines, outcomes)
        if pid in PLAYED:
            played(run, [bp for bp in use if not bp[0].name.startswith("q-")])
        fm.result()
        judge(run, lines, outcomes, only=only)
    return run


def ref(run, lines, outcomes):
    """the compiled reference is validated like any build (its answers must agree with the specification),
    but apart: it is not part of the library"""
    b = build.all_backends()["sw"]
    b.bins["release"] = b.binary("release")
    if not os.path.exists(b.binary("release")):
        return
    o, rc, err = build.execute(b, "release", ("\n".join(lines) + "\n").encode(), args=("ref",))
    got = o.decode().split("\n")[:-1]
    if rc != 0 or len(got) != len(lines):
        raise ToolError("reference: " + err[-300:])
    for l, a, u in zip(lines, got, outcomes):
        if u and a not in u and not l.startswith("kt "):
            run.note(f"reference differs from every build on {l[:120]}")
            break


def C16(run):
    backends = [b for b in build.all_backends().values() if not b.bare]
    with ThreadPoolExecutor(2) as ex:
        fm = ex.submit(models.check, run, run.pid, THOROUGH)
        build.build_all(backends)
        c = corpus.Corpus(SEED * 7919 + 16, THOROUGH)
        cold = corpus.C16(c) - 1
        go = c.l.index("go")
        lines = c.l[:go] + c.l[go + 1:]
        tlines = [re.sub(r"^kn (\d+)", lambda m: f"kn s{m.group(1)}", l) for l in c.l[:go]] + c.l[go + 1:]
        outcomes = [dict() for _ in lines]
        use = usable(run, backends)
        for b, p in use:
            rounds = (400 if p == "release" else 40) * (5 if THOROUGH else 1)
            if b.runner:
                rounds = max(3, rounds // 60)
            data = ("\n".join(c.l) + "\n").encode()
            o, rc, err = build.execute(b, p, data, args=("mt", "8", str(rounds)), timeout=240)
            if rc is None:       # slow, or does it never end?
                log(f"{label(b, p)}: no end, tried again")
                o, rc, err = build.execute(b, p, data, args=("mt", "8", "2"), timeout=240)
            got = o.decode("ascii", "replace").split("\n")[:-1]
            if rc != 0:
                if rc in (97, 98):
                    raise ToolError(f"{label(b, p)}: {rc} {err[-300:]}")
                a = "crash timeout" if rc is None else f"crash signal{-rc}"
                got += [a] * (len(c.l) - len(got))
            got = got[:go] + got[go + 1:]
            for i, a in enumerate(threaded(got, label(b, p))):
                for x in a:
                    outcomes[i].setdefault(x, []).append(label(b, p))
            run.executions += 8 * rounds * (len(lines) - go)
            run.builds.append(label(b, p))
            log(f"{label(b, p)}: {rounds} rounds of {len(lines)} commands on 8 threads")
        bare_sharing(run, tlines, outcomes)
        for b, p in use:
            first_calls(run, b, p, lines, outcomes, cold)
        races(run, lines, outcomes, go, cold)
        sample(run, tlines, outcomes)
        fm.result()
        judge(run, tlines, outcomes, prefix=go)
    return run


def bare_sharing(run, lines, outcomes):
    """The builds without threads of their own say which of their types threads may share"""
    bs = [b for b in build.all_backends().values() if b.bare]
    build.build_all(bs)
    at = lines.index("shr")
    for b, p in usable(run, bs):
        a = build.run(b, p, ["reset", "shr"])[1]
        if a is not None:
            outcomes[at].setdefault(a, []).append(label(b, p))
            run.builds.append(label(b, p) + " (types only)")


def threaded(got, what):
    """what the threads saw, without the answers of those whose object was never made (build.found)"""
    l = [a.split("|") for a in got]
    if any("lost" in a for a in l) and not any(x.startswith(("panic", "crash", "stray")) for a in l for x in a):
        raise ToolError(f"{what}: object missing")
    return [[x for x in a if x != "lost"] for a in l]


def begin_together(lines, cold, r, first):
    """lines of one process whose threads start with the group numbered `first`"""
    at = [i for i in range(cold, len(lines)) if lines[i] == "reset"] + [len(lines)]
    l = []
    for g in [first] + r.sample(range(len(at) - 1), 2):
        l += range(at[g], at[g + 1])
    return l


def first_calls(run, b, p, lines, outcomes, cold):
    """Many processes whose threads make the first calls of the process at the same time: whatever is prepared on
    first use has one chance in each to be seen half prepared."""
    import random
    r = random.Random(f"{SEED}{label(b, p)}")
    n = (600 if p == "release" else 150) * (5 if THOROUGH else 1) // (8 if b.runner else 1)
    groups = sum(l == "reset" for l in lines[cold:])

    def one(k):
        idx = begin_together(lines, cold, r, k // 2 % 6 if k % 2 else k // 2 % groups)
        data = "go\n" + "\n".join(lines[i] for i in idx) + "\n"
        o, rc, err = build.execute(b, p, data.encode(), args=("cold", "4", str(r.randrange(2))), timeout=120)
        return idx, o.decode("ascii", "replace").split("\n")[1:-1], rc, err
    calls = 0
    with ThreadPoolExecutor(2) as ex:
        for idx, got, rc, err in ex.map(one, range(n)):
            if rc != 0:
                if rc in (97, 98):
                    raise ToolError(f"{label(b, p)}: {rc} {err[-300:]}")
                a = "crash timeout" if rc is None else f"crash signal{-rc}"
                got += [a] * (len(idx) - len(got))
            for i, a in zip(idx, threaded(got, label(b, p))):
                for x in a:
                    l = outcomes[i].setdefault(x, [])
                    if label(b, p) not in l:
                        l.append(label(b, p))
            calls += 4 * len(idx)
    run.executions += calls
    run.extra["processes_whose_first_calls_meet"] = run.extra.get("processes_whose_first_calls_meet", 0) + n
    log(f"{label(b, p)}: {n} processes whose first calls meet on 4 threads")


def races(run, lines, outcomes, go, cold):
    """Some of the same under Miri, which reports a data race whether or not it does harm in this schedule;
    every process has a schedule of its own."""
    import random
    groups = [i for i in range(go, len(lines)) if lines[i] == "reset"] + [len(lines)]

    def one(job):
        k, b = job
        r = random.Random(f"{SEED}{k}")
        pick = []
        b.env["MIRIFLAGS"] = f"-Zmiri-seed={SEED * 100 + k} -Zmiri-preemption-rate=0.05"
        if k >= 1000:
            pre, pick, args = [], begin_together(lines, cold, r, r.randrange(6)), ("cold", "3", str(k % 2))
        else:
            pre, args = range(go), ("mt", "3", "1")
            for g in sorted(r.sample(range(len(groups) - 1), 2)):
                pick += range(groups[g], groups[g + 1])
        data = [lines[i] for i in pre] + ["go"] + [lines[i] for i in pick]
        o, rc, err = build.execute(b, "miri", ("\n".join(data) + "\n").encode(), args=args, timeout=240)
        got = o.decode("ascii", "replace").split("\n")[:-1]
        return b, k, [*pre, None, *pick], got, rc, err
    jobs = []
    for k in [*range(6 if THOROUGH else 2), *range(125, 137 if THOROUGH else 128)]:
        for i, b in enumerate(build.miri_backends().values()):      # of its own: every job sets its environment
            if b.name != "m-rv32":                                  # for which Miri has no threads
                jobs.append((k * 16 + i, b))
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for b, k, idx, got, rc, err in ex.map(one, jobs):
            if rc in (96, 97, 98):
                raise ToolError(f"{b.name}: {err[-300:]}")
            if rc != 0 and "Undefined Behavior" not in err:
                run.note(f"{b.name}, schedule {k}: no answer under Miri: {'time' if rc is None else build.miri_message(err)}")
                continue
            if rc != 0:
                got += ["crash " + build.miri_message(err)] * (len(idx) - len(got))
            for i, a in zip(idx, threaded(got, b.name)):
                if i is not None:
                    for x in a:
                        outcomes[i].setdefault(x, []).append(b.name)
                    n += 1
            if b.name not in run.builds:
                run.builds.append(b.name)
    run.executions += 3 * n
    run.extra["calls_executed_under_miri"] = 3 * n
    log(f"under Miri: {len(jobs)} schedules, {n} commands on 3 threads")


from .leak import C17
from .select import C20
SPECIAL = {"C16": C16, "C17": C17, "C20": C20}


def evidence(run, wall):
    level = models.LEVEL.get(run.pid, "model_checking")
    if run.mass:
        run.extra["calls_screened_against_compiled_reference"] = run.mass
    cov = {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
           "samples": run.samples or ["none"], "events_validated": run.events, "library_calls_executed": run.executions,
           **run.extra, "builds": run.builds, "models": run.models, "notes": run.notes}
    e = {"property": run.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
         "coverage": cov, "assumptions": models.ASSUMPTIONS + run.assumptions, "wall_s": round(wall, 2),
         "violations": len(run.violations)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{run.pid}.json", "w") as f:
        json.dump(e, f, indent=1)


def known():
    """[(property, text)] of the findings that are recorded and not repaired"""
    l = []
    try:
        for s in open(HERE + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) (.*)", s)
            if m:
                l.append((m.group(1), m.group(2)))
    except OSError:
        pass
    return l


def decide(pid):
    run = Run(pid)
    try:
        SPECIAL.get(pid, standard)(run)
    except ToolError as e:
        log("error:", e)
        evidence(run, time.time() - T0)
        if run.violations:
            print(f"VIOLATION property={pid} replay={run.violations[0]}", flush=True)
            return 1
        return 2
    finally:
        build.kill_children()
    evidence(run, time.time() - T0)
    for p in run.violations[:8]:
        print(f"VIOLATION property={pid} replay={p}", flush=True)
    log(f"{pid}: {'VIOLATED' if run.violations else 'holds on everything explored'}")
    return 1 if run.violations else 0


def setup():
    bs = list(build.all_backends().values()) + build.checked_backends()

    def sysroots():
        for b in build.miri_backends().values():      # builds the sysroots Miri needs
            try:
                a = build.run(b, "miri", ["reset"], timeout=400)
                if a != ["ok -"]:
                    log(f"{b.name}: {a} {b.failed}")
            except ToolError as e:
                log(b.name, e)
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(sysroots)
        build.build_all(bs)
        select.make_all(select.configurations(border=True))
        f.result()
    for b in bs:
        for p, m in b.failed.items():
            log(f"{label(b, p)}: {m[-800:]}")
    log("set up")
    return 0


def replay(path):
    d = json.load(open(path))
    run = Run(d["property"])
    backends = list(build.all_backends().values()) + build.checked_backends()
    build.build_all(backends)
    use = usable(run, backends)
    lines = d["behaviour"]
    if d.get("prefix"):
        log("a behaviour of several threads: run the check itself again")
        return 2
    outcomes = execute(run, lines, use)
    judge(run, lines, outcomes)
    return 1 if run.violations else 0


def main(a):
    try:
        if a == ["setup"]:
            return setup()
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
        if len(a) == 1 and re.fullmatch(r"C\d\d", a[0]):
            return decide(a[0])
        print(__doc__)
        return 2
    except ToolError as e:
        log("error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
