"""Every configuration of AesSelect, really built; what is seen of it, judged by TLC (AesBuilt)."""
import fcntl, json, os, re, shutil, tempfile, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import multiprocessing
from . import build, step
from .build import BUILD, CPU, LD, QEMU_LD, X86, Backend, ToolError, native
from .tlc import tlc

TARGET = {"x86_64": X86, "i686": "i686-unknown-linux-gnu", "aarch64": "aarch64-unknown-linux-gnu",
          "aarch64_be": "aarch64_be-unknown-linux-gnu", "armv7": "armv7-unknown-linux-gnueabihf",
          "riscv64": "riscv64gc-unknown-none-elf", "riscv32": "riscv32imac-unknown-none-elf",
          "s390x": "s390x-unknown-linux-gnu"}
QEMU = {"i686": ["qemu-i386", "-cpu", "max"], "aarch64": ["qemu-aarch64", "-L", QEMU_LD], "aarch64_be": ["qemu-aarch64_be"],
        "armv7": ["qemu-arm", "-cpu", "max"], "riscv64": ["qemu-riscv64", "-cpu", "max"],
        "riscv32": ["qemu-riscv32", "-cpu", "max"], "s390x": ["qemu-s390x"]}
NEEDS = {"sse4.1": "sse4_1", "aes": "aes", "vaes": "vaes", "avx512f": "avx512f"}
OPS = {"enc1": 1, "dec1": 1, "enc_last1": 1, "dec_last1": 1, "enc2": 2, "dec2": 2, "enc_last2": 2, "dec_last2": 2,
       "enc4": 4, "dec4": 4, "enc_last4": 4, "dec_last4": 4}


class Config(Backend):
    def __init__(self, c):
        self.c = c
        arch, asked = c["arch"], sorted(c["asked"])
        # there is no compiled std of AArch64 for the nightly compiler
        hosted = arch == "x86_64" or arch == "aarch64" and not c["nightly"]
        flags = "-C target-feature=" + ",".join("+" + f for f in asked) if asked else ""
        if not hosted and not arch.startswith("riscv"):
            flags = (LD + " " + flags).strip()
        feats = (["nightly"] if c["nightly"] else []) + (["constant-time"] if c["ct"] else [])
        tool = "nightly" if c["nightly"] else "1.99.1" if hosted else "stable"
        self.possible = True
        if arch == "x86_64":
            need = {NEEDS[f] for f in asked} | ({"avx2"} if {"vaes", "avx512f"} & set(asked) else set())
            runner = native(need)
            self.possible = not runner or "avx512f" not in asked
        else:
            runner = QEMU[arch]
            self.possible = "avx512f" not in asked      # qemu has no AVX-512
        name = "-".join(["q", arch] + [f.replace(".", "") for f in asked] + [f[0] for f in feats])
        super().__init__(name, tool, TARGET[arch], flags, feats, runner, bare=not hosted, what=name)
        self.dir = "-".join([f"{BUILD}/q", arch] + asked + ([tool] if arch == "x86_64" or c["nightly"] else []))
        self.profile = "release" if hosted else "bare"
        self.messages = None

    def profiles(self):
        return [self.profile]

    def binary(self, profile):
        return f"{self.dir}/bin-{''.join(f[0] for f in self.features)}"

    def __getstate__(self):
        return {**self.__dict__, "failed": {}}

    def make(self):
        """"" or what the compiler said. The caller sees to it that a directory is used by one at a time."""
        os.makedirs(self.dir, exist_ok=True)
        with open(f"{self.dir}/.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            out, stamp = self.binary(self.profile), self.binary(self.profile) + ".stamp"
            want = build.content_hash(self)
            try:
                if open(stamp).read() == want and os.path.exists(out):
                    self.bins[self.profile] = out
                    return ""
            except OSError:
                pass
            self_bin = f"{self.dir}/{self.target}/{self.profile}/vharness"
            msg = build.compile(self, self.profile)
            if msg:
                self.failed[self.profile] = msg
                return msg
            shutil.copy2(self_bin, out)
            with open(stamp, "w") as f:
                f.write(want)
            self.bins[self.profile] = out
            return ""


def configurations(border=False):
    """all of AesSelect's, or only those from where one thing more or less selects something else"""
    fd, path = tempfile.mkstemp(prefix="cf", dir=BUILD)
    os.close(fd)
    try:
        r = tlc("AesSelectList", env={"OUT": path})
        if not r.ok():
            raise ToolError("AesSelectList: " + r.out[-600:])
        l = [json.loads(x) for x in open(path)]
    finally:
        os.unlink(path)
    return sorted((Config(c) for c in l if c["border"] or not border), key=lambda b: b.name)


def facts(arch, base, vector, nightly, ct):
    f = {(arch, base, vector), (base, vector, nightly, ct), (arch, nightly), (arch, ct)}
    return f | {(arch, base, nightly, ct)} if arch == "x86_64" else f


def unlike(backends):
    """Executable configurations that differ from the given builds in what is combined: every implementation on every
    architecture, with and without each feature, which select nothing else there"""
    l = [(b, facts(*(b.c[k] for k in ("arch", "base", "vector", "nightly", "ct")))) for b in configurations(border=True) if b.possible]
    left = set().union(*(f for _, f in l))
    for b in backends:
        n, c = "nightly" in b.features, "constant-time" in b.features
        base = {"ni": "aesni", "va": "aesni", "a5": "aesni", "x86ni": "aesni", "ne": "neon", "v8": "neon", "rv64": "rv",
                "rv32": "rv"}.get(b.name, "constant-time" if c else "software")
        vector = 0 if base in ("software", "constant-time") else {"va": 256, "a5": 512, "rv64": 64, "rv32": 32}.get(b.name, 128)
        arch = re.match(r"[^-]*", b.target)[0]
        left -= facts({"riscv64gc": "riscv64", "riscv32imac": "riscv32"}.get(arch, arch), base, vector, n, c)
    chosen = []
    while left:
        b, f = max(l, key=lambda x: len(x[1] & left))
        left -= f
        chosen.append(b)
    return chosen


def make_all(l, jobs=8):
    groups = {}
    for b in l:
        groups.setdefault(b.dir, []).append(b)
    order = sorted(groups.values(), key=lambda g: (not g[0].bare, -len(g)))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda g: [b.make() for b in g], order))


def look(a):
    """in a process of its own"""
    b, ls, deadline = a
    aes = []
    try:
        seen, steps = step.watch(b, b.profile, ls, deadline, aes, strict=b.c["silent"])
        return seen, aes, steps, ""
    except (ToolError, OSError) as e:
        return [], [], 0, repr(e)


def event(b, **kw):
    return {**{k: b.c[k] for k in ("arch", "asked", "nightly", "ct")}, **kw}


def observe(run, configs, pats, budget, ops=tuple(OPS) + ("control_table",)):
    """Watches operations of each configuration; returns events for AesBuilt, and for each the build and an explanation"""
    ev, info = [], []
    for b in configs:
        if b.profile in b.failed:
            m = b.failed[b.profile]
            if theirs(m):
                ev.append(event(b, k="build", ok=False))
                info.append((b, m[-1500:]))
            else:
                run.note(f"{b.name} could not be built: {m[-300:]}")
        else:
            ev.append(event(b, k="build", ok=True))
            info.append((b, ""))
    deadline = time.time() + budget
    todo = []
    for b in configs:
        if b.profile not in b.bins:
            continue
        if not b.possible:      # not executable here: all AES instructions there are
            ws = {step.aes_width(t) for t in step.Code(b.bins[b.profile], b.target).text.values()} - {None}
            ev.append(event(b, k="has", isa=sorted(ws)))
            info.append((b, f"has AES instructions of widths {sorted(ws)}"))
            continue
        todo.append((b, [f"leak {o} 0 {p.hex()}" for o in ops for p in pats], deadline))
    slow = {"riscv32": 5, "riscv64": 4, "armv7": 4, "i686": 4, "s390x": 3}
    todo.sort(key=lambda t: -slow.get(t[0].c["arch"], 1) - (t[0].c["base"] == "constant-time") * 10)
    total = 0
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork")) as ex:
        for (b, ls, _), (seen, aes, steps, err) in zip(todo, ex.map(look, todo)):
            if err:
                run.note(f"{b.name}: not watched: {err}")
                continue
            if len(seen) < len(ls):
                run.note(f"{b.name}: {len(ls) - len(seen)} of {len(ls)} runs not watched for lack of time")
            total += steps
            run.executions += len(seen)
            if seen:
                run.builds.append(b.name)
            by = {}
            for l, (dig, _, where), (ws, blind) in zip(ls, seen, aes):
                _, f, _, h = l.split()
                d = by.setdefault(f, [set(), set(), None, [], False])
                d[0].update(ws)
                d[1].add(dig)
                d[2] = d[2] or where
                d[3].append(h[:64])
                d[4] |= blind
            for f, (ws, digs, where, ds, blind) in by.items():
                if f.startswith("control"):
                    if len(ds) == len(pats) and len(digs) < 2:
                        raise ToolError(f"{b.name}: watching is blind")
                    continue
                if f in OPS:
                    ev.append(event(b, k="run", blocks=OPS[f], op=f, isa=sorted(ws)))
                    info.append((b, f"{f} executed AES instructions of widths {sorted(ws)}"))
                if len(digs) == 1 and (blind or len(ds) < len(pats)):
                    continue
                ev.append(event(b, k="watch", op=f, same=len(digs) == 1))
                info.append((b, f"{f}: {where or 'nothing depends on the secret'}"))
    run.extra["instructions_and_addresses_observed"] = run.extra.get("instructions_and_addresses_observed", 0) + total
    return ev, info


def theirs(msg):
    """the compiler rejects the library itself, not what surrounds it"""
    return bool(re.search(r"^error", msg, re.M) and re.search(r"could not compile `aes_crypto`", msg))


def lacking(msg):
    """the library compiles, but some public operation that it has elsewhere is not there or is another"""
    return bool(re.search(r"^error\[E", msg, re.M) and re.search(r"could not compile `vharness`", msg))


def judge(run, ev):
    """indexes of the events that AesSelect does not allow"""
    fd, path = tempfile.mkstemp(prefix="bt", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        for e in ev:
            f.write(json.dumps(e) + "\n")
    try:
        r = tlc("AesBuilt", env={"TRACE": path}, timeout=600)
    finally:
        os.unlink(path)
    if not r.ok() or r.depth - 1 != len(ev):
        raise ToolError("TLC: " + r.out[-800:])
    run.states += r.distinct
    run.transitions += r.generated - 1
    run.events += len(ev)
    return [int(x) - 1 for x in re.findall(r'<<"DIFFERS", (\d+)>>', r.out)]


def C20(run):
    from . import leak, main, models
    with ThreadPoolExecutor(1) as ex:
        fm = ex.submit(models.check, run, run.pid, main.THOROUGH)
        l = configurations(border=not main.THOROUGH)
        make_all(l)
        main.log(f"{len(l)} configurations, {sum(b.profile in b.bins for b in l)} built")
        fm.result()
    ev, info = observe(run, l, leak.patterns(main.SEED, 3 if main.THOROUGH else 2)[-2:], 800 if main.THOROUGH else 300)
    main.log(f"{len(ev)} observations")
    bad = judge(run, ev)
    run.traces += len({b.name for b, _ in info})
    import random
    for i in sorted(random.Random(main.SEED).sample(range(len(ev)), 6)):
        run.samples.append(ev[i])
    if not any(e["k"] == "run" for e in ev):
        raise ToolError("no configuration could be watched")
    os.makedirs(BUILD + "/replay", exist_ok=True)
    per = {}
    for i in bad:
        per.setdefault(info[i][0].name, []).append(i)
    for n, (name, ix) in enumerate(per.items()):
        path = f"{BUILD}/replay/C20-{n}.json"
        b = info[ix[0]][0]
        with open(path, "w") as f:
            json.dump({"property": "C20", "configuration": b.c, "toolchain": b.toolchain, "flags": b.flags,
                       "seen": [{"event": ev[i], "text": info[i][1]} for i in ix]}, f, indent=1)
        run.violations.append(path)
        if n < 6:
            main.log(f"MISMATCH {name}: specified {b.c['base']} (widest {b.c['vector']}); " + "; ".join(info[i][1] for i in ix[:3])[:400])
    main.log(f"{len(per)} configurations differ")
    return run
