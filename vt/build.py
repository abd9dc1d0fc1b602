"""The builds of the library that are executed, and how to make and run them."""
import fcntl, hashlib, os, re, shutil, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.environ.get("VT_BUILD", HERE + "/build")
HARNESS = HERE + "/harness"
QEMU_LD = "/usr/aarch64-linux-gnu"


class ToolError(Exception):
    pass


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":")[1].split())
    except OSError:
        pass
    return set()


CPU = cpu_flags()
LD = "-C linker=rust-lld -C linker-flavor=ld.lld -C relocation-model=static -C target-feature=+crt-static"
X86 = "x86_64-unknown-linux-gnu"


class Backend:
    def __init__(self, name, toolchain, target, flags, features, runner=(), bare=False, miri=False, env=None, what="",
                 emulated=False):
        self.emulated = emulated       # Miri: of the copy in which the AES instructions are written out
        self.name, self.toolchain, self.target, self.flags = name, toolchain, target, flags
        self.features, self.runner, self.bare, self.miri, self.env = features, list(runner), bare, miri, env or {}
        self.what = what
        self.dir = f"{BUILD}/{name}"
        self.bins = {}
        self.failed = {}

    def profiles(self):
        return ["bare"] if self.bare else ["miri"] if self.miri else ["release", "dev"]

    def cargo(self, profile, noconst=False):
        f = list(self.features) + ["noconst"] * noconst
        a = ["cargo", "+" + self.toolchain]
        if self.miri:
            a += ["miri", "run", "-q"]
        else:
            a += ["build", "-q", "--profile", profile]
        if self.bare:
            f.append("bare")
            a += ["-Zbuild-std=core,compiler_builtins", "-Zbuild-std-features=compiler-builtins-mem"]
        a += ["--offline", "--target", self.target]
        if f:
            a += ["--features", ",".join(f)]
        return a

    def environ(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
        e.update(HOME=os.environ.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                 CARGO_TARGET_DIR=self.dir, RUSTFLAGS=self.flags, CARGO_BUILD_JOBS="3")
        e["PATH"] = e["HOME"] + "/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
        if self.bare:
            e["RUSTC_BOOTSTRAP"] = "1"
            # core is compiled once for a target: only the library and the harness are given the features
            e["RUSTC_WRAPPER"] = HERE + "/vt/rustcw"
            e["RUSTFLAGS"] = LD if self.flags.startswith(LD) else ""
            e["VT_FLAGS"] = self.flags[len(e["RUSTFLAGS"]):]
        e["CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER"] = "aarch64-linux-gnu-gcc"
        if self.miri:
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-tree-borrows " + self.env.get("MIRIFLAGS", "")
        return e

    def binary(self, profile):
        d = {"dev": "debug"}.get(profile, profile)
        return f"{self.dir}/{self.target}/{d}/vharness"

    def pace(self, profile):
        """how many times slower than the fastest, roughly"""
        k = 20 if "constant-time" in self.features else 3 if not self.flags else 1
        return 20000 if self.miri else 300 * min(k, 3) if self.runner else k * (8 if profile == "dev" else 1)

    def command(self, profile, args=()):
        if self.miri:
            return self.cargo(profile) + (["--"] + list(args) if args else [])
        return self.runner + [self.binary(profile)] + list(args)


def native(need, qemu="qemu-x86_64"):
    return [] if need <= CPU else [qemu, "-cpu", "max"]


def all_backends():
    ni = "-C target-feature=+sse4.1,+aes"
    va = "-C target-feature=+sse4.1,+aes,+avx2,+vaes"
    a5 = "-C target-feature=+sse4.1,+aes,+avx2,+vaes,+avx512f"
    l = [
        Backend("sw", "1.99.1", X86, "", [], what="table-based software, x86-64"),
        Backend("ct", "1.99.1", X86, "", ["constant-time"], what="constant-time software, x86-64"),
        Backend("ni", "1.99.1", X86, ni, [], native({"aes", "sse4_1"}), what="AES-NI"),
        Backend("va", "nightly", X86, va, ["nightly"], native({"aes", "avx2", "vaes"}), what="AES-NI with VAES pairs"),
        Backend("ne", "1.99.1", "aarch64-unknown-linux-gnu", "-C target-feature=+aes", [],
                ["qemu-aarch64", "-L", QEMU_LD], what="ARMv8 AES, aarch64 (qemu)"),
    ]
    if {"aes", "avx2", "vaes", "avx512f"} <= CPU:
        l.append(Backend("a5", "nightly", X86, a5, ["nightly"], what="AES-NI with VAES and AVX-512"))
    b = lambda n, t, f, feat, q, what: Backend(n, "stable", t, f, feat, q, bare=True, what=what)
    l += [
        b("v8", "armv7-unknown-linux-gnueabihf", LD + " -C target-feature=+v8,+aes", ["nightly"],
          ["qemu-arm", "-cpu", "max"], "ARMv8 AES, 32-bit (qemu)"),
        b("rv64", "riscv64gc-unknown-none-elf", "-C target-feature=+zkne,+zknd", ["nightly"],
          ["qemu-riscv64", "-cpu", "max"], "RISC-V 64 scalar crypto (qemu)"),
        b("rv32", "riscv32imac-unknown-none-elf", "-C target-feature=+zkne,+zknd", ["nightly"],
          ["qemu-riscv32", "-cpu", "max"], "RISC-V 32 scalar crypto (qemu)"),
        b("besw", "s390x-unknown-linux-gnu", LD, [], ["qemu-s390x"], "table-based software, big-endian s390x (qemu)"),
        b("bect", "s390x-unknown-linux-gnu", LD, ["constant-time"], ["qemu-s390x"],
          "constant-time software, big-endian s390x (qemu)"),
        b("bea64", "aarch64_be-unknown-linux-gnu", LD + " -C target-feature=+aes", [], ["qemu-aarch64_be"],
          "big-endian aarch64 (qemu)"),
        b("x86ni", "i686-unknown-linux-gnu", LD + " -C target-feature=+sse4.1,+aes", [], ["qemu-i386", "-cpu", "max"],
          "AES-NI, 32-bit x86 (qemu)"),
        b("x86ct", "i686-unknown-linux-gnu", LD, ["constant-time"], ["qemu-i386", "-cpu", "max"],
          "constant-time software, 32-bit x86 (qemu)"),
    ]
    return {x.name: x for x in l}


def checked_backends():
    """the builds without an operating system once more, with the assertions and overflow checks of a debug build"""
    a = all_backends()
    l = []
    for n in ("v8", "rv64", "rv32", "besw", "bect"):
        b = a[n]
        l.append(Backend(n + "d", b.toolchain, b.target, b.flags + " -C debug-assertions=on -C overflow-checks=on", b.features,
                         b.runner, bare=True, what=b.what + ", with debug assertions"))
    return l


def miri_backends():
    m = lambda n, t, f, feat, what, **env: Backend(n, "nightly", t, f, feat, miri=True, what=what, env=env)
    va = "-C target-feature=+sse4.1,+aes,+avx2,+vaes"
    l = [
        m("m-sw", X86, "", [], "table-based software under Miri"),
        m("m-ct", X86, "", ["constant-time"], "constant-time software under Miri"),
        m("m-ni", X86, "-C target-feature=+sse4.1,+aes", [], "AES-NI under Miri"),
        m("m-va", X86, va, ["nightly"], "VAES under Miri"),
        m("m-a5", X86, va + ",+avx512f", ["nightly"], "VAES and AVX-512 under Miri"),
        m("m-be", "s390x-unknown-linux-gnu", "", [], "table-based software, big-endian, under Miri"),
        m("m-bect", "s390x-unknown-linux-gnu", "", ["constant-time"], "constant-time software, big-endian, under Miri"),
        m("m-32", "i686-unknown-linux-gnu", "-C target-feature=+sse4.1,+aes", [], "AES-NI, 32-bit, under Miri"),
    ]
    zk = "-C target-feature=+zkne,+zknd"
    for n, t, f, what in (("m-ne", "aarch64-unknown-linux-gnu", "-C target-feature=+aes", "ARMv8 AES, aarch64"),
                          ("m-v8", "armv7-unknown-linux-gnueabihf", "-C target-feature=+v8,+aes", "ARMv8 AES, 32-bit"),
                          ("m-rv64", "riscv64gc-unknown-linux-gnu", zk, "RISC-V 64 scalar crypto"),
                          ("m-rv32", "riscv32gc-unknown-linux-gnu", zk, "RISC-V 32 scalar crypto")):
        l.append(m(n, t, f, ["nightly"] if n != "m-ne" else [], what + ", instructions emulated, under Miri"))
        l[-1].emulated = True
    return {x.name: x for x in l}


def with_core(b):
    """Gives a bare build its own copy of the target's core (large files are shared)"""
    if os.path.exists(b.dir + "/.core"):
        return
    core = f"{BUILD}/core-{b.target}" + ("-nightly" if b.toolchain == "nightly" else "")
    os.makedirs(core, exist_ok=True)
    with open(core + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(core + "/.core"):
            c = Backend("core", b.toolchain, b.target, LD if b.flags.startswith(LD) else "", [], bare=True)
            c.dir = core
            compile(c, "bare")
            open(core + "/.core", "w").close()

    def link(s, d):
        if os.path.basename(s) in (".cargo-lock", ".rustc_info.json", "vharness", "bare.lock"):
            return
        os.link(s, d) if os.path.getsize(s) > 1 << 20 else shutil.copy2(s, d)
    shutil.copytree(core, b.dir, copy_function=link, dirs_exist_ok=True)


def content_hash(b):
    h = hashlib.sha256()
    files = [HERE + "/vt/emul.rs", HERE + "/vt/build.py"] if b is None or b.emulated else []
    files += [REPO + "/Cargo.toml", REPO + "/README.md", HARNESS + "/Cargo.toml", HARNESS + "/Cargo.lock"]
    for top in (REPO + "/src", HARNESS + "/src"):
        for d, _, fs in sorted(os.walk(top)):
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        try:
            data = open(f, "rb").read()
        except OSError:
            data = b"?"
        h.update(f.encode() + b"\0" + data + b"\0")
    if b:
        h.update(repr((b.toolchain, b.target, b.flags, b.features, b.bare)).encode())
    return h.hexdigest()


def compile(b, profile, noconst=False):
    """Compiles the library and the harness anew; returns "" or the compiler's messages."""
    if b.bare and b.name != "core":
        with_core(b)
    forget(f"{b.dir}/{b.target}/{ {'dev': 'debug'}.get(profile, profile) }")
    try:
        r = subprocess.run(b.cargo(profile, noconst), cwd=HARNESS, env=b.environ(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"building {b.name} timed out")
    if r.returncode != 0 and not noconst and re.search(r"could not compile `vharness`", r.stdout):
        # perhaps for the constants only, whose commands then report it
        return "" if compile(b, profile, True) == "" else r.stdout
    if r.returncode != 0:
        return r.stdout or "build failed"
    return ""


def forget(d):
    """the crates whose sources may have changed"""
    for sub in (".fingerprint", "deps"):
        p = f"{d}/{sub}"
        if os.path.isdir(p):
            for n in os.listdir(p):
                if re.match(r"(lib)?(aes_crypto|vharness)\b|aes_crypto-|vharness-", n):
                    q = f"{p}/{n}"
                    shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)


def build(b, profile):
    """Builds one backend; returns "" or the compiler's messages. Never trusts time stamps."""
    os.makedirs(b.dir, exist_ok=True)
    with open(f"{b.dir}/.lock.{profile}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, want = f"{b.dir}/.stamp.{profile}", content_hash(b)
        try:
            if open(stamp).read() == want and os.path.exists(b.binary(profile)):
                return ""
        except OSError:
            pass
        if os.path.exists(stamp):
            os.unlink(stamp)
        msg = compile(b, profile)
        if msg:
            return msg
        with open(stamp, "w") as f:
            f.write(want)
        return ""


def build_all(backends, profiles=None, jobs=8):
    """Builds in parallel; fills .bins and .failed of each backend"""
    todo = [(b, p) for b in backends for p in b.profiles() if not b.miri and (profiles is None or p in profiles or b.bare)]

    def one(bp):
        b, p = bp
        msg = build(b, p)
        (b.failed if msg else b.bins).__setitem__(p, msg or b.binary(p))

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))


EMUL = BUILD + "/emul"


def emulate():
    """A copy of the library and the harness for Miri, which has no AES instructions of ARM and RISC-V: the names by
    which the library asks for them are bound to vt/emul.rs. Nothing else is changed."""
    for src, dst in ((REPO, EMUL + "/aes"), (HARNESS, EMUL + "/harness")):
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for f in ("Cargo.toml", "Cargo.lock", "README.md"):
            if os.path.exists(f"{src}/{f}"):
                shutil.copyfile(f"{src}/{f}", f"{dst}/{f}")
        shutil.copytree(src + "/src", dst + "/src", copy_function=shutil.copyfile)
    with open(EMUL + "/harness/Cargo.toml", "r+") as f:
        t = f.read().replace(f'"{REPO}"', '"../aes"')
        f.seek(0)
        f.truncate()
        f.write(t)
    for d, _, fs in os.walk(EMUL + "/aes/src"):
        for n in fs:
            if n.endswith(".rs"):
                with open(f"{d}/{n}", "r+", errors="surrogateescape") as f:
                    t = f.read()
                    u = re.sub(r'"llvm\.riscv\.(?=aes)', '"emul.riscv.', t)
                    u = re.sub(r"\b(core|std)::arch::(aarch64|arm)\b", "crate::emul::arm", u)
                    if d == EMUL + "/aes/src" and n == "lib.rs":
                        u += "\nmod emul;\n"
                    f.seek(0)
                    f.truncate()
                    f.write(u)
    shutil.copyfile(HERE + "/vt/emul.rs", EMUL + "/aes/src/emul.rs")


_prepared = set()


def prepare(b):
    """Miri builds as it runs: makes sure that it does not take an older build for the present one"""
    if b.name in _prepared:
        return
    os.makedirs(b.dir, exist_ok=True)
    os.makedirs(EMUL, exist_ok=True)
    for name in ([EMUL] if b.emulated else []) + [b.dir]:
        with open(f"{name}/.lock.miri", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            stamp, want = name + "/.stamp.miri", content_hash(b if name == b.dir else None)
            try:
                if open(stamp).read() == want:
                    continue
            except OSError:
                pass
            emulate() if name == EMUL else forget(f"{b.dir}/miri/{b.target}/debug")
            with open(stamp, "w") as f:
                f.write(want)
    _prepared.add(b.name)


_children = set()
_clock = threading.Lock()


def _start(cmd, env, cwd):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True)
    with _clock:
        _children.add(p)
    return p


def execute(b, profile, data, args=(), timeout=120, flush=False):
    """One process; returns (lines answered, return code or None on timeout, stderr)"""
    env = b.environ() if b.miri else dict(os.environ)
    if flush:
        env["VH_FLUSH"] = "1"
    if b.miri:
        prepare(b)
    p = _start(b.command(profile, args), env, EMUL + "/harness" if b.emulated else HARNESS)
    try:
        o, e = p.communicate(data, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = None
    finally:
        with _clock:
            _children.discard(p)
    return o, rc, e.decode("utf-8", "replace")


def run(b, profile, lines, timeout=120, max_restarts=3000, enough=150):
    """Executes command lines; answers one string per line (None: not executed).
    After calls that did not return, it goes on only for so many seconds"""
    began = time.time()
    k = b.pace(profile)
    lines = [re.sub(r"^(many|rep \d+) (\d+)", lambda m: f"{m[1]} {max(2, int(m[2]) // k)}", l) if l[0] in "mr" else l for l in lines]
    ans = [None] * len(lines)
    start = 0          # first line of the next process
    skip = set()       # lines that end the process, already answered
    if b.bare or b.miri or "64" not in b.target:
        skip = {i for i, l in enumerate(lines) if l.startswith("bs") and int(l.split()[2]) > (1 << 20 if not b.miri else 4096)}
    if b.bare or b.miri or b.runner:
        size = lambda l: 16 * int(l.split()[1]) * int(l.rsplit(" ", 1)[1])
        skip |= {i for i, l in enumerate(lines) if l.startswith("chainp") and size(l) > (1 << 20) + 4096 >> 8 * bool(b.miri)}
    restarts = 0
    flush = False
    CH = 3000 if b.bare else 10**9
    while start < len(lines):
        end = min(len(lines), start + CH)
        while end < len(lines) and lines[end] != "reset":
            end += 1
        idx = [i for i in range(start, end) if i not in skip]
        if not idx:
            start = end
            continue
        o, rc, err = execute(b, profile, ("\n".join(lines[i] for i in idx) + "\n").encode(), timeout=timeout, flush=flush)
        got = o.decode("ascii", "replace").split("\n")[:-1]
        if rc in (96, 97, 98):
            raise ToolError(f"harness {b.name}/{profile}: {err.strip()[-300:]} near {lines[idx[min(len(got), len(idx) - 1)]][:200]}")
        for i, a in zip(idx, got):
            if ans[i] is None:
                ans[i] = a
        if rc == 0 and len(got) == len(idx):
            start = end
            continue
        if len(got) > len(idx):
            raise ToolError(f"harness {b.name}/{profile}: too many answers")
        if b.miri and not ("Undefined Behavior" in err or "abnormal termination" in err):
            if len(got) < len(idx):
                b.failed["miri"] = "time" if rc is None else miri_message(err)
            break            # Miri cannot execute this (or not in time): no answer
        if rc == 0:
            raise ToolError(f"harness {b.name}/{profile}: answers missing")
        if not flush and not b.bare and not b.miri:
            flush = True     # run again to see where exactly it stopped
            continue
        if rc is None and len(got) < len(idx) and not b.miri:
            at = max((i for i in range(start, idx[len(got)] + 1) if lines[i] == "reset"), default=start)
            if at > start:
                start = at       # slow, perhaps: as much time again, from the behaviour it was in
                continue
        if b.bare and rc == 101:
            at = idx[len(got) - 1]
            while got[-1] == "lost" and at + 1 < len(lines) and lines[at + 1] != "reset":
                skip.add(at)
                at += 1
        elif len(got) < len(idx):
            at = idx[len(got)]
            ans[at] = "crash " + (miri_message(err) if b.miri else "timeout" if rc is None else f"signal{-rc}" if rc < 0 else f"exit{rc}")
        else:
            break            # everything was answered; died afterwards
        skip.add(at)
        restarts += 1
        if restarts > max_restarts or time.time() - began > enough or (b.miri and restarts > 2) or (rc is None and restarts > 3):
            break
        # again from the start of its behaviour
        start = at
        while start > 0 and lines[start] != "reset":
            start -= 1
    return found(lines, ans, f"{b.name}/{profile}")


def found(lines, ans, what):
    """`lost`, the answer where an object does not exist, is none; it follows only from a call that did not return"""
    broken = False
    for i, a in enumerate(ans):
        if lines[i] == "reset":
            broken = False
        elif a and a.startswith(("panic", "crash", "stray")):
            broken = True
        elif a == "lost":
            if not broken:
                raise ToolError(f"harness {what}: no object for {lines[i][:200]}")
            ans[i] = None
    return ans


def miri_message(err):
    m = re.search(r"error: (.*)", err)
    return re.sub(r"\s+", "_", m.group(1))[:160] if m else "miri"


def kill_children():
    with _clock:
        for p in list(_children):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
