"""Watches single operations of the real code: the address of every instruction executed and the registers that form the
address of every memory access. Native processes are single-stepped with ptrace (a child of ours), others through the
debugger interface of qemu's user emulation."""
import ctypes, hashlib, os, re, signal, socket, struct, subprocess, time
from .build import ToolError, HARNESS, BUILD

# ---- what an instruction shows through its operands ---------------------------------------------
OBJDUMP = "llvm-objdump"


def arch_of(target):
    a = target.split("-")[0]
    return {"x86_64": "x64", "i686": "x86", "aarch64": "a64", "aarch64_be": "a64", "armv7": "arm", "riscv64gc": "rv",
            "riscv32imac": "rv", "s390x": "s390"}[a]


X64 = "rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15 rip".split()
X86 = "eax ecx edx ebx esp ebp esi edi eip".split()
A64 = ["x%d" % i for i in range(31)] + ["sp", "pc"]
ARM = ["r%d" % i for i in range(13)] + ["sp", "lr", "pc"]
RV = ("zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6 pc").split()
S390 = ["pswm", "pc"] + ["r%d" % i for i in range(16)]


def _x64name(r):
    m = {"eax": "rax", "ebx": "rbx", "ecx": "rcx", "edx": "rdx", "esi": "rsi", "edi": "rdi", "ebp": "rbp", "esp": "rsp"}
    if re.fullmatch(r"r\d+d", r):
        return r[:-1]
    return m.get(r, r)


def decode(arch, mnem, ops):
    """names of the registers that form addresses"""
    rs = []
    if arch in ("x64", "x86"):
        if mnem.startswith(("lea", "nop", "prefetch", "endbr")):
            return rs
        for m in re.finditer(r"\(([^)]*)\)", ops):
            for r in re.findall(r"%(\w+)", m[1]):
                if r in ("rip", "eip", "eiz", "riz"):
                    continue
                rs.append(_x64name(r) if arch == "x64" else r)
        sp = "rsp" if arch == "x64" else "esp"
        if re.match(r"(push|pop|call|ret|leave|enter)", mnem):
            rs.append(sp)
        if re.match(r"(rep|movs[bwlq]$|stos|lods|cmps|scas)", mnem):
            p = "r" if arch == "x64" else "e"
            rs += [p + "si", p + "di", p + "cx"]
    elif arch == "a64":
        m = re.search(r"\[([^\]]*)\]", ops)
        if m and not re.match(r"(mov|ins|umov|dup|fmov|smov|fmla|mul)", mnem):
            for r in re.findall(r"\b([xw]\d+|sp)\b", m[1]):
                rs.append("x" + r[1:] if r[0] in "xw" else r)
    elif arch == "arm":
        m = re.search(r"\[([^\]]*)\]", ops)
        al = {"r13": "sp", "r14": "lr", "r15": "pc", "sb": "r9", "sl": "r10", "fp": "r11", "ip": "r12"}
        if m and not mnem.startswith(("vmov", "vdup", "vmul", "vmla")):
            rs += re.findall(r"\b(r\d+|sp|lr|pc|sb|sl|fp|ip)\b", m[1])
        elif mnem.startswith(("ldm", "stm", "vldm", "vstm", "vld", "vst")):
            rs += re.findall(r"\b(r\d+|sp|lr|pc|sb|sl|fp|ip)\b", ops)[:1]
        elif mnem.startswith(("push", "pop", "vpush", "vpop")):
            rs.append("sp")
        rs = [al.get(r, r) for r in rs]
    elif arch == "rv":
        m = re.search(r"\((\w+)\)", ops)
        if m and not mnem.startswith(("jalr", "jr")):
            rs.append("s0" if m[1] == "fp" else m[1])
        elif m:
            rs.append(m[1])
    elif arch == "s390":
        if re.match(r"(la|lay|larl|s[lr][al]|sll|srl|rll)", mnem):
            return rs
        for m in re.finditer(r"\(([^)]*)\)", ops):
            rs += re.findall(r"%(r\d+)", m[1])
    return rs


class Code:
    """Which registers to look at, by instruction address"""
    def __init__(self, path, target):
        self.arch = arch_of(target)
        r = subprocess.run([OBJDUMP, "-d", "--no-show-raw-insn", "--mattr=+all" if self.arch == "rv" else "--mcpu=z15" if self.arch == "s390" else "--no-leading-addr=0"][:3] + [path],
                           capture_output=True, text=True) if self.arch in ("rv", "s390") else \
            subprocess.run([OBJDUMP, "-d", "--no-show-raw-insn", path], capture_output=True, text=True)
        if r.returncode != 0 or not r.stdout:
            raise ToolError(f"{OBJDUMP}: {r.stderr[-300:]}")
        self.regs = {}
        self.gathers = set()
        self.text = {}
        self.syms = {}
        names = {"x64": X64, "x86": X86, "a64": A64, "arm": ARM, "rv": RV, "s390": S390}[self.arch]
        self.names = names
        index = {n: i for i, n in enumerate(names)}
        fn = "?"
        for l in r.stdout.split("\n"):
            m = re.match(r"([0-9a-f]+) <(.*)>:$", l)
            if m:
                fn = m[2]
                self.syms.setdefault(fn, int(m[1], 16))
                continue
            m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*)$", l)
            if m:
                pc, mn, ops = int(m[1], 16), m[2], m[3].split("#" if self.arch in ("x64", "x86") else "<")[0]
                if mn in ("rep", "lock", "repne", "repe"):
                    ops = mn + " " + ops
                    mn = "rep"
                try:
                    rs = tuple(index[x] for x in decode(self.arch, mn, ops))
                except KeyError as e:
                    if not re.match(r"'[xyz]mm", str(e)):
                        raise ToolError(f"unknown register {e} in {l}")
                    rs = ()
                    self.gathers.add(pc)
                self.regs[pc] = rs
                self.text[pc] = f"{fn}: {mn} {m[3]}"
        for s in ("leak_run", "leak_end"):
            if s not in self.syms:
                raise ToolError(f"{path}: no symbol {s}")
        self.pc = index[{"x64": "rip", "x86": "eip"}.get(self.arch, "pc")]


# ---- stepping ------------------------------------------------------------------------------------
class Rsp:
    def __init__(self, b, profile, code, data):
        self.code = code
        self.path = f"{BUILD}/gdb.{os.getpid()}.{b.name}.{profile}"
        if os.path.exists(self.path):
            os.unlink(self.path)
        cmd = b.runner[:1] + ["-g", self.path] + b.runner[1:] + [b.binary(profile)]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  start_new_session=True)
        os.set_blocking(self.p.stdin.fileno(), False)
        self.data = data
        self.s = socket.socket(socket.AF_UNIX)
        for _ in range(200):
            try:
                self.s.connect(self.path)
                break
            except OSError:
                time.sleep(0.02)
        else:
            raise ToolError("qemu's debugger interface does not answer")
        self.s.settimeout(30)
        self.buf = b""
        self.ack = True
        self.ack = self.cmd(b"QStartNoAckMode") != b"OK"
        self.w = 8 if code.arch in ("x64", "a64", "s390") or (code.arch == "rv" and "64" in b.target.split("-")[0]) else 4
        self.fmt = (">" if code.arch == "s390" or "_be" in b.target else "<") + ("Q" if self.w == 8 else "I") * len(code.names)
        self.bias = 0
        o = self.cmd(b"qOffsets").decode()
        m = re.match(r"Text=([0-9a-f]+)", o)
        if m:
            self.bias = int(m[1], 16)
        # static executables are where they were linked to
        if subprocess.run(["readelf", "-h", b.binary(profile)], capture_output=True, text=True).stdout.find("EXEC (") >= 0:
            self.bias = 0

    def feed(self):
        while self.data:
            try:
                n = os.write(self.p.stdin.fileno(), self.data[:65536])
            except BlockingIOError:
                return
            self.data = self.data[n:]
        if not self.p.stdin.closed:
            self.p.stdin.close()

    def send(self, c):
        self.s.sendall(b"$" + c + b"#%02x" % (sum(c) & 255))

    def recv(self):
        while True:
            i = self.buf.find(b"$")
            j = self.buf.find(b"#", i)
            if i >= 0 and j >= 0 and len(self.buf) >= j + 3:
                r = self.buf[i + 1:j]
                self.buf = self.buf[j + 3:]
                if self.ack:
                    self.s.sendall(b"+")
                return r
            d = self.s.recv(65536)
            if not d:
                raise ToolError("qemu went away")
            self.buf += d

    def cmd(self, c):
        self.send(c)
        return self.recv()

    def regs(self):
        g = self.cmd(b"g")
        return struct.unpack(self.fmt, bytes.fromhex(g[:2 * self.w * len(self.code.names)].decode()))

    def step(self):
        r = self.cmd(b"s")
        if r[:1] not in (b"T", b"S") or r[1:3] != b"05":
            raise ToolError(f"stepping: {r[:60]}")

    def run_to(self, addr):
        """False if the process ended"""
        a = b"Z0,%x,4" % addr if self.code.arch in ("a64", "rv", "arm") else b"Z0,%x,2" % addr
        if self.cmd(a) != b"OK":
            raise ToolError("breakpoint")
        self.send(b"c")
        late = time.time() + 60
        while True:
            self.feed()
            self.s.settimeout(0.02 if self.data else 60)
            try:
                r = self.recv()
                break
            except TimeoutError:
                if not self.data or time.time() > late:
                    raise ToolError("qemu does not reach the operation")
        self.s.settimeout(30)
        if r[:1] in (b"W", b"X"):
            return False
        if r[1:3] != b"05":
            raise ToolError(f"run: {r[:60]}")
        self.cmd(b"z" + a[1:])
        return True

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.s.close()
        if os.path.exists(self.path):
            os.unlink(self.path)


libc = ctypes.CDLL(None, use_errno=True)
libc.ptrace.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_void_p, ctypes.c_void_p]
libc.ptrace.restype = ctypes.c_long
USER = ["r15", "r14", "r13", "r12", "rbp", "rbx", "r11", "r10", "r9", "r8", "rax", "rcx", "rdx", "rsi", "rdi", "orig",
        "rip", "cs", "flags", "rsp", "ss", "fs", "gs", "ds", "es", "fs2", "gs2"]


class Ptrace:
    def __init__(self, b, profile, code, data):
        self.code = code
        inp = f"{BUILD}/step.{os.getpid()}.{b.name}.{profile}"
        with open(inp, "wb") as f:
            f.write(data)
        pid = os.fork()
        if pid == 0:
            try:
                fd = os.open(inp, os.O_RDONLY)
                os.dup2(fd, 0)
                nul = os.open("/dev/null", os.O_WRONLY)
                os.dup2(nul, 1)
                os.dup2(nul, 2)
                libc.ptrace(0, 0, None, None)
                os.execv(b.binary(profile), [b.binary(profile)])
            finally:
                os._exit(126)
        self.pid = pid
        _, st = os.waitpid(pid, 0)
        os.unlink(inp)
        if not os.WIFSTOPPED(st):
            raise ToolError("ptrace is not possible")
        libc.ptrace(0x4200, pid, None, 0x100000)   # the child ends with us
        base = None
        for l in open(f"/proc/{pid}/maps"):
            if l.rstrip().endswith(os.path.realpath(b.binary(profile))):
                base = int(l.split("-")[0], 16)
                break
        h = subprocess.run(["readelf", "-h", b.binary(profile)], capture_output=True, text=True).stdout
        self.bias = base if "DYN (" in h else 0
        self.buf = (ctypes.c_ulonglong * 27)()
        self.order = [USER.index(n) for n in X64]

    def regs(self):
        if libc.ptrace(12, self.pid, None, ctypes.addressof(self.buf)) < 0:
            raise ToolError("ptrace: registers")
        u = self.buf[:]
        return [u[i] for i in self.order]

    def wait(self):
        _, st = os.waitpid(self.pid, 0)
        if os.WIFEXITED(st) or os.WIFSIGNALED(st):
            self.pid = None
            return None
        return os.WSTOPSIG(st)

    def step(self):
        libc.ptrace(9, self.pid, None, None)
        if self.wait() != signal.SIGTRAP:
            raise ToolError("stepping: the process received a signal")

    def run_to(self, addr):
        ctypes.set_errno(0)
        old = libc.ptrace(2, self.pid, addr, None) & (2**64 - 1)
        libc.ptrace(5, self.pid, addr, (old & ~0xff) | 0xcc)
        libc.ptrace(7, self.pid, None, None)
        s = self.wait()
        if s is None:
            return False
        if s != signal.SIGTRAP:
            raise ToolError(f"run: signal {s}")
        libc.ptrace(5, self.pid, addr, old)
        libc.ptrace(12, self.pid, None, ctypes.addressof(self.buf))
        self.buf[16] = addr
        libc.ptrace(13, self.pid, None, ctypes.addressof(self.buf))
        return True

    def close(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)


def aes_width(text):
    """the width in bits of the operands, if this is an instruction that performs AES rounds"""
    mn, _, ops = text.split(": ", 1)[1].partition(" ")
    if re.match(r"v?aes(enc|dec)", mn):
        return 512 if "%zmm" in ops else 256 if "%ymm" in ops else 128
    if re.match(r"aes(e|d|mc|imc)(\.8)?$", mn):
        return 128
    m = re.match(r"aes(64|32)[ed]sm?i?$", mn)
    return int(m[1]) if m else None


def watch(b, profile, lines, deadline, aes=None, strict=True):
    """For each `leak` line: (digest of what was seen, number of instructions) or None. Also the first difference
    to the previous line with the same public part. aes: a list that receives, for each line, the widths of the AES
    instructions executed and whether there were addresses that cannot be seen (gathers; an error if strict)."""
    code = Code(b.binary(profile), b.target)
    t = (Rsp if b.runner else Ptrace)(b, profile, code, ("\n".join(lines) + "\n").encode())
    seen, first, steps = [], {}, 0
    try:
        start, end = code.syms["leak_run"] + t.bias, code.syms["leak_end"] + t.bias
        for l in lines:
            if time.time() > deadline:
                break
            if not t.run_to(start):
                break
            pub = tuple(l.split()[1:3])
            blind = False
            log = []
            regs = t.regs()
            pi = code.pc
            table = code.regs
            bias = t.bias
            gathers = code.gathers
            while True:
                pc = regs[pi]
                if pc == end:
                    break
                log.append(pc)
                if pc - bias in gathers:
                    blind = True
                if blind and strict:
                    raise ToolError(f"a gather is executed: {code.text[pc - bias]}")
                for r in table.get(pc - bias, ()):
                    log.append(regs[r])
                t.step()
                regs = t.regs()
                if len(log) > 3_000_000:
                    raise ToolError("an operation does not end")
            steps += len(log)
            if aes is not None:
                ws = {aes_width(code.text[x - bias]) for x in set(log) if x - bias in code.text}
                aes.append((sorted(ws - {None}), blind))
            where = None
            if pub not in first:
                first[pub] = log
            elif first[pub] != log:
                for i, (x, y) in enumerate(zip(first[pub], log)):
                    if x != y:
                        break
                k = i
                while k > 0 and log[k] - bias not in table:
                    k -= 1
                where = code.text.get(log[max(k - 1, 0)] - bias) if log[k] == log[i] and k == i else code.text.get(log[k] - bias)
            seen.append((hashlib.sha256(repr(log).encode()).hexdigest(), len(log), where))
    finally:
        t.close()
    return seen, steps
