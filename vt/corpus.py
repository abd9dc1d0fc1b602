"""The behaviours executed for each property."""
import glob, itertools, random, re
from . import aes
from .build import REPO

W = (1, 2, 4)
KEYLEN = (16, 24, 32)
EDGE = [0, 1, 2, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x63, 0x52, 0x1B, 0x55]


# numbers that stand in the library as it is: masks and powers of two
COMMON = {0x100 << i for i in range(24)} | {0x1B000000, 0x36000000} | {
    int(p * k, 16) >> s for p in ("ff00", "ff000000", "ffff0000", "ffffff00") for k in (1, 2, 4, 8) for s in (0, 8, 16, 24)}


def literals():
    """Numbers and byte strings that stand in the source: an input may be special because it contains one"""
    ints, strings = set(), set()
    for p in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)):
        if p.endswith("tests.rs"):
            continue
        for line in open(p, errors="replace"):
            line = re.sub(r"//.*", "", line)
            v = []
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?![\w.])", line):
                try:
                    v.append(int(m[1].replace("_", ""), 0))
                except ValueError:
                    pass
            if sum(x > 255 for x in v) <= 3:           # not a table
                ints |= {x for x in v if 255 < x < 1 << 128}
            if 2 <= len(v) <= 16 and max(v) < 256 and re.search(r"\[[^\[\]]*,", line):
                strings.add(bytes(v))
            for m in re.finditer(r'b"([^"\\]{2,16})"', line):
                strings.add(m[1].encode())
    out = set()
    for x in sorted(ints - COMMON)[:40]:
        n = next(n for n in (2, 4, 8, 16) if x < 1 << 8 * n)
        out |= {x.to_bytes(n, "big"), x.to_bytes(n, "little")}
    return sorted(ints - COMMON)[:40], sorted(out | {s for s in strings if len(s) in (2, 4, 8, 16) and s != bytes(range(16))})


class Corpus:
    def __init__(self, seed, thorough):
        self.r = random.Random(seed)
        self.numbers, self.literals = literals()
        self.t = thorough
        self.l = []
        self.n = 0

    # ---- bytes -----------------------------------------------------------
    def rb(self, n):
        return self.r.randbytes(n)

    def mixed(self, n):
        """bytes of several kinds"""
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return bytes(r.choice(EDGE) for _ in range(n))
        if k == 1:
            b = bytearray(n)
            for _ in range(r.randrange(1, 4)):
                b[r.randrange(n)] = r.randrange(256)
            return bytes(b)
        if k == 2:
            p = r.choice([1, 2, 4, 8, 16, 32])
            return (self.rb(p) * (n // p + 1))[:n]
        if k == 3:
            h = self.rb(n)
            return bytes(h[:n // 2]) + bytes(255 - x for x in h[:n - n // 2])
        if k == 4 and n >= 4 or k == 5 and self.literals:
            return self.special(n)
        return self.rb(n)

    def lengths(self):
        return [m + i for m in self.numbers if m < 1 << 32 for i in (-1, 0, 1)]

    def special(self, n):
        """an aligned part of it is extreme, or the same as another"""
        r = self.r
        b = bytearray(self.rb(n))
        u = r.choice([u for u in (2, 4, 4, 8, 16) if u <= n])
        i, j = r.randrange(n // u) * u, r.randrange(n // u) * u
        b[i:i + u] = bytes(b[j:j + u]) if i != j and r.random() < 0.4 else self.extreme(u)
        return bytes(b)

    def extreme(self, n):
        r = self.r
        if self.literals and r.random() < 0.25:
            x = r.choice(self.literals)
            if len(x) <= n:
                i = r.randrange(n // len(x)) * len(x)
                return r.choice([bytes(i) + x + bytes(n - i - len(x)), (x * n)[:n], (x + self.rb(n))[:n]])
        return r.choice([bytes(n), bytes(n), b"\xff" * n, b"\x80" + bytes(n - 1), bytes(n - 1) + b"\x80", b"\x01" + bytes(n - 1), bytes(n - 1) + b"\x01"])

    def key_with(self, n, at, words):
        """a key in whose expansion these words stand from place `at` on (random if it cannot be chosen)"""
        nk = n // 4
        total = 4 * (nk + 7)
        first = max(0, min(at, total - nk))
        w = [self.rb(4) for _ in range(nk)]
        for i, x in enumerate(words[:nk]):
            w[at + i - first if at + i - first < nk else nk - 1] = x
        return aes.key_from(w, first, nk)

    def hard_keys(self, n):
        """keys whose expansion is somewhere extreme"""
        nk = n // 4
        total = 4 * (nk + 7)
        for at in range(total):
            for v in (bytes(4), b"\xff" * 4):
                yield self.key_with(n, at, [v])
            for x in self.literals[:24]:
                x = x if len(x) >= 4 else (x + self.rb(2))
                yield self.key_with(n, at, [x[i:i + 4] for i in range(0, len(x), 4)])
        for r in range(nk + 7):
            yield self.key_with(n, 4 * r, [bytes(4)] * 4)
            if nk == 8 and r:
                x = [self.rb(4) for _ in range(4)]
                yield self.key_with(n, 4 * r - 4, x + x)
            yield self.key_with(n, 4 * r, [self.rb(4)] * 4)

    def key(self, n):
        r = self.r
        if r.random() < 0.6:
            return self.mixed(n)
        at = r.randrange(4 * (n // 4 + 7))
        m = r.choice([1, 1, 2, 4])
        if m == 4:
            at &= ~3
        return self.key_with(n, at, [self.extreme(4)] * m)

    def hard_block(self, key, d, r, x=None, after=True):
        """a block that is `x` inside, after r rounds, with the round key or before it"""
        rk = aes.expand(key)
        last = len(rk) - 1
        x = x if x is not None else self.special(16)
        k = rk[r] if d == "E" else rk[last - r] if r in (0, last) else aes.imc(rk[last - r])
        if not after:
            x = aes.xor(x, k)
        if r < last:
            return (aes.plain_for if d == "E" else aes.cipher_for)(rk, r, x)
        x = aes.xor(x, k)
        return aes.plain_for(rk, last - 1, aes.inv_sub_shift(x)) if d == "E" else aes.cipher_for(rk, last - 1, aes.sub_shift(x))

    def structured(self, n):
        """a fixed list of extreme strings"""
        out = [bytes(n), b"\xff" * n, bytes(range(n)), bytes(range(255, 255 - n, -1)), b"\x80" * n, b"\x01" * n,
               (b"\x80" + bytes(7)) * (n // 8), (bytes(7) + b"\x01") * (n // 8), (b"\x55\xaa" * n)[:n],
               b"\x63" * n, b"\x52" * n, b"\x1b" * n]
        for i in range(n):
            out.append(bytes(i) + b"\x01" + bytes(n - 1 - i))
            out.append(bytes(i) + b"\x80" + bytes(n - 1 - i))
            out.append(b"\xff" * i + b"\x7f" + b"\xff" * (n - 1 - i))
        return out

    def sweep(self, n, base=None):
        """every value at every position"""
        for p in range(n):
            b = bytearray(base if base is not None else self.rb(n))
            for v in range(256):
                b[p] = v
                yield bytes(b)

    def sweep_lanes(self, w):
        """every value at every position of every lane, the lanes at different places of the sweep"""
        base = bytearray(self.rb(16 * w))
        offs = [self.r.randrange(4096) for _ in range(w)]
        for i in range(4096):
            b = bytearray(base)
            for j in range(w):
                q = (i + offs[j]) % 4096
                b[16 * j + q // 256] = q % 256
            if i % 256 == 255:
                base = bytearray(self.rb(16 * w))
            yield bytes(b)

    # ---- lines -----------------------------------------------------------
    def reset(self):
        self.l.append("reset")
        self.n = 0

    def add(self, line, every=100):
        """a command that stands alone"""
        if self.n % every == 0 or not self.l:
            self.l.append("reset")
        self.n += 1
        self.l.append(line)

    def put(self, line):
        self.l.append(line)


def h(b):
    return b.hex() if b else "-"


FIPS = [  # FIPS 197 appendix B, C and NIST SP 800-38A
    ("2b7e151628aed2a6abf7158809cf4f3c", "3243f6a8885a308d313198a2e0370734"),
    ("000102030405060708090a0b0c0d0e0f", "00112233445566778899aabbccddeeff"),
    ("000102030405060708090a0b0c0d0e0f1011121314151617", "00112233445566778899aabbccddeeff"),
    ("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "00112233445566778899aabbccddeeff"),
    ("8e73b0f7da0e6452c810f32b809079e562f8ead2522c6b7b", "6bc1bee22e409f96e93d7e117393172a"),
    ("603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "6bc1bee22e409f96e93d7e117393172a"),
]


def one_direction(c, d, conv):
    """Every key size, with every byte value at every place of key and block.
    conv: the object may come from a conversion"""
    def obj(key):
        if conv and c.r.random() < 0.5:
            c.put(f"kn 1 {'D' if d == 'E' else 'E'} {h(key)}")
            c.put("kc 0 1")
        else:
            c.put(f"kn 0 {d} {h(key)}")
    for k, x in FIPS:
        c.reset()
        obj(bytes.fromhex(k))
        c.put(f"kx 1 0 {x}")
    for n in KEYLEN:
        # blocks
        for i, x in enumerate(c.sweep(16)):
            if i % 256 == 0:
                c.reset()
                obj(c.rb(n))
            c.put(f"kx 1 0 {h(x)}")
        c.reset()
        obj(c.rb(n))
        for x in c.structured(16):
            c.put(f"kx 1 0 {h(x)}")
        # keys
        x = c.rb(16)
        for i, k in enumerate(c.sweep(n)):
            if i % 64 == 0:
                c.reset()
            obj(k)
            c.put(f"kx 1 0 {h(x)}")
        c.reset()
        for k in c.structured(n):
            obj(k)
            c.put(f"kx 1 0 {h(x)}")
        for i, k in enumerate(c.hard_keys(n)):
            if i % 32 == 0:
                c.reset()
            obj(k)
            c.put(f"kx 1 0 {h(c.rb(16))}")
        for rep in range(6 if c.t else 1):
            for r in range(n // 4 + 7):
                c.reset()
                k = c.rb(n)
                obj(k)
                for j in range(4):
                    x = bytearray(c.rb(16))
                    x[4 * j:4 * j + 4] = c.extreme(4)
                    c.put(f"kx 1 0 {h(c.hard_block(k, d, r, bytes(x)))}")
                for x in (bytes(16), b"\xff" * 16, b"\x63" * 16, b"\x52" * 16, c.rb(4) * 4, None):
                    c.put(f"kx 1 0 {h(c.hard_block(k, d, r, x))}")
                    c.put(f"kx 1 0 {h(c.hard_block(k, d, r, x, False))}")
                for y in c.literals[:24]:
                    for j in range(0, 16, len(y)):
                        x = bytearray(c.rb(16))
                        x[j:j + len(y)] = y
                        c.put(f"kx 1 0 {h(c.hard_block(k, d, r, bytes(x), c.r.random() < 0.8))}")
                w = c.r.choice((2, 4))
                c.put(f"kx {w} 0 {h(b''.join(c.hard_block(k, d, r) for _ in range(w)))}")
        for i in range(4000 if c.t else 500):
            if i % 32 == 0:
                c.reset()
            obj(c.key(n) if i % 2 else c.rb(n))
            w = c.r.choice(W)
            c.put(f"kx {w} 0 {h(c.mixed(16 * w))}")
            if i % 4 == 0:   # key and block related
                k = c.rb(n)
                obj(k)
                c.put(f"kx 1 0 {h(c.r.choice([k[:16], k[-16:], bytes(255 - b for b in k[:16])]))}")


def C01(c):
    one_direction(c, "E", True)


def C02(c):
    one_direction(c, "D", True)
    # there and back
    for n in KEYLEN:
        for i in range(1500 if c.t else 150):
            if i % 16 == 0:
                c.reset()
            k = c.key(n)
            c.put(f"kn 0 E {h(k)}")
            c.put(f"kc 1 0" if i % 2 else f"kn 1 D {h(k)}")
            a, b = (0, 1) if i % 4 < 2 else (1, 0)
            w = c.r.choice(W)
            c.put(f"kx {w} {a} {h(c.mixed(16 * w))} >1")
            c.put(f"kx {w} {b} @1")


def C03(c):
    # every word of conversions and clones up to a length, from both directions
    def crypt(s):
        w = c.r.choice(W) if c.r.random() < 0.4 else 1
        c.put(f"kx {w} {s} {h(c.mixed(16 * w))}")
    depth = 6 if c.t else 5
    for n in KEYLEN:
        for d in "ED":
            for m in range(1, depth + 1):
                for word in itertools.product("clf", repeat=m):
                    if m == depth and not c.t and c.r.random() < 0.5:
                        continue
                    c.reset()
                    k = c.key(n)
                    c.put(f"kn 0 {d} {h(k)}")
                    e = d
                    for i, o in enumerate(word):
                        if o == "c":
                            e = "D" if e == "E" else "E"
                        if o == "f" or i % 2:        # over an object of the same kind, or of another
                            c.put(f"kn {i + 1} {e if o == 'f' and c.r.random() < 0.9 else c.r.choice('ED')} {h(c.rb(n))}")
                        c.put(f"k{o} {i + 1} {i}")
                    crypt(m)
                    crypt(c.r.randrange(m))     # an object it came from is as it was
                    if c.r.random() < 0.3:
                        c.put(f"kn 11 {e} {h(k)}")
                        a = c.r.randrange(2)
                        c.put(f"kt {a} 11")
                        c.put(f"kt {a} {m}")
        # many keys, several conversions deep
        for i in range(1200 if c.t else 160):
            c.reset()
            c.put(f"kn 0 {'ED'[i % 2]} {h(c.key(n) if i % 3 else c.rb(n))}")
            m = c.r.randrange(1, 9)
            for j in range(m):
                c.put(f"kc {j + 1} {j}")
            crypt(m)
            if i % 2:
                crypt(m - 1)
        # every byte value in every place of the key, two conversions
        for i, k in enumerate(c.sweep(n)):
            if i % 8 and not c.t:
                continue
            if i % 64 == 0:
                c.reset()
            c.put(f"kn 0 {'ED'[(i // 256) % 2]} {h(k)}")
            c.put("kc 1 0")
            c.put("kc 2 1")
            c.put(f"kx 1 2 {h(c.rb(16))}")
        for i, k in enumerate(c.hard_keys(n)):
            if i % 32 == 0:
                c.reset()
            c.put(f"kn 0 {'ED'[i % 2]} {h(k)}")
            c.put("kc 1 0")
            c.put("kc 2 1")
            c.put(f"kx 1 {1 + (i // 2) % 2} {h(c.rb(16))}")
        # in place, and many times over
        for d in "ED":
            c.reset()
            c.put(f"kn 0 {d} {h(c.rb(n))}")
            for j in range(40):
                c.put("kc 0 0")
                if j % 3 == 0:
                    crypt(0)


def lanes_of(c, w, i):
    """blocks whose lanes are equal, different in one place, permuted, or unrelated"""
    a = [c.mixed(16) for _ in range(w)]
    k = i % 6
    if k == 0:
        a = [a[0]] * w
    elif k == 1:
        b = bytearray(a[0])
        a = [a[0]] * w
        b[c.r.randrange(16)] ^= 1 << c.r.randrange(8)
        a[c.r.randrange(w)] = bytes(b)
    elif k == 2:
        a = [a[0], a[-1]] * (w // 2)
    elif k == 3:
        a[c.r.randrange(w)] = bytes(16)
    elif k == 4:
        a = [bytes(16)] * w
        a[c.r.randrange(w)] = c.mixed(16)
    return b"".join(a)


def C04(c):
    i = 0
    for w in (2, 4):
        for d in "ED":
            n = KEYLEN[i % 3]
            i += 1
            for j, x in enumerate(c.sweep_lanes(w)):
                if j % 256 == 0:
                    c.reset()
                    c.put(f"kn 0 {d} {h(c.rb(KEYLEN[(i + j // 256) % 3]))}")
                if w == 2 or j % 2 == 0 or c.t:
                    c.put(f"kx {w} 0 {h(x)}")
            for n in KEYLEN:
                for j in range(600 if c.t else 120):
                    if j % 24 == 0:
                        c.reset()
                        k = c.key(n)
                        c.put(f"kn 0 {d} {h(k)}")
                        if j % 48 == 0:
                            c.put("kc 0 0")
                            c.put("kc 0 0")
                    x = lanes_of(c, w, j)
                    if j % 6 == 4:
                        x = b"".join(c.hard_block(k, d, c.r.randrange(n // 4 + 7), None, c.r.random() < 0.7) for _ in range(w))
                    c.put(f"kx {w} 0 {h(x)}")
                    if j % 5 == 0:
                        for q in range(w):
                            c.put(f"kx 1 0 {h(x[16 * q:16 * q + 16])}")


OPS = ("enc", "encl", "dec", "decl")


def C05(c):
    for rounds in range(4 if c.t else 1):
        for f in OPS:
            for w in W:
                for x in c.sweep_lanes(w):
                    c.add(f"rnd {w} {f} {h(x)} {h(c.rb(16 * w))}")
        for f in ("mc", "imc"):
            for x in c.sweep(16):
                c.add(f"mix {f} {h(x)}")
    for w in W:
        for f in OPS:
            for k in c.sweep_lanes(w):           # the round key
                if k[0] % 4 == 0 or c.t:
                    c.add(f"rnd {w} {f} {h(c.rb(16 * w))} {h(k)}")
            for x in c.structured(16 * w):
                c.add(f"rnd {w} {f} {h(x)} {h(c.mixed(16 * w))}")
                c.add(f"rnd {w} {f} {h(c.mixed(16 * w))} {h(x)}")
            for i in range(2000 if c.t else 400):
                x = lanes_of(c, w, i) if w > 1 else c.mixed(16)
                k = lanes_of(c, w, i // 6) if w > 1 else c.mixed(16)
                if i % 10 == 0:
                    k = x
                elif i % 10 == 1:
                    k = bytes(255 - b for b in x)
                elif i % 10 == 2:
                    k = bytes(16 * w)
                c.add(f"rnd {w} {f} {h(x)} {h(k)}")
    for f in ("mc", "imc"):
        for x in c.structured(16):
            c.add(f"mix {f} {h(x)}")
        for i in range(8000 if c.t else 1500):
            c.add(f"mix {f} {h(c.mixed(16))}")


def C06(c):
    for w in W:
        for d in ("enc", "dec"):
            c.add(f"chain {w} {d} {h(c.rb(16 * w))} -")
            c.add(f"chain {w} {d} {h(bytes(16 * w))} -")
            for n in list(range(1, 41)) + [48, 63, 64, 65, 70]:
                for rep in range(8 if c.t else 3):
                    x = c.mixed(16 * w)
                    ks = [c.mixed(16 * w) if rep else c.rb(16 * w) for _ in range(n)]
                    c.add(f"chain {w} {d} {h(x)} {','.join(map(h, ks))}", 20)
            for n in (100, 127, 128, 129, 200, 255, 256, 257, 258, 272, *(m + i for m in c.numbers if m < 1100 for i in (0, 1))):
                c.add(f"chain {w} {d} {h(c.mixed(16 * w))} {','.join(h(c.rb(16 * w)) for _ in range(n))}", 20)
            for n in range(1, 20):
                x = c.rb(16 * w)
                for k in (bytes(16 * w), x, b"\xff" * (16 * w)):
                    c.add(f"chain {w} {d} {h(x)} {','.join([h(k)] * n)}", 20)
                ks = [c.rb(16 * w)] * n
                ks[-1] = bytes(16 * w)
                c.add(f"chain {w} {d} {h(x)} {','.join(map(h, ks))}", 20)
                if n > 1:
                    ks = [c.rb(16 * w) for _ in range(n)]
                    ks[c.r.randrange(n)] = bytes(16 * w)
                    c.add(f"chain {w} {d} {h(x)} {','.join(map(h, ks))}", 20)
            for i in range(3000 if c.t else 500):
                n = c.r.choice([1, 2, 2, 3, 3, 4, 5])
                x = lanes_of(c, w, i) if w > 1 else c.mixed(16)
                c.add(f"chain {w} {d} {h(x)} {','.join(h(lanes_of(c, w, i + j) if w > 1 else c.mixed(16)) for j in range(n))}")
            # very many keys, whose rounds come back every three of them to where they were
            for n in (300, 1000, 32769, 65535, 65536, 65537, 65538, 65539, 131074, 200000, 1048581,
                      *(m + i for m in c.numbers if 1100 <= m < 3 << 20 for i in (-1, 0, 1, 2))):
                x, first, *p = [c.rb(16 * w) for _ in range(5)]
                if c.n % 3 == 0:
                    p[1] = bytes(16 * w)
                p[0] = aes.xor(x, first)
                cyc = []
                for i in range(3):
                    a = [p[i][j:j + 16] for j in range(0, 16 * w, 16)]
                    y = b"".join(aes.mc(aes.sub_shift(b)) if d == "enc" else aes.imc(aes.inv_sub_shift(b)) for b in a)
                    cyc.append(aes.xor(y, p[(i + 1) % 3]))
                if n * w < 3 << 20:
                    c.add(f"chainp {w} {d} {h(x)} {h(first)} {','.join(map(h, cyc))} {n}", 1)
            # the fold, spelled out
            for i in range(40 if c.t else 8):
                n = c.r.randrange(1, 12)
                ks = [c.rb(16 * w) for _ in range(n)]
                x = c.rb(16 * w)
                c.reset()
                c.put(f"chain {w} {d} {h(x)} {','.join(map(h, ks))}")
                c.put(f"bit {w} xor {h(x)} {h(ks[0])} >1")
                for k in ks[1:]:
                    c.put(f"rnd {w} {d} @1 {h(k)} >1")
                c.reset()


def C08(c):
    readers = ("arr", "store", "reg")
    ctors = ("new", "arr", "ref", "slice")
    for w in W:
        n = 16 * w
        for rd in readers:
            for z in ("zero", "default"):
                c.add(f"bytes {w} {z} {rd} -")
            for i in range(6):
                c.add(f"bytes {w} const{i} {rd} -")
        for i, x in enumerate(c.structured(n) + [c.mixed(n) for _ in range(3000 if c.t else 600)]):
            for ct in ctors:
                for rd in readers:
                    if c.t or (i + len(ct) + len(rd)) % 2 == 0 or i < 60:
                        c.add(f"bytes {w} {ct} {rd} {h(x)}")
        for i, x in enumerate(c.sweep(n)):
            c.add(f"bytes {w} {ctors[i % 4]} {readers[(i // 4) % 3]} {h(x)}")
    for x in itertools.chain(c.sweep(16), c.structured(16), (c.mixed(16) for _ in range(500))):
        for f in ("in", "out", "both"):
            c.add(f"u128 {f} {h(x)}")


MODES = list(range(0, 17)) + [23, 31, 32, 33, 47, 48, 63, 100, 101]


# lengths around which a narrower integer type would go wrong
LONG = sorted({(1 << k) + d for k in (15, 16, 17, 20) for d in (-1, 0, 1, 15, 16, 31, 32, 63, 64, 65) if (1 << k) + d <= 1 << 20} |
              {(1 << k) + d for k in (24, 31, 32, 33) for d in (-1, 0, 1, 15, 16, 31, 40)} | {40000, 3 << 16, 5 << 32})


def C09(c):
    for w in W:
        n = 16 * w
        for ln in range(0, 200):
            for m in (MODES if c.t or abs(ln - n) <= 2 or ln < 4 else [0, 100, 101, c.r.randrange(64)]):
                c.add(f"slice {w} {m} {h(c.rb(ln))}")
        for ln in (240, 255, 256, 257, 270, 271, 272, 287, 288, 300, 319, 320, 321, 400, 496, 511, 512):
            for m in (0, 5, 100, 101):
                c.add(f"slice {w} {m} {h(c.rb(ln))}")
        for ln in (0, 1, 15, 16, 31, 32, 63, 64, 255, 256, 257, 4096, *LONG, *c.lengths()):
            c.add(f"bslice {w} {ln} {h(c.rb(min(64, ln)))}")
        for i in range(4000 if c.t else 800):
            ln = c.r.choice([n - 1, n, n, n, n + 1, n + c.r.randrange(40), c.r.randrange(n + 1)])
            c.add(f"slice {w} {c.r.choice(MODES)} {h(c.mixed(ln) if ln > 1 else c.rb(ln))}")
        for x in c.structured(n):
            c.add(f"slice {w} {c.r.choice(MODES)} {h(x)}")
        for i in range(300):
            c.add(f"bytes {w} slice {c.r.choice(['arr', 'store', 'reg'])} {h(c.mixed(n))}")


def C10(c):
    short = []
    for w in W:
        n = 16 * w
        for ln in range(0, 160):
            ms = MODES if c.t or ln in (n, n + 1) else [0, 100, 101, c.r.randrange(64)]
            if ln < n:
                ms = [0, 7, 100, 101] if ln % 5 == 0 or n - ln < 3 else [c.r.choice(MODES)]
            for m in ms:
                (c.add if ln >= n else short.append)(f"store {w} {m} {h(c.mixed(n))} {h(c.rb(ln))}")
        for ln in (255, 256, 257, 300, 400, 511, 512):
            for m in (0, 3, 100, 101):
                c.add(f"store {w} {m} {h(c.mixed(n))} {h(c.rb(ln))}")
        for ln in (64, 256, 4096, *LONG, *c.lengths()):
            c.add(f"bstore {w} {ln} {h(c.rb(n))} {h(c.rb(64))}")
        for i in range(3000 if c.t else 600):
            ln = n + c.r.choice([0, 0, 1, 2, 3, 15, 16, 17, c.r.randrange(64)])
            c.add(f"store {w} {c.r.choice(MODES)} {h(c.mixed(n))} {h(c.mixed(ln))}")
        for x in c.structured(n):
            c.add(f"store {w} {c.r.choice(MODES)} {h(x)} {h(bytes(255 - b for b in x) + b'z' * 8)}")
    for s in short:       # these end a process without unwinding: keep their behaviours short
        c.add(s, 10)


BITS = ("and", "or", "xor", "not", "and=", "or=", "xor=")


def C11(c):
    for w in W:
        n = 16 * w
        for f in BITS:
            for x in c.sweep_lanes(w):
                if w == 1 or x[5] % 2 == 0 or c.t:
                    c.add(f"bit {w} {f} {h(x)} {h(c.rb(n))}")
            st = c.structured(n)
            for x in st:
                c.add(f"bit {w} {f} {h(x)} {h(c.r.choice(st))}")
                c.add(f"bit {w} {f} {h(c.mixed(n))} {h(x)}")
                c.add(f"bit {w} {f} {h(x)} {h(x)}")
            for i in range(2000 if c.t else 300):
                x = c.mixed(n)
                y = c.r.choice([c.mixed(n), x, bytes(255 - b for b in x)])
                c.add(f"bit {w} {f} {h(x)} {h(y)}")
        # assigning forms leave the left operand with the result
        for i in range(100):
            c.reset()
            c.put(f"set {w} {h(c.mixed(n))} >1")
            for j in range(4):
                c.put(f"bit {w} {c.r.choice(BITS)} @1 {h(c.mixed(n))} >1")
            c.reset()


def deltas(c, n):
    """differences that cancel in careless reductions"""
    out = [bytes(i) + bytes([1 << b]) + bytes(n - 1 - i) for i in range(n) for b in range(8)]
    for size in (1, 2, 4, 8, 16, 32):
        if size >= n:
            continue
        for a in range(0, n // size):
            for b in range(a + 1, n // size):
                v = bytearray(c.rb(size))
                v[c.r.randrange(size)] |= 1
                neg = ((1 << 8 * size) - int.from_bytes(v, "little")) % (1 << 8 * size)
                for q in (bytes(v), neg.to_bytes(size, "little"),
                          ((1 << 8 * size) - int.from_bytes(v, "big")).to_bytes(size, "big") if any(v) else bytes(v),
                          bytes(255 - t for t in v)):
                    z = bytearray(n)
                    z[a * size:(a + 1) * size] = v
                    z[b * size:(b + 1) * size] = q
                    out.append(bytes(z))
        if size <= 8:
            # one repeated word, and words that sum to zero
            v = c.rb(size)
            out.append(v * (n // size))
            hi = (1 << (8 * size - 1)).to_bytes(size, "little")
            for pat in (hi, hi[::-1]):
                out.append(pat * (n // size))
                for a in range(0, n // size):
                    for b in range(a + 1, n // size):
                        z = bytearray(n)
                        z[a * size:(a + 1) * size] = pat
                        z[b * size:(b + 1) * size] = pat
                        out.append(bytes(z))
    for p in (0x55, 0xAA, 0x0F, 0xF0, 0x80, 0x7F, 0xFE, 0x01):
        out.append(bytes([p]) * n)
    return out


def C12(c):
    for w in W:
        n = 16 * w
        ds = deltas(c, n)
        if len(ds) > 6000 and not c.t:
            keep = set(c.r.sample(range(len(ds)), 6000 - 8 * n))
            ds = [d for i, d in enumerate(ds) if i < 8 * n or i in keep]
        z = bytes(n)
        c.add(f"cmp {w} isz {h(z)} {h(z)}")
        c.add(f"cmp {w} isz {h(z)} {h(c.rb(n))}")
        for i, d in enumerate(ds):
            c.add(f"cmp {w} isz {h(d)} {h(z)}")
            x = c.mixed(n)
            y = bytes(a ^ b for a, b in zip(x, d))
            f = "eq" if i % 3 else "ne"
            c.add(f"cmp {w} {f} {h(x)} {h(y)}")
            s = ((int.from_bytes(x, "little") + int.from_bytes(d, "little")) % (1 << 8 * n)).to_bytes(n, "little")
            if i % 4 == 0:
                c.add(f"cmp {w} {'ne' if i % 8 else 'eq'} {h(x)} {h(s)}")
        for i in range(300):
            x = c.mixed(n)
            c.add(f"cmp {w} eq {h(x)} {h(x)}")
            c.add(f"cmp {w} ne {h(x)} {h(x)}")
            if i < 100:
                c.add(f"cmp {w} eq {h(x)} {h(c.mixed(n))}")
        for x in c.structured(n):
            c.add(f"cmp {w} isz {h(x)} {h(z)}")
            c.add(f"cmp {w} eq {h(x)} {h(z)}")
            c.add(f"cmp {w} ne {h(z)} {h(x)}")
        # permuted halves, words and bytes are different values
        for i in range(300):
            x = c.rb(n)
            s = c.r.choice([1, 2, 4, 8])
            ws = [x[j:j + s] for j in range(0, n, s)]
            a, b = c.r.sample(range(len(ws)), 2)
            ws[a], ws[b] = ws[b], ws[a]
            c.add(f"cmp {w} eq {h(x)} {h(b''.join(ws))}")


PACKS = {"2from1s": 32, "2to1s": 32, "4from1s": 64, "4to1s": 64, "4from2s": 64, "4to2s": 64, "2of1": 16, "4of1": 16,
         "4of2": 32, "tour": 64}


def C13(c):
    for f, n in PACKS.items():
        for x in c.sweep(n):
            if n < 64 or x[0] % 2 == 0 or c.t:
                c.add(f"pack {f} {h(x)}")
        for x in c.structured(n):
            c.add(f"pack {f} {h(x)}")
        for i in range(2000 if c.t else 300):
            x = lanes_of(c, n // 16, i) if n > 16 else c.mixed(16)
            c.add(f"pack {f} {h(x)}")


FMTS = ("d", "#d", "?", "#?", "x?", "X?", "x", "#x", "X", "#X", "b", "#b")


def C14(c):
    for f in FMTS:
        for x in c.sweep(16):
            c.add(f"fmt {f} {h(x)}")
        for k in range(1, 8):
            for x in [bytes(16), b"\xff" * 16] + [c.mixed(16) for _ in range(12)]:
                c.add(f"fmt {f}~{k} {h(x)}")
        for room in [*range(0, 36), 64, 127, 128, 129, 130, 131]:
            c.add(f"fmtl {room} {f}{c.r.choice(['', '~1', '~3'])} {h(c.mixed(16))}")
        for x in c.structured(16) + [c.mixed(16) for _ in range(400)]:
            c.add(f"fmt {f} {h(x)}")
    for w in W:
        for a in "01":
            for x in c.sweep_lanes(w):
                if x[3] % (1 if c.t else 8) == 0:
                    c.add(f"dbg {w} {a} {h(x)}")
            for i in range(200):
                c.add(f"dbg {w} {a}{'~' + str(i % 8) if i % 2 else ''} {h(lanes_of(c, w, i) if w > 1 else c.mixed(16))}")


def related(c, n, m):
    """m keys that a careless cache could take for one another"""
    k = c.rb(n)
    out = [k]
    while len(out) < m:
        b = bytearray(c.r.choice(out))
        q = c.r.randrange(7)
        if q == 0:
            b[c.r.randrange(n)] ^= 1 << c.r.randrange(8)
        elif q == 1:
            b[-1] ^= 1 << c.r.randrange(8)
        elif q == 2:                                   # same xor of words
            d = c.rb(4)
            i, j = c.r.sample(range(n // 4), 2)
            for t in range(4):
                b[4 * i + t] ^= d[t]
                b[4 * j + t] ^= d[t]
        elif q == 3:                                   # same bytes, other order
            i, j = c.r.sample(range(n), 2)
            b[i], b[j] = b[j], b[i]
        elif q == 4:                                   # same words, other order
            i, j = c.r.sample(range(n // 4), 2)
            b[4 * i:4 * i + 4], b[4 * j:4 * j + 4] = b[4 * j:4 * j + 4], b[4 * i:4 * i + 4]
        elif q == 5:                                   # same sum of bytes
            i, j = c.r.sample(range(n), 2)
            b[i], b[j] = (b[i] + 1) % 256, (b[j] - 1) % 256
        else:                                          # other second half
            b[n // 2:] = c.rb(n - n // 2)
        out.append(bytes(b))
    return out


def C15(c):
    # interleaved use of related objects: all live at once, in several orders, with repeats
    for rep in range(160 if c.t else 40):
        c.reset()
        n = KEYLEN[rep % 3]
        ks = related(c, n, 5)
        if rep % 4 == 3:        # one key string, cut to the three sizes
            k = c.rb(32)
            ks = [k[:16], k[:24], k, k[:16], k[:24]]
        xs = [c.mixed(16) for _ in range(2)]
        live = []
        for i in range(45):
            q = c.r.randrange(10)
            if q < 3 or not live:
                s = c.r.randrange(6)
                c.put(f"kn {s} {c.r.choice('ED')} {h(c.r.choice(ks))}")
                live = sorted(set(live) | {s})
            elif q == 3:
                s = c.r.randrange(6)
                c.put(f"kc {s} {c.r.choice(live)}")
                live = sorted(set(live) | {s})
            elif q == 4:
                s = c.r.randrange(6)
                c.put(f"{c.r.choice(['kl', 'kf'])} {s} {c.r.choice(live)}")
                live = sorted(set(live) | {s})
            elif q == 5 and len(live) > 1:
                s = c.r.choice(live)
                c.put(f"kd {s}")
                live.remove(s)
            else:
                w = c.r.choice(W) if c.r.random() < 0.3 else 1
                x = c.r.choice(xs) * w if c.r.random() < 0.7 else c.mixed(16 * w)
                c.put(f"kx {w} {c.r.choice(live)} {h(x)}")
    # the same key again right after another one; both directions at once
    for n in KEYLEN:
        for rep in range(60 if c.t else 15):
            a, b = related(c, n, 2)
            x = c.rb(16)
            c.reset()
            for k in (a, b, a):
                for d in "ED":
                    c.put(f"kn 0 {d} {h(k)}")
                    c.put(f"kx 1 0 {h(x)}")
        # single-byte differences at every place of the key
        k = c.rb(n)
        x = c.rb(16)
        for i in range(n):
            c.reset()
            c.put(f"kn 0 E {h(k)}")
            c.put(f"kx 1 0 {h(x)}")
            m = bytearray(k)
            m[i] ^= 1 << c.r.randrange(8)
            c.put(f"kn 1 E {h(m)}")
            c.put(f"kx 1 1 {h(x)}")
            c.put(f"kx 1 0 {h(x)}")
        # single-byte differences in consecutive blocks
        for d in "ED":
            c.reset()
            c.put(f"kn 0 {d} {h(k)}")
            for i in range(16):
                y = bytearray(x)
                y[i] ^= 1 << c.r.randrange(8)
                c.put(f"kx 1 0 {h(x)}")
                c.put(f"kx 1 0 {h(y)}")
            for i in range(8):
                y = bytearray(x * 4)
                y[8 * i] ^= 1
                c.put(f"kx 4 0 {h(x * 4)}")
                c.put(f"kx 4 0 {h(y)}")
    # rounds and conversions between uses
    for rep in range(60 if c.t else 20):
        c.reset()
        k = c.rb(KEYLEN[rep % 3])
        x = c.rb(16)
        c.put(f"kn 0 {'ED'[rep % 2]} {h(k)}")
        for i in range(12):
            c.put(f"rnd 1 {c.r.choice(OPS)} {h(c.mixed(16))} {h(c.r.choice([k[:16], bytes(16), c.rb(16)]))}")
            c.put(f"mix {c.r.choice(['mc', 'imc'])} {h(c.mixed(16))}")
            c.put(f"bit 1 xor= {h(x)} {h(x)}")
            c.put(f"kx 1 0 {h(x)}")


PROBE = bytes(range(64))        # what the harness tries each of many objects with


def C15_long(c, scale):
    """calls repeated very often, so that whatever counts them has time to wrap"""
    long = 40 * scale
    for n in KEYLEN:
        for d in "ED":
            c.reset()
            k = c.rb(n)
            c.put(f"many {scale} kn 0 {d} {h(k)}")
            c.put(f"kx 4 0 {h(PROBE)}")
            for w in W:
                x = c.rb(16 * w)
                c.put(f"many {scale} kx {w} 0 {h(x)}")
                c.put(f"kx {w} 0 {h(c.rb(16 * w))}")
                c.put(f"rep {w} {long} 0 {h(x)}")
                c.put(f"kx {w} 0 {h(x)}")
            c.put(f"many {scale} kc 1 0")
            c.put(f"kx 4 1 {h(PROBE)}")
            c.put(f"kx 1 1 {h(x[:16])}")
            c.put(f"many {scale} kl 2 1")
            c.put(f"kx 4 2 {h(PROBE)}")
            c.put(f"kx 2 2 {h(x[:32])}")
            c.put(f"kx 4 0 {h(x)}")
    c.reset()
    for w in W:
        for op in OPS:
            c.put(f"many {scale} rnd {w} {op} {h(c.rb(16 * w))} {h(c.rb(16 * w))}")
        for op in ("enc", "dec"):
            c.put(f"many {scale // 2} chain {w} {op} {h(c.rb(16 * w))} {','.join(h(c.rb(16 * w)) for _ in range(5))}")
    for op in ("mc", "imc"):
        c.put(f"many {scale} mix {op} {h(c.rb(16))}")


def C16(c):
    """set-up of shared objects, `go`, then what the threads do; returns the number of set-up lines"""
    shared = []
    for i in range(12):
        n = KEYLEN[i % 3]
        k = c.rb(n)
        c.put(f"kn {i} {'ED'[(i // 3) % 2]} {h(k)}")
        shared.append(k)
    c.put("go")
    for rep in range(120 if c.t else 36):
        c.reset()
        ks = related(c, KEYLEN[rep % 3], 3)
        c.put(f"kn 0 {c.r.choice('ED')} {h(ks[0])}")
        c.put(f"kn 1 {c.r.choice('ED')} {h(ks[1])}")
        c.put(f"kc 2 {c.r.randrange(2)}")
        c.put(f"kc 3 s{c.r.randrange(12)}")
        for i in range(14):
            q = c.r.randrange(8)
            w = c.r.choice(W)
            if q < 3:
                c.put(f"kx {w} s{c.r.randrange(12)} {h(c.mixed(16 * w))}")
            elif q < 5:
                c.put(f"kx {w} {c.r.randrange(4)} {h(c.mixed(16 * w))}")
            elif q == 5:
                c.put(f"rnd {w} {c.r.choice(OPS)} {h(c.mixed(16 * w))} {h(c.rb(16 * w))}")
            elif q == 6:
                f = c.r.choice(["mc", "imc"])
                c.put(f"mix {f} {h(c.rb(16))}")
            else:
                ks2 = ",".join(h(c.rb(16 * w)) for _ in range(c.r.randrange(1, 6)))
                c.put(f"chain {w} {c.r.choice(['enc', 'dec'])} {h(c.rb(16 * w))} {ks2}")
        c.put(f"fmt {c.r.choice(FMTS)} {h(c.rb(16))}")
        c.put(f"dbg 4 {c.r.choice('01')} {h(c.rb(64))}")
        c.put(f"cmp 4 isz {h(bytes(64))} {h(bytes(64))}")
        c.put(f"pack tour {h(c.rb(64))}")
        c.put(f"store 2 {c.r.randrange(32)} {h(c.rb(32))} {h(c.rb(40))}")
        c.put(f"slice 2 {c.r.randrange(32)} {h(c.rb(40))}")
    c.reset()
    c.put("shr")
    # what a thread does first in its process: no shared object, every kind of call comes first once
    cold = len(c.l)
    for n in KEYLEN:
        for v in "ED":
            c.reset()
            c.put(f"kn 0 {v} {h(c.rb(n))}")
            c.put(f"kx 1 0 {h(c.rb(16))}")
            c.put(f"kn 1 {v} {h(c.rb(n))}")
            c.put("kc 2 1")
            c.put(f"kx 4 2 {h(c.rb(64))}")
            c.put(f"kx 2 1 {h(c.rb(32))}")
    for w in W:
        for f in ("enc", "dec"):
            c.reset()
            c.put(f"rnd {w} {f} {h(c.rb(16 * w))} {h(c.rb(16 * w))}")
            c.put(f"rnd {w} {f}l {h(c.rb(16 * w))} {h(c.rb(16 * w))}")
            c.put(f"chain {w} {f} {h(c.rb(16 * w))} {','.join(h(c.rb(16 * w)) for _ in range(3))}")
    for f in ("mc", "imc"):
        c.reset()
        for _ in range(3):
            c.put(f"mix {f} {h(c.rb(16))}")
    for f in FMTS:
        c.reset()
        c.put(f"fmt {f} {h(c.rb(16))}")
    for f, n in PACKS.items():
        c.reset()
        c.put(f"pack {f} {h(c.rb(n))}")
    return cold


def C18(c):
    """all operations, at many alignments, with everything that may panic or be refused"""
    for w in W:
        n = 16 * w
        for d in ("enc", "dec"):
            c.add(f"chain {w} {d} {h(c.rb(n))} -")
            for m in range(1, 6):
                c.add(f"chain {w} {d} {h(c.mixed(n))} {','.join(h(c.mixed(n)) for _ in range(m))}")
        for ln in list(range(0, 2 * n + 2)):
            for m in (c.r.randrange(64), 100, 101):
                c.add(f"slice {w} {m} {h(c.rb(ln))}")
                if ln >= n:
                    c.add(f"store {w} {m} {h(c.rb(n))} {h(c.rb(ln))}")
        for ln in (0, 1, n // 2, n - 1):
            for m in (c.r.randrange(64), 100, 101):
                c.add(f"store {w} {m} {h(c.rb(n))} {h(c.rb(ln))}", 10)
    for x in [bytes(64), b"\xff" * 64] + [c.mixed(64) for _ in range(300 if c.t else 60)]:
        y = c.mixed(64)
        for w in W:
            n = 16 * w
            for f in OPS:
                c.add(f"rnd {w} {f} {h(x[:n])} {h(y[:n])}")
            for f in BITS:
                c.add(f"bit {w} {f} {h(x[:n])} {h(y[:n])}")
            for f in ("eq", "ne", "isz"):
                c.add(f"cmp {w} {f} {h(x[:n])} {h(y[:n])}")
            for a in "01":
                c.add(f"dbg {w} {a} {h(x[:n])}")
            for ct in ("new", "arr", "ref", "slice"):
                c.add(f"bytes {w} {ct} {c.r.choice(['arr', 'store', 'reg'])} {h(x[:n])}")
            for z in ("zero", "default", "const0", "const4"):
                c.add(f"bytes {w} {z} arr -")
        for f in FMTS:
            c.add(f"fmt {f} {h(x[:16])}")
        for f, n in PACKS.items():
            c.add(f"pack {f} {h(x[:n])}")
        for f in ("mc", "imc"):
            c.add(f"mix {f} {h(x[:16])}")
        for f in ("in", "out", "both"):
            c.add(f"u128 {f} {h(x[:16])}")
    for rep in range(30 if c.t else 10):
        for n in KEYLEN:
            c.reset()
            c.put(f"kn 0 {'ED'[rep % 2]} {h(c.key(n))}")
            c.put("kc 1 0")
            c.put("kl 2 1")
            c.put("kc 3 2")
            for s in range(4):
                for w in W:
                    c.put(f"kx {w} {s} {h(c.mixed(16 * w))}")
            c.put("kd 0")
            c.reset()


def C19(c):
    """the laws: only the last command of each is compared, and the law fixes its outcome.
    Returns the indexes of the lines whose outcomes count."""
    seen = set()

    def law(*ls):
        c.reset()
        for l in ls:
            c.put(l)
        seen.add(len(c.l) - 1)
    blocks = list(c.sweep(16))
    for i, x in enumerate(blocks + c.structured(16) + [c.mixed(16) for _ in range(2000 if c.t else 500)]):
        y, k = c.mixed(16), c.mixed(16)
        X, Y, K = h(x), h(y), h(k)
        full = c.t or i >= 4096
        z = h(bytes(16))
        if full or i % 2 == 0:
            law(f"mix mc {X} >1", "mix imc @1")
            law(f"rnd 1 encl {X} {z} >1", f"rnd 1 decl @1 {z}")
        if full or i % 2 == 1:
            law(f"mix imc {X} >1", "mix mc @1")
            law(f"rnd 1 decl {X} {z} >1", f"rnd 1 encl @1 {z}")
        if full or i % 4 == 2:
            law(f"bit 1 xor {X} {Y} >1", "mix mc @1 >1", f"mix mc {Y} >2", "bit 1 xor @1 @2 >1", "mix imc @1")
            law(f"bit 1 xor {X} {Y} >1", "mix imc @1 >1", f"mix imc {Y} >2", "bit 1 xor @1 @2 >1", "mix mc @1")
        if full or i % 2 == 0:
            law(f"rnd 1 enc {X} {K} >1", f"bit 1 xor @1 {K} >1", "mix imc @1 >1", f"rnd 1 decl @1 {z}")
    for w in W:
        for i in range(600 if c.t else 100):
            m = c.r.randrange(1, 12)
            n = 16 * w
            x = lanes_of(c, w, i) if w > 1 else c.mixed(16)
            ks = [c.mixed(n) for _ in range(m)]
            z = h(bytes(n))
            # forward: x ^ k1, enc k2 .. enc km; back with the keys reversed and imc-transformed
            c.reset()
            c.put(f"chain {w} enc {h(x)} {','.join(map(h, ks))} >1")
            if w == 1:
                # undo: the last key, then decl/imc in turn, through the chain of decryption rounds
                regs = []
                for j, k in enumerate(ks[1:-1][:6]):
                    c.put(f"mix imc {h(k)} >{j + 2}")
                    regs.append(f"@{j + 2}")
                if m <= 8:
                    if m == 1:
                        c.put(f"bit 1 xor @1 {h(ks[0])}")
                    else:
                        # imc(y ^ km) is the state before MixColumns of the last round
                        c.put(f"bit 1 xor @1 {h(ks[-1])} >1")
                        c.put("mix imc @1 >1")
                        c.put(f"chain 1 dec @1 {','.join([z] + regs[::-1])} >1")
                        c.put(f"rnd 1 decl @1 {h(ks[0])}")
                    seen.add(len(c.l) - 1)
    return seen


def mixed_behaviours(c, count, length=30):
    """random sequences over the whole interface"""
    r = c.r
    for _ in range(count):
        c.reset()
        live = []

        def opnd(w):
            return f"@{r.randrange(1, 5)}" if r.random() < 0.35 else h(c.mixed(16 * w))

        def keep():
            return f" >{r.randrange(1, 5)}" if r.random() < 0.6 else ""
        for _ in range(length):
            w = r.choice(W)
            q = r.randrange(16)
            if q < 2 or (q < 6 and not live):
                s = r.randrange(6)
                c.put(f"kn {s} {r.choice('ED')} {h(c.key(r.choice(KEYLEN)))}")
                live = sorted(set(live) | {s})
            elif q < 4:
                s = r.randrange(6)
                c.put(f"{r.choice(['kc', 'kc', 'kl', 'kf'])} {s} {r.choice(live)}")
                live = sorted(set(live) | {s})
            elif q < 6:
                c.put(f"kx {w} {r.choice(live)} {opnd(w)}{keep()}")
            elif q < 8:
                c.put(f"rnd {w} {r.choice(OPS)} {opnd(w)} {opnd(w)}{keep()}")
            elif q == 8:
                c.put(f"mix {r.choice(['mc', 'imc'])} {opnd(1)}{keep()}")
            elif q == 9:
                ks = ",".join(opnd(w) for _ in range(r.randrange(1, 6)))
                c.put(f"chain {w} {r.choice(['enc', 'dec'])} {opnd(w)} {ks}{keep()}")
            elif q == 10:
                c.put(f"bit {w} {r.choice(BITS)} {opnd(w)} {opnd(w)}{keep()}")
            elif q == 11:
                c.put(f"cmp {w} {r.choice(['eq', 'ne', 'isz'])} {opnd(w)} {opnd(w)}")
            elif q == 12:
                f = r.choice(list(PACKS))
                c.put(f"pack {f} {h(c.mixed(PACKS[f]))}")
            elif q == 13:
                fl = r.choice(["", f"~{r.randrange(1, 8)}"])
                c.put(r.choice([f"fmt {r.choice(FMTS)}{fl} {opnd(1)}", f"dbg {w} {r.choice('01')}{fl} {opnd(w)}",
                                f"fmtl {r.randrange(40)} {r.choice(FMTS)}{fl} {opnd(1)}",
                                f"kt {r.randrange(2)} {r.choice(live)}" if live else f"fmt x {opnd(1)}",
                                f"u128 {r.choice(['in', 'out', 'both'])} {h(c.mixed(16))}"]))
            elif q == 14:
                ln = r.randrange(0, 100)
                c.put(f"slice {w} {r.randrange(64)} {h(c.rb(ln))}")
            else:
                c.put(f"store {w} {r.randrange(64)} {opnd(w)} {h(c.rb(16 * w + r.randrange(30)))}")


def C07(c):
    c.add("shr")
    mixed_behaviours(c, 800 if c.t else 150)
    # a thin slice of every other corpus
    for f in (C05, C06, C08, C09, C10, C11, C12, C13, C14):
        d = Corpus(c.r.randrange(1 << 30), False)
        f(d)
        gs, cur = [], []
        for l in d.l:
            if l == "reset" and cur:
                gs.append(cur)
                cur = []
            cur.append(l)
        gs.append(cur)
        c.r.shuffle(gs)
        n = 0
        for g in gs:
            c.l += g
            n += len(g)
            if n > (4000 if c.t else 900):
                break
    for d in "ED":
        for n in KEYLEN:
            for i in range(200 if c.t else 40):
                if i % 10 == 0:
                    c.reset()
                c.put(f"kn 0 {d} {h(c.key(n))}")
                w = c.r.choice(W)
                c.put(f"kx {w} 0 {h(c.mixed(16 * w))}")
