//! A plain transcription of the specification's AesApi (spec/*.tla) that executes the same commands.
//! It decides nothing: the `mass` mode uses it to pick, out of millions of random behaviours, those
//! worth showing to TLC; and it is itself one of the implementations whose traces TLC validates.
use crate::interp::{bad, dec, unhex, Buf, Out, Toks, REGS, SLOTS};

fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
const fn mul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a, b, 0u8);
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}
const fn sboxes() -> ([u8; 256], [u8; 256]) {
    let mut s = [0u8; 256];
    let mut inv = [0u8; 256];
    let mut a = 0usize;
    while a < 256 {
        // a^254
        let (mut p, mut q, mut e) = (1u8, a as u8, 254u32);
        while e != 0 {
            if e & 1 == 1 {
                p = mul(p, q);
            }
            q = mul(q, q);
            e >>= 1;
        }
        let i = p;
        let v = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 99;
        s[a] = v;
        inv[v as usize] = a as u8;
        a += 1;
    }
    (s, inv)
}
const fn multab(m: u8) -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = mul(i as u8, m);
        i += 1;
    }
    t
}
static SB: ([u8; 256], [u8; 256]) = sboxes();
static MT: [[u8; 256]; 16] = {
    let mut t = [[0; 256]; 16];
    let mut i = 0;
    while i < 16 {
        t[i] = multab(i as u8);
        i += 1;
    }
    t
};

type B = [u8; 16];
type V = Buf<64>;

fn sub(s: B, t: &[u8; 256]) -> B {
    s.map(|b| t[b as usize])
}
fn shift(s: B, inv: bool) -> B {
    let mut o = [0; 16];
    for c in 0..4 {
        for r in 0..4 {
            let f = if inv { (c + 4 - r) % 4 } else { (c + r) % 4 };
            o[4 * c + r] = s[4 * f + r];
        }
    }
    o
}
fn mix(s: B, m: [usize; 4]) -> B {
    let mut o = [0; 16];
    for c in 0..4 {
        for r in 0..4 {
            for k in 0..4 {
                o[4 * c + r] ^= MT[m[(k + 4 - r) % 4]][s[4 * c + k] as usize];
            }
        }
    }
    o
}
const MC: [usize; 4] = [2, 3, 1, 1];
const IMC: [usize; 4] = [14, 11, 13, 9];
fn xor(a: B, b: B) -> B {
    let mut o = a;
    for i in 0..16 {
        o[i] ^= b[i];
    }
    o
}
fn round(f: &[u8], x: B, k: B) -> B {
    match f {
        b"enc" => xor(mix(sub(shift(x, false), &SB.0), MC), k),
        b"encl" => xor(sub(shift(x, false), &SB.0), k),
        b"dec" => xor(mix(sub(shift(x, true), &SB.1), IMC), k),
        b"decl" => xor(sub(shift(x, true), &SB.1), k),
        _ => bad("round"),
    }
}

#[derive(Clone, Copy)]
pub struct RefCip {
    dir: u8,
    nr: usize,
    rk: [B; 15],
}
const NONE: RefCip = RefCip { dir: 0, nr: 0, rk: [[0; 16]; 15] };

fn expand(key: &[u8]) -> (usize, [B; 15]) {
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w = [[0u8; 4]; 60];
    for i in 0..nk {
        w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
    }
    let mut rc = 1;
    for i in nk..4 * (nr + 1) {
        let mut t = w[i - 1];
        if i % nk == 0 {
            t = [t[1], t[2], t[3], t[0]].map(|b| SB.0[b as usize]);
            t[0] ^= rc;
            rc = xtime(rc);
        } else if nk > 6 && i % nk == 4 {
            t = t.map(|b| SB.0[b as usize]);
        }
        for j in 0..4 {
            w[i][j] = w[i - nk][j] ^ t[j];
        }
    }
    let mut rk = [[0; 16]; 15];
    for r in 0..=nr {
        for i in 0..16 {
            rk[r][i] = w[4 * r + i / 4][i % 4];
        }
    }
    (nr, rk)
}
fn crypt(c: &RefCip, x: B) -> B {
    let n = c.nr;
    if c.dir == b'E' {
        let mut s = xor(x, c.rk[0]);
        for r in 1..n {
            s = xor(mix(shift(sub(s, &SB.0), false), MC), c.rk[r]);
        }
        xor(shift(sub(s, &SB.0), false), c.rk[n])
    } else {
        let mut s = xor(x, c.rk[n]);
        for r in (1..n).rev() {
            s = mix(xor(sub(shift(s, true), &SB.1), c.rk[r]), IMC);
        }
        xor(sub(shift(s, true), &SB.1), c.rk[0])
    }
}

pub struct RefSt {
    cip: [RefCip; SLOTS],
    reg: [[[u8; 64]; REGS]; 5],
}

fn lane(v: &[u8], i: usize) -> B {
    let mut b = [0; 16];
    b.copy_from_slice(&v[16 * i..16 * i + 16]);
    b
}
fn operand(st: &RefSt, w: usize, t: &[u8]) -> V {
    if t[0] == b'@' {
        let mut v = V::new();
        v.put(&st.reg[w][dec(&t[1..])][..16 * w]);
        v
    } else {
        unhex::<64>(t)
    }
}
fn lanewise(v: &V, f: impl Fn(usize, B) -> B) -> V {
    let mut o = V::new();
    for i in 0..v.n / 16 {
        o.put(&f(i, lane(v.bytes(), i)));
    }
    o
}
fn give(st: &mut RefSt, w: usize, v: V, t: &mut Toks, out: &mut Out) {
    out.put(b"ok ");
    out.hex(v.bytes());
    if let Some(r) = t.opt() {
        st.reg[w][dec(&r[1..])][..16 * w].copy_from_slice(v.bytes());
    }
}
fn hexed(o: &mut Buf<2048>, v: &[u8], up: bool) {
    for b in v {
        for d in [b / 16, b % 16] {
            o.put(&[if d < 10 { b'0' + d } else { (if up { b'A' } else { b'a' }) + d - 10 }]);
        }
    }
}
fn disp(o: &mut Buf<2048>, v: &[u8], alt: bool) {
    hexed(o, v, alt);
}

impl RefSt {
    pub fn new() -> Self {
        RefSt { cip: [NONE; SLOTS], reg: [[[0; 64]; REGS]; 5] }
    }
}

pub fn exec(st: &mut RefSt, line: &[u8], out: &mut Out) {
    let mut t = Toks::new(line);
    let cmd = t.next();
    match cmd {
        b"many" => {
            t.num();
            exec(st, t.l, out)
        }
        b"reset" => {
            *st = RefSt::new();
            out.put(b"ok -")
        }
        b"kn" => {
            let s = t.num();
            let d = t.next()[0];
            let (nr, rk) = expand(unhex::<32>(t.next()).bytes());
            st.cip[s] = RefCip { dir: d, nr, rk };
            out.put(b"ok -")
        }
        b"kc" => {
            let d = t.num();
            let mut c = st.cip[t.num()];
            c.dir = if c.dir == b'E' { b'D' } else { b'E' };
            st.cip[d] = c;
            out.put(b"ok -")
        }
        b"kl" | b"kf" => {
            let d = t.num();
            st.cip[d] = st.cip[t.num()];
            out.put(b"ok -")
        }
        b"kd" => {
            st.cip[t.num()] = NONE;
            out.put(b"ok -")
        }
        b"mix" => {
            let op = t.next();
            let x = operand(st, 1, t.next());
            let v = lanewise(&x, |_, b| mix(b, if op == b"mc" { MC } else { IMC }));
            give(st, 1, v, &mut t, out)
        }
        b"u128" => {
            t.next();
            out.put(b"ok ");
            out.put(t.next())
        }
        b"shr" => {
            out.put(b"ok ");
            out.hex(&[1; 18])
        }
        b"kt" => out.put(b"ok -"),     // nothing is said about it but that it is always the same
        b"fmt" | b"fmtl" => {
            let room = if cmd == b"fmtl" { t.num() } else { 2048 };
            let s = t.next();
            let s = s.split(|&c| c == b'~').next().unwrap();
            let x = operand(st, 1, t.next());
            let mut f = Buf::<2048>::new();
            let alt = s[0] == b'#';
            match s[s.len() - 1] {
                b'd' | b'?' => disp(&mut f, x.bytes(), alt),
                b'x' | b'X' => {
                    let up = s[s.len() - 1] == b'X';
                    if alt {
                        f.put(if up { b"0X" } else { b"0x" });
                    }
                    hexed(&mut f, x.bytes(), up)
                }
                _ => {
                    if alt {
                        f.put(b"0b");
                    }
                    for b in x.bytes() {
                        for i in (0..8).rev() {
                            f.put(&[b'0' + (b >> i & 1)]);
                        }
                    }
                }
            }
            if f.n <= room {
                out.put(b"ok ");
                out.hex(f.bytes())
            } else {
                out.put(b"cut ");
                out.hex(&f.bytes()[..room])
            }
        }
        b"pack" => {
            let k = t.next();
            let h = t.next();
            out.put(b"ok ");
            for _ in 0..match k {
                b"2of1" | b"4of2" => 2,
                b"4of1" => 4,
                _ => 1,
            } {
                out.put(h)
            }
        }
        _ => {
            let w = t.num();
            wide(st, cmd, w, &mut t, out)
        }
    }
}

fn wide(st: &mut RefSt, cmd: &[u8], w: usize, t: &mut Toks, out: &mut Out) {
    match cmd {
        b"kx" => {
            let c = st.cip[t.num()];
            let x = operand(st, w, t.next());
            let v = lanewise(&x, |_, b| crypt(&c, b));
            give(st, w, v, t, out)
        }
        b"rep" => {
            t.next();
            wide(st, b"kx", w, t, out)
        }
        b"rnd" => {
            let f = t.next();
            let x = operand(st, w, t.next());
            let k = operand(st, w, t.next());
            let v = lanewise(&x, |i, b| round(f, b, lane(k.bytes(), i)));
            give(st, w, v, t, out)
        }
        b"chain" => {
            let f = t.next();
            let mut x = operand(st, w, t.next());
            let l = t.next();
            if l == b"-" {
                out.put(b"panic");
                return;
            }
            for (n, k) in l.split(|c| *c == b',').enumerate() {
                let k = operand(st, w, k);
                x = lanewise(&x, |i, b| {
                    let k = lane(k.bytes(), i);
                    if n == 0 {
                        xor(b, k)
                    } else {
                        round(f, b, k)
                    }
                });
            }
            give(st, w, x, t, out)
        }
        b"chainp" => {
            let f = t.next();
            let mut x = operand(st, w, t.next());
            let first = operand(st, w, t.next());
            let l = t.next();
            let n = t.num();
            x = lanewise(&x, |i, b| xor(b, lane(first.bytes(), i)));
            for k in core::iter::repeat(()).flat_map(|_| l.split(|c| *c == b',')).take(n - 1) {
                let k = operand(st, w, k);
                x = lanewise(&x, |i, b| round(f, b, lane(k.bytes(), i)));
            }
            give(st, w, x, t, out)
        }
        b"bit" => {
            let f = t.next();
            let x = operand(st, w, t.next());
            let y = operand(st, w, t.next());
            let mut v = V::new();
            for i in 0..x.n {
                let (a, b) = (x.d[i], y.d[i]);
                v.put(&[match f[0] {
                    b'a' => a & b,
                    b'o' => a | b,
                    b'x' => a ^ b,
                    _ => !a,
                }]);
            }
            give(st, w, v, t, out)
        }
        b"cmp" => {
            let f = t.next();
            let x = operand(st, w, t.next());
            let y = operand(st, w, t.next());
            let v = match f {
                b"eq" => x.bytes() == y.bytes(),
                b"ne" => x.bytes() != y.bytes(),
                _ => x.bytes().iter().all(|b| *b == 0),
            };
            out.put(if v { b"ok 01" } else { b"ok 00" })
        }
        b"bytes" => {
            let c = t.next();
            t.next();
            let h = unhex::<64>(t.next());
            let mut o = V::new();
            match c {
                b"zero" | b"default" => o.put(&[0; 64][..16 * w]),
                _ if c.starts_with(b"const") => {
                    let i = dec(&c[5..]);
                    for j in 0..16 * w {
                        o.put(&[((17 * i + 7 * j + j * j + 1) % 256) as u8]);
                    }
                }
                _ => o = h,
            }
            out.put(b"ok ");
            out.hex(o.bytes())
        }
        b"slice" => {
            t.next();
            let h = unhex::<512>(t.next());
            if h.n >= 16 * w {
                out.put(b"ok ");
                out.hex(&h.d[..16 * w])
            } else {
                out.put(b"err ");
                out.num(h.n)
            }
        }
        b"store" => {
            t.next();
            let x = operand(st, w, t.next());
            let mut h = unhex::<512>(t.next());
            if h.n >= 16 * w {
                h.d[..16 * w].copy_from_slice(x.bytes());
                out.put(b"ok ")
            } else {
                out.put(b"panic ")
            }
            out.hex(h.bytes())
        }
        b"bslice" => {
            let (n, h) = (t.num(), unhex::<64>(t.next()));
            if n >= 16 * w {
                out.put(b"ok ");
                out.hex(&h.d[..16 * w])
            } else {
                out.put(b"err ");
                out.num(n)
            }
        }
        b"bstore" => {
            t.next();
            let x = operand(st, w, t.next());
            let mut h = unhex::<64>(t.next());
            h.d[..16 * w].copy_from_slice(x.bytes());
            out.put(b"ok ");
            out.hex(h.bytes())
        }
        b"dbg" => {
            let alt = t.next()[0] == b'1';
            let x = operand(st, w, t.next());
            let mut f = Buf::<2048>::new();
            if w == 1 {
                disp(&mut f, x.bytes(), alt)
            } else {
                f.put(if alt { b"(\n" } else { b"(" });
                for i in 0..w {
                    if alt {
                        f.put(b"    ");
                    } else if i > 0 {
                        f.put(b", ");
                    }
                    disp(&mut f, &lane(x.bytes(), i), alt);
                    if alt {
                        f.put(b",\n");
                    }
                }
                f.put(b")");
            }
            out.put(b"ok ");
            out.hex(f.bytes())
        }
        b"set" => {
            let x = operand(st, w, t.next());
            give(st, w, x, t, out)
        }
        _ => bad("command"),
    }
}
