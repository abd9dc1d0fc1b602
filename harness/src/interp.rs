//! Interpreter of one-line commands over the public API of `aes_crypto`.
//! No allocation and no std: the same code runs on every target.
//!
//! Operands are hexadecimal bytes (`-` for none) or `@i`, the i-th register of the width in use.
//! A trailing `>i` stores the resulting block in register i. Each command answers one line:
//! `ok HEX`, `err N`, or (see the drivers) `panic [HEX]`, `lost`.
use aes_crypto::*;
use core::fmt::{self, Write};

pub const OUT: usize = 1 << 16;

/// Fixed-size byte string
pub struct Buf<const N: usize> {
    pub d: [u8; N],
    pub n: usize,
}

impl<const N: usize> Buf<N> {
    pub const fn new() -> Self {
        Buf { d: [0; N], n: 0 }
    }
    pub fn put(&mut self, b: &[u8]) {
        self.d[self.n..self.n + b.len()].copy_from_slice(b);
        self.n += b.len();
    }
    pub fn bytes(&self) -> &[u8] {
        &self.d[..self.n]
    }
    pub fn hex(&mut self, b: &[u8]) {
        if b.is_empty() {
            self.put(b"-");
        }
        let h = b"0123456789abcdef";
        let (mut i, mut n) = (0, self.n);
        while i < b.len() {
            let x = b[i];
            self.d[n] = h[(x >> 4) as usize];
            self.d[n + 1] = h[(x & 15) as usize];
            n += 2;
            i += 1;
        }
        self.n = n;
    }
    pub fn num(&mut self, mut v: usize) {
        let mut t = [0u8; 24];
        let mut i = t.len();
        loop {
            i -= 1;
            t[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        self.put(&t[i..]);
    }
}

impl<const N: usize> fmt::Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.n + s.len() > N {
            return Err(fmt::Error);
        }
        self.put(s.as_bytes());
        Ok(())
    }
}

/// takes what fits, and no more
struct Room {
    d: Buf<2048>,
    room: usize,
}

impl fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.len().min(self.room - self.d.n);
        self.d.put(&s.as_bytes()[..n]);
        if n == s.len() {
            Ok(())
        } else {
            self.room = self.d.n;
            Err(fmt::Error)
        }
    }
}

struct Digest(u64);

impl fmt::Write for Digest {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// a format and the number of the further flags it is used with, `x` or `x~3`
fn flagged(s: &[u8]) -> (&[u8], u8) {
    match s.iter().position(|&c| c == b'~') {
        Some(i) => (&s[..i], s[i + 1] - b'0'),
        None => (s, 0),
    }
}

/// one format with other flags, none of which matters
macro_rules! forms {
    ($f:expr, $x:expr, $k:expr, $alt:literal, $ty:literal) => {
        match $k {
            0 => write!($f, concat!("{:", $alt, $ty, "}"), $x),
            1 => write!($f, concat!("{:+", $alt, $ty, "}"), $x),
            2 => write!($f, concat!("{:", $alt, "0150", $ty, "}"), $x),
            3 => write!($f, concat!("{:>", $alt, "200", $ty, "}"), $x),
            4 => write!($f, concat!("{:", $alt, ".3", $ty, "}"), $x),
            5 => write!($f, concat!("{:*^", $alt, "70", $ty, "}"), $x),
            6 => write!($f, concat!("{:-", $alt, "5", $ty, "}"), $x),
            _ => write!($f, concat!("{:<+", $alt, "0300.7", $ty, "}"), $x),
        }
    };
}

fn text(f: &mut dyn fmt::Write, spec: &[u8], k: u8, x: &AesBlock) -> fmt::Result {
    match spec {
        b"d" => forms!(f, x, k, "", ""),
        b"#d" => forms!(f, x, k, "#", ""),
        b"?" => forms!(f, x, k, "", "?"),
        b"#?" => forms!(f, x, k, "#", "?"),
        b"x?" => forms!(f, x, k, "", "x?"),
        b"X?" => forms!(f, x, k, "", "X?"),
        b"x" => forms!(f, x, k, "", "x"),
        b"#x" => forms!(f, x, k, "#", "x"),
        b"X" => forms!(f, x, k, "", "X"),
        b"#X" => forms!(f, x, k, "#", "X"),
        b"b" => forms!(f, x, k, "", "b"),
        b"#b" => forms!(f, x, k, "#", "b"),
        _ => bad("fmt"),
    }
}

fn nib(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => bad("hex"),
    }
}

/// A malformed command: a fault of the driver, never of the library.
pub fn bad(what: &str) -> ! {
    crate::harness_error(what)
}

/// The object named does not exist because the call that should have made it did not return.
#[cold]
#[inline(never)]
pub fn lost() -> ! {
    crate::sys::lost()
}

pub fn unhex<const N: usize>(s: &[u8]) -> Buf<N> {
    let mut b = Buf::new();
    if s == b"-" {
        return b;
    }
    let mut i = 0;
    while i + 1 < s.len() {
        b.d[b.n] = nib(s[i]) << 4 | nib(s[i + 1]);
        b.n += 1;
        i += 2;
    }
    b
}

pub fn dec(s: &[u8]) -> usize {
    let mut v = 0usize;
    for c in s {
        v = v * 10 + (*c - b'0') as usize;
    }
    v
}

#[derive(Clone)]
pub enum Cip {
    None,
    E128(Aes128Enc),
    E192(Aes192Enc),
    E256(Aes256Enc),
    D128(Aes128Dec),
    D192(Aes192Dec),
    D256(Aes256Dec),
}

fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    if b.len() != N {
        bad("length");
    }
    let mut a = [0; N];
    a.copy_from_slice(b);
    a
}

impl Cip {
    fn make(dir: &[u8], key: &[u8]) -> Cip {
        match (dir, key.len()) {
            (b"E", 16) => Cip::E128(arr::<16>(key).into()),
            (b"E", 24) => Cip::E192(arr::<24>(key).into()),
            (b"E", 32) => Cip::E256(arr::<32>(key).into()),
            (b"D", 16) => Cip::D128(arr::<16>(key).into()),
            (b"D", 24) => Cip::D192(arr::<24>(key).into()),
            (b"D", 32) => Cip::D256(arr::<32>(key).into()),
            _ => bad("key"),
        }
    }
    fn convert(&self) -> Cip {
        match self {
            Cip::E128(c) => Cip::D128(c.decrypter()),
            Cip::E192(c) => Cip::D192(c.decrypter()),
            Cip::E256(c) => Cip::D256(c.decrypter()),
            Cip::D128(c) => Cip::E128(c.encrypter()),
            Cip::D192(c) => Cip::E192(c.encrypter()),
            Cip::D256(c) => Cip::E256(c.encrypter()),
            Cip::None => lost(),
        }
    }
    #[inline(never)]
    fn debug(&self, f: &mut Digest, alt: bool) {
        let x: &dyn fmt::Debug = match self {
            Cip::E128(c) => c,
            Cip::E192(c) => c,
            Cip::E256(c) => c,
            Cip::D128(c) => c,
            Cip::D192(c) => c,
            Cip::D256(c) => c,
            Cip::None => lost(),
        };
        let _ = if alt { write!(f, "{x:#?}") } else { write!(f, "{x:?}") };
    }
    /// Clone::clone_from where both are of one kind
    #[inline(never)]
    fn assign(&mut self, s: &Cip) {
        match (self, s) {
            (Cip::E128(a), Cip::E128(b)) => a.clone_from(b),
            (Cip::E192(a), Cip::E192(b)) => a.clone_from(b),
            (Cip::E256(a), Cip::E256(b)) => a.clone_from(b),
            (Cip::D128(a), Cip::D128(b)) => a.clone_from(b),
            (Cip::D192(a), Cip::D192(b)) => a.clone_from(b),
            (Cip::D256(a), Cip::D256(b)) => a.clone_from(b),
            (a, b) => *a = b.clone(),
        }
    }
    #[inline(never)]
    fn x1(&self, x: AesBlock) -> AesBlock {
        match self {
            Cip::E128(c) => c.encrypt_block(x),
            Cip::E192(c) => c.encrypt_block(x),
            Cip::E256(c) => c.encrypt_block(x),
            Cip::D128(c) => c.decrypt_block(x),
            Cip::D192(c) => c.decrypt_block(x),
            Cip::D256(c) => c.decrypt_block(x),
            Cip::None => lost(),
        }
    }
    #[inline(never)]
    fn x2(&self, x: AesBlockX2) -> AesBlockX2 {
        match self {
            Cip::E128(c) => c.encrypt_2_blocks(x),
            Cip::E192(c) => c.encrypt_2_blocks(x),
            Cip::E256(c) => c.encrypt_2_blocks(x),
            Cip::D128(c) => c.decrypt_2_blocks(x),
            Cip::D192(c) => c.decrypt_2_blocks(x),
            Cip::D256(c) => c.decrypt_2_blocks(x),
            Cip::None => lost(),
        }
    }
    #[inline(never)]
    fn x4(&self, x: AesBlockX4) -> AesBlockX4 {
        match self {
            Cip::E128(c) => c.encrypt_4_blocks(x),
            Cip::E192(c) => c.encrypt_4_blocks(x),
            Cip::E256(c) => c.encrypt_4_blocks(x),
            Cip::D128(c) => c.decrypt_4_blocks(x),
            Cip::D192(c) => c.decrypt_4_blocks(x),
            Cip::D256(c) => c.decrypt_4_blocks(x),
            Cip::None => lost(),
        }
    }
}

pub const SLOTS: usize = 12;
pub const REGS: usize = 9; // register 0 is unused

pub struct St {
    pub cip: [Cip; SLOTS],
    r1: [AesBlock; REGS],
    r2: [AesBlockX2; REGS],
    r4: [AesBlockX4; REGS],
}

/// Memory for slices handed to the library: `place(len, mode)` returns an exactly `len` bytes long
/// region; mode 0..=63 asks for that alignment offset, 100 for a region ending at an inaccessible
/// page and 101 for one starting right after an inaccessible page (where the platform can do that).
pub trait Mem {
    fn place(&mut self, len: usize, mode: usize) -> &mut [u8];
    /// the bytes around the region last placed, to be checked for stray writes
    fn around_intact(&self) -> bool;
    /// tells the panic reporter where the region is
    fn done(&mut self);
    /// n keys of a chain, in memory that ends where they end
    fn keys<B: Copy + 'static>(&mut self, n: usize, z: B) -> impl core::ops::DerefMut<Target = [B]>;
}

impl St {
    pub fn new() -> St {
        const N: Cip = Cip::None;
        St {
            cip: [N; SLOTS],
            r1: [AesBlock::zero(); REGS],
            r2: [AesBlockX2::zero(); REGS],
            r4: [AesBlockX4::zero(); REGS],
        }
    }
}

/// The parts of the API that the three widths share.
pub trait Blk:
    Copy
    + 'static
    + PartialEq
    + fmt::Debug
    + core::ops::BitAnd<Output = Self>
    + core::ops::BitOr<Output = Self>
    + core::ops::BitXor<Output = Self>
    + core::ops::Not<Output = Self>
    + core::ops::BitAndAssign
    + core::ops::BitOrAssign
    + core::ops::BitXorAssign
    + Default
{
    const LEN: usize;
    fn c_new(b: &[u8]) -> Self;
    fn c_arr(b: &[u8]) -> Self;
    fn c_ref(b: &[u8]) -> Self;
    fn c_slice(b: &[u8]) -> Result<Self, usize>;
    fn c_zero() -> Self;
    fn c_const(i: usize) -> Self;
    fn out_arr(self, o: &mut [u8]);
    fn out_store(self, o: &mut [u8]);
    fn zerop(self) -> bool;
    fn round(self, op: &[u8], k: Self) -> Self;
    fn chain(self, op: &[u8], ks: &[Self]) -> Self;
    fn reg(st: &mut St, i: usize) -> &mut Self;
    fn crypt(c: &Cip, x: Self) -> Self;
}

pub const fn pat<const N: usize>(i: usize) -> [u8; N] {
    let mut a = [0u8; N];
    let mut j = 0;
    while j < N {
        a[j] = ((17 * i + 7 * j + j * j + 1) % 256) as u8;
        j += 1;
    }
    a
}

struct Of<T>(core::marker::PhantomData<T>);

// a method of the type itself comes before that of a trait, where its bound holds
trait Otherwise {
    fn send(&self) -> u8 {
        0
    }
    fn sync(&self) -> u8 {
        0
    }
}
impl<T> Otherwise for &Of<T> {}
impl<T: Send> Of<T> {
    fn send(&self) -> u8 {
        1
    }
}
impl<T: Sync> Of<T> {
    fn sync(&self) -> u8 {
        1
    }
}

macro_rules! each {
    ($($t:ty),*) => {
        [$((&Of::<$t>(core::marker::PhantomData)).send(), (&Of::<$t>(core::marker::PhantomData)).sync()),*]
    };
}

fn shareable() -> [u8; 18] {
    each!(AesBlock, AesBlockX2, AesBlockX4, Aes128Enc, Aes128Dec, Aes192Enc, Aes192Dec, Aes256Enc, Aes256Dec)
}

/// What threads share here whatever its type says: `shr` is what reports that they must not
pub struct Anyway<T>(pub T);
unsafe impl<T> Send for Anyway<T> {}
unsafe impl<T> Sync for Anyway<T> {}
impl<T> Anyway<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}

macro_rules! blk {
    ($t:ident, $n:literal, $reg:ident, $x:ident) => {
        impl Blk for $t {
            const LEN: usize = $n;
            #[inline(never)]
            fn c_new(b: &[u8]) -> Self {
                $t::new(arr::<$n>(b))
            }
            #[inline(never)]
            fn c_arr(b: &[u8]) -> Self {
                $t::from(arr::<$n>(b))
            }
            #[inline(never)]
            fn c_ref(b: &[u8]) -> Self {
                $t::from(<&[u8; $n]>::try_from(b).unwrap_or_else(|_| bad("ref")))
            }
            #[inline(never)]
            fn c_slice(b: &[u8]) -> Result<Self, usize> {
                $t::try_from(b)
            }
            fn c_zero() -> Self {
                $t::zero()
            }
            #[cfg(feature = "noconst")]
            fn c_const(_: usize) -> Self {
                panic!("cannot be evaluated at compile time")
            }
            #[cfg(not(feature = "noconst"))]
            fn c_const(i: usize) -> Self {
                const C: [$t; 4] = [
                    $t::new(pat::<$n>(0)),
                    $t::new(pat::<$n>(1)),
                    $t::new(pat::<$n>(2)),
                    $t::new(pat::<$n>(3)),
                ];
                static S: [$t; 2] = [$t::new(pat::<$n>(4)), $t::new(pat::<$n>(5))];
                if i < 4 {
                    C[i]
                } else {
                    S[i - 4]
                }
            }
            #[inline(never)]
            fn out_arr(self, o: &mut [u8]) {
                o.copy_from_slice(&<[u8; $n]>::from(self));
            }
            #[inline(never)]
            fn out_store(self, o: &mut [u8]) {
                self.store_to(o);
            }
            #[inline(never)]
            fn zerop(self) -> bool {
                self.is_zero()
            }
            #[inline(never)]
            fn round(self, op: &[u8], k: Self) -> Self {
                match op {
                    b"enc" => self.enc(k),
                    b"encl" => self.enc_last(k),
                    b"dec" => self.dec(k),
                    b"decl" => self.dec_last(k),
                    _ => bad("round"),
                }
            }
            #[inline(never)]
            fn chain(self, op: &[u8], ks: &[Self]) -> Self {
                match op {
                    b"enc" => self.chain_enc(ks),
                    b"dec" => self.chain_dec(ks),
                    _ => bad("chain"),
                }
            }
            fn reg(st: &mut St, i: usize) -> &mut Self {
                &mut st.$reg[i]
            }
            fn crypt(c: &Cip, x: Self) -> Self {
                c.$x(x)
            }
        }
    };
}

blk!(AesBlock, 16, r1, x1);
blk!(AesBlockX2, 32, r2, x2);
blk!(AesBlockX4, 64, r4, x4);

pub struct Toks<'a> {
    pub l: &'a [u8],
}

impl<'a> Toks<'a> {
    pub fn new(l: &'a [u8]) -> Self {
        Toks { l }
    }
    pub fn opt(&mut self) -> Option<&'a [u8]> {
        if self.l.is_empty() {
            return None;
        }
        let e = self.l.iter().position(|c| *c == b' ').unwrap_or(self.l.len());
        let (t, r) = self.l.split_at(e);
        self.l = if r.is_empty() { r } else { &r[1..] };
        Some(t)
    }
    pub fn next(&mut self) -> &'a [u8] {
        match self.opt() {
            Some(t) => t,
            None => bad("missing operand"),
        }
    }
    pub fn num(&mut self) -> usize {
        dec(self.next())
    }
}

pub type Out = Buf<OUT>;

fn operand<B: Blk>(st: &mut St, t: &[u8]) -> B {
    if t.first() == Some(&b'@') {
        *B::reg(st, dec(&t[1..]))
    } else {
        B::c_arr(unhex::<64>(t).bytes())
    }
}

fn give<B: Blk>(st: &mut St, v: B, t: &mut Toks, out: &mut Out) {
    let mut b = [0u8; 64];
    v.out_arr(&mut b[..B::LEN]);
    out.put(b"ok ");
    out.hex(&b[..B::LEN]);
    if let Some(r) = t.opt() {
        *B::reg(st, dec(&r[1..])) = v;
    }
}

fn flag(v: bool, out: &mut Out) {
    out.put(if v { b"ok 01" } else { b"ok 00" });
}

fn u128_of(b: &[u8]) -> u128 {
    let mut v = 0u128;
    for x in b {
        v = v * 256 + *x as u128;
    }
    v
}

fn u128_out(mut v: u128) -> [u8; 16] {
    let mut o = [0; 16];
    for i in (0..16).rev() {
        o[i] = (v % 256) as u8;
        v /= 256;
    }
    o
}

/// `wide` commands: those defined for the three widths
fn wide<B: Blk, M: Mem>(cmd: &[u8], st: &mut St, shared: Option<&St>, mem: &mut M, t: &mut Toks, out: &mut Out) {
    match cmd {
        b"rnd" => {
            let op = t.next();
            let x: B = operand(st, t.next());
            let k: B = operand(st, t.next());
            let v = x.round(op, k);
            give(st, v, t, out)
        }
        b"chain" => {
            let op = t.next();
            let x: B = operand(st, t.next());
            let l = t.next();
            let items = || l.split(|c| *c == b',').filter(|_| l != b"-");
            let mut ks = mem.keys(items().count(), B::c_zero());
            for (k, i) in ks.iter_mut().zip(items()) {
                *k = operand(st, i);
            }
            let v = x.chain(op, &ks);
            give(st, v, t, out)
        }
        // a chain of n keys: the first, and then the others over and over
        b"chainp" => {
            let op = t.next();
            let x: B = operand(st, t.next());
            let first = operand(st, t.next());
            let l = t.next();
            let n = t.num();
            let mut ks = mem.keys(n, first);
            for (k, i) in ks[1..].iter_mut().zip(core::iter::repeat(()).flat_map(|_| l.split(|c| *c == b','))) {
                *k = operand(st, i);
            }
            let v = x.chain(op, &ks);
            give(st, v, t, out)
        }
        b"bit" => {
            let op = t.next();
            let x: B = operand(st, t.next());
            let y: B = operand(st, t.next());
            let mut z = x;
            let v = match op {
                b"and" => x & y,
                b"or" => x | y,
                b"xor" => x ^ y,
                b"not" => !x,
                b"and=" => {
                    z &= y;
                    z
                }
                b"or=" => {
                    z |= y;
                    z
                }
                b"xor=" => {
                    z ^= y;
                    z
                }
                _ => bad("bit"),
            };
            give(st, v, t, out)
        }
        b"cmp" => {
            let op = t.next();
            let x: B = operand(st, t.next());
            let y: B = operand(st, t.next());
            flag(
                match op {
                    b"eq" => x == y,
                    b"ne" => x != y,
                    b"isz" => x.zerop(),
                    _ => bad("cmp"),
                },
                out,
            )
        }
        b"bytes" => {
            let ctor = t.next();
            let reader = t.next();
            let b = unhex::<64>(t.next());
            let v: B = match ctor {
                b"new" => B::c_new(b.bytes()),
                b"arr" => B::c_arr(b.bytes()),
                b"ref" => B::c_ref(b.bytes()),
                b"slice" => match B::c_slice(b.bytes()) {
                    Ok(v) => v,
                    Err(n) => {
                        out.put(b"err ");
                        out.num(n);
                        return;
                    }
                },
                b"zero" => B::c_zero(),
                b"default" => B::default(),
                b"const0" => B::c_const(0),
                b"const1" => B::c_const(1),
                b"const2" => B::c_const(2),
                b"const3" => B::c_const(3),
                b"const4" => B::c_const(4),
                b"const5" => B::c_const(5),
                _ => bad("ctor"),
            };
            let mut o = [0xa5u8; 64];
            match reader {
                b"arr" => v.out_arr(&mut o[..B::LEN]),
                b"store" => v.out_store(&mut o[..B::LEN]),
                b"reg" => {
                    *B::reg(st, 0) = v;
                    B::reg(st, 0).out_arr(&mut o[..B::LEN]);
                }
                _ => bad("reader"),
            }
            out.put(b"ok ");
            out.hex(&o[..B::LEN]);
        }
        b"slice" => {
            let mode = t.num();
            let b = unhex::<512>(t.next());
            let p = mem.place(b.n, mode);
            p.copy_from_slice(b.bytes());
            match B::c_slice(p) {
                Ok(v) => {
                    let mut o = [0u8; 64];
                    v.out_arr(&mut o[..B::LEN]);
                    out.put(b"ok ");
                    out.hex(&o[..B::LEN]);
                }
                Err(n) => {
                    out.put(b"err ");
                    out.num(n);
                }
            }
            if !mem.around_intact() {
                out.n = 0;
                out.put(b"stray");
            }
            mem.done();
        }
        b"store" => {
            let mode = t.num();
            let x: B = operand(st, t.next());
            let b = unhex::<512>(t.next());
            let p = mem.place(b.n, mode);
            p.copy_from_slice(b.bytes());
            x.out_store(p);
            out.put(b"ok ");
            out.hex(p);
            if !mem.around_intact() {
                out.n = 0;
                out.put(b"stray");
            }
            mem.done();
        }
        // long regions: n bytes, of which the leading ones are given
        b"bslice" | b"bstore" => {
            let n = t.num();
            let x: Option<B> = if cmd == b"bstore" { Some(operand(st, t.next())) } else { None };
            let b = unhex::<64>(t.next());
            let p = mem.place(n, 3);
            let watched = n.min(1 << 20);
            p[..watched].fill(0x5a);
            let h = b.n.min(n);
            p[..h].copy_from_slice(&b.bytes()[..h]);
            let mut stray = false;
            match x {
                Some(x) => {
                    x.out_store(p);
                    stray = !p[h..watched].iter().all(|b| *b == 0x5a) || !p[watched.max(n.saturating_sub(256))..].iter().all(|b| *b == 0);
                    out.put(b"ok ");
                    out.hex(&p[..h]);
                }
                None => match B::c_slice(p) {
                    Ok(v) => {
                        let mut o = [0u8; 64];
                        v.out_arr(&mut o[..B::LEN]);
                        out.put(b"ok ");
                        out.hex(&o[..B::LEN]);
                    }
                    Err(n) => {
                        out.put(b"err ");
                        out.num(n);
                    }
                },
            }
            if stray || !mem.around_intact() {
                out.n = 0;
                out.put(b"stray");
            }
            mem.done();
        }
        b"dbg" => {
            let (alt, flags) = flagged(t.next());
            let x: B = operand(st, t.next());
            let mut f = Buf::<2048>::new();
            let f = &mut f;
            let _ = if alt == b"1" { forms!(f, x, flags, "#", "?") } else { forms!(f, x, flags, "", "?") };
            out.put(b"ok ");
            out.hex(f.bytes());
        }
        b"kx" => {
            let s = t.next();
            let x: B = operand(st, t.next());
            let v = if s[0] == b's' {
                B::crypt(&shared.unwrap_or_else(|| bad("shared")).cip[dec(&s[1..])], x)
            } else {
                B::crypt(&st.cip[dec(s)], x)
            };
            give(st, v, t, out)
        }
        b"rep" => {
            // the same call many times over; reports the first result that differs, if any
            let n = t.num();
            let s = t.num();
            let x: B = operand(st, t.next());
            let v = B::crypt(&st.cip[s], x);
            for _ in 1..n {
                let w = B::crypt(&st.cip[s], x);
                if w != v {
                    return give(st, w, t, out);
                }
            }
            give(st, v, t, out)
        }
        b"set" => {
            let x: B = operand(st, t.next());
            give(st, x, t, out)
        }
        _ => bad("command"),
    }
}

fn sum(b: &[u8]) -> u64 {
    let mut s = b.len() as u64;
    for c in b {
        s = (s ^ *c as u64).wrapping_mul(0x100000001b3).rotate_left(13);
    }
    s
}

/// what an object just made does, that one that differs is not overwritten by the next
fn probe(st: &St, line: &[u8]) -> u64 {
    let mut t = Toks::new(line);
    match t.next() {
        b"kn" | b"kc" | b"kl" | b"kf" => {
            let mut b = [0u8; 64];
            for (i, x) in b.iter_mut().enumerate() {
                *x = i as u8;
            }
            let x: AesBlockX4 = Blk::c_arr(&b);
            let y = AesBlockX4::crypt(&st.cip[t.num()], x);
            y.out_arr(&mut b);
            sum(&b)
        }
        _ => 0,
    }
}

pub fn exec<M: Mem>(st: &mut St, shared: Option<&St>, mem: &mut M, line: &[u8], out: &mut Out) {
    let mut t = Toks::new(line);
    let cmd = t.next();
    match cmd {
        b"reset" => {
            *st = St::new();
            out.put(b"ok -");
        }
        // the same command many times over: its answer, or the first one that differs
        b"many" => {
            let n = t.num();
            let mut first = 0;
            for i in 0..n {
                out.n = 0;
                exec(st, shared, mem, t.l, out);
                let s = sum(out.bytes()) ^ probe(st, t.l);
                if i == 0 {
                    first = s;
                } else if s != first {
                    break;
                }
            }
        }
        b"kn" => {
            let s = t.num();
            let d = t.next();
            st.cip[s] = Cip::make(d, unhex::<32>(t.next()).bytes());
            out.put(b"ok -");
        }
        b"kc" => {
            let d = t.num();
            let s = t.next();
            let c = if s[0] == b's' {
                shared.unwrap_or_else(|| bad("shared")).cip[dec(&s[1..])].convert()
            } else {
                st.cip[dec(s)].convert()
            };
            st.cip[d] = c;
            out.put(b"ok -");
        }
        b"kl" => {
            let d = t.num();
            let s = t.num();
            let c = st.cip[s].clone();
            st.cip[d] = c;
            out.put(b"ok -");
        }
        b"kf" => {
            let d = t.num();
            let s = st.cip[t.num()].clone();
            st.cip[d].assign(&s);
            out.put(b"ok -");
        }
        b"kd" => {
            let s = t.num();
            st.cip[s] = Cip::None;
            out.put(b"ok -");
        }
        b"mix" => {
            let op = t.next();
            let x: AesBlock = operand(st, t.next());
            let v = match op {
                b"mc" => x.mc(),
                b"imc" => x.imc(),
                _ => bad("mix"),
            };
            give(st, v, &mut t, out)
        }
        b"u128" => {
            // in: from an integer; out: to an integer; both
            let how = t.next();
            let b = unhex::<16>(t.next());
            let o: [u8; 16] = match how {
                b"in" => AesBlock::from(u128_of(b.bytes())).into(),
                b"out" => u128_out(AesBlock::new(arr(b.bytes())).into()),
                b"both" => u128_out(AesBlock::from(u128_of(b.bytes())).into()),
                _ => bad("u128"),
            };
            out.put(b"ok ");
            out.hex(&o);
        }
        b"fmt" => {
            let (spec, flags) = flagged(t.next());
            let x: AesBlock = operand(st, t.next());
            let mut f = Buf::<2048>::new();
            let _ = text(&mut f, spec, flags, &x);
            out.put(b"ok ");
            out.hex(f.bytes());
        }
        // a text into a writer that has not enough room, perhaps
        b"fmtl" => {
            let room = t.num();
            let (spec, flags) = flagged(t.next());
            let x: AesBlock = operand(st, t.next());
            let mut f = Room { d: Buf::<2048>::new(), room };
            let r = text(&mut f, spec, flags, &x);
            out.put(if r.is_ok() { b"ok " } else { b"cut " });
            out.hex(f.d.bytes());
        }
        // what Debug makes of a cipher object: a digest of it
        b"kt" => {
            let mut f = Digest(0xcbf29ce484222325);
            let alt = t.num() == 1;
            st.cip[t.num()].debug(&mut f, alt);
            out.put(b"ok ");
            out.hex(&f.0.to_be_bytes());
        }
        // which types threads may hand to each other, and share
        b"shr" => {
            out.put(b"ok ");
            out.hex(&shareable());
        }
        b"pack" => {
            let kind = t.next();
            let b = unhex::<64>(t.next());
            let b = b.bytes();
            let l = |i: usize| AesBlock::new(arr(&b[16 * i..16 * i + 16]));
            let l2 = |i: usize| AesBlockX2::new(arr(&b[32 * i..32 * i + 32]));
            let mut o = Buf::<64>::new();
            let p1 = |o: &mut Buf<64>, x: AesBlock| o.put(&<[u8; 16]>::from(x));
            let p2 = |o: &mut Buf<64>, x: AesBlockX2| o.put(&<[u8; 32]>::from(x));
            let p4 = |o: &mut Buf<64>, x: AesBlockX4| o.put(&<[u8; 64]>::from(x));
            match kind {
                b"2from1s" => p2(&mut o, (l(0), l(1)).into()),
                b"2to1s" => {
                    let (a, b) = AesBlockX2::new(arr(b)).into();
                    p1(&mut o, a);
                    p1(&mut o, b);
                }
                b"4from1s" => p4(&mut o, (l(0), l(1), l(2), l(3)).into()),
                b"4to1s" => {
                    let (a, b, c, d) = AesBlockX4::new(arr(b)).into();
                    p1(&mut o, a);
                    p1(&mut o, b);
                    p1(&mut o, c);
                    p1(&mut o, d);
                }
                b"4from2s" => p4(&mut o, (l2(0), l2(1)).into()),
                b"4to2s" => {
                    let (a, b): (AesBlockX2, AesBlockX2) = AesBlockX4::new(arr(b)).into();
                    p2(&mut o, a);
                    p2(&mut o, b);
                }
                b"2of1" => p2(&mut o, l(0).into()),
                b"4of1" => p4(&mut o, l(0).into()),
                b"4of2" => p4(&mut o, l2(0).into()),
                // through every shape and back
                b"tour" => {
                    let (a, b, c, d) = AesBlockX4::new(arr(b)).into();
                    let x = AesBlockX4::from((AesBlockX2::from((a, b)), AesBlockX2::from((c, d))));
                    let (p, q): (AesBlockX2, AesBlockX2) = x.into();
                    let (a, b) = p.into();
                    let (c, d) = q.into();
                    p4(&mut o, (a, b, c, d).into());
                }
                _ => bad("pack"),
            }
            out.put(b"ok ");
            out.hex(o.bytes());
        }
        _ => match t.next() {
            b"1" => wide::<AesBlock, M>(cmd, st, shared, mem, &mut t, out),
            b"2" => wide::<AesBlockX2, M>(cmd, st, shared, mem, &mut t, out),
            b"4" => wide::<AesBlockX4, M>(cmd, st, shared, mem, &mut t, out),
            _ => bad("width"),
        },
    }
}
