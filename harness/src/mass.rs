//! Random behaviours, generated in place: `mass MASK SEED N` runs about N commands on the library and
//! on the reference, and prints the behaviour (from its `reset`) that first makes them differ.
use crate::interp::{dec, Buf, Toks};

pub const GROUP: usize = 1 << 15;
pub type Group = Buf<GROUP>;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567890abcdef);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        if self.0 == 0 {
            self.0 = 1;
        }
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545f4914f6cdd1d) >> 16
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

pub struct Gen {
    r: Rng,
    last: [u8; 64],
    key: [u8; 32],
    live: [u8; 6], // key length of the object in each slot, 0 for none
    line: Buf<8192>,
}

const EDGE: [u8; 12] = [0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x63, 0x52, 0x1b, 0x55];

impl Gen {
    pub fn new(seed: u64) -> Gen {
        Gen { r: Rng::new(seed), last: [0; 64], key: [0; 32], live: [0; 6], line: Buf::new() }
    }
    /// bytes of several kinds: uniform, extreme, sparse, repeating, or close to earlier ones
    fn bytes(&mut self, n: usize) -> [u8; 64] {
        let mut b = [0u8; 64];
        match self.r.below(8) {
            0 => {
                for x in &mut b[..n] {
                    *x = EDGE[self.r.below(12)]
                }
            }
            1 => {
                for _ in 0..=self.r.below(3) {
                    b[self.r.below(n)] = self.r.next() as u8
                }
            }
            2 => {
                let p = [1, 2, 4, 8, 16, 32][self.r.below(6)];
                for i in 0..n {
                    b[i] = if i < p { self.r.next() as u8 } else { b[i - p] }
                }
            }
            3 => {
                b = self.last;
                for _ in 0..self.r.below(3) {
                    b[self.r.below(n)] ^= 1 << self.r.below(8)
                }
            }
            4 => {
                for (i, x) in b[..n].iter_mut().enumerate() {
                    *x = !self.last[i]
                }
                if self.r.one_in(2) {
                    b[self.r.below(n)] ^= 1 << self.r.below(8)
                }
            }
            _ => {
                for x in &mut b[..n] {
                    *x = self.r.next() as u8
                }
            }
        }
        self.last[..n].copy_from_slice(&b[..n]);
        b
    }
    fn lit(&mut self, n: usize) {
        let b = self.bytes(n);
        self.line.hex(&b[..n]);
    }
    fn opnd(&mut self, w: usize) {
        self.line.put(b" ");
        if self.r.one_in(4) {
            self.line.put(b"@");
            let i = 1 + self.r.below(4);
            self.line.num(i);
        } else {
            self.lit(16 * w);
        }
    }
    fn keep(&mut self) {
        if self.r.one_in(2) {
            self.line.put(b" >");
            let i = 1 + self.r.below(4);
            self.line.num(i);
        }
    }
    fn word(&mut self, s: &[u8]) {
        if self.line.n > 0 {
            self.line.put(b" ");
        }
        self.line.put(s);
    }
    fn num(&mut self, n: usize) {
        self.line.put(b" ");
        self.line.num(n);
    }
    fn pick<'a>(&mut self, l: &[&'a [u8]]) -> &'a [u8] {
        l[self.r.below(l.len())]
    }
    pub fn start(&mut self) {
        self.live = [0; 6];
    }
    /// one command of a kind allowed by `mask`
    pub fn command(&mut self, mask: usize) -> &[u8] {
        self.line.n = 0;
        let w = [1, 2, 4][self.r.below(3)];
        loop {
            let k = self.r.below(10);
            if mask >> k & 1 == 0 {
                continue;
            }
            match k {
                0 => {
                    // cipher objects
                    let s = self.r.below(6);
                    let u = self.r.below(6);
                    match self.r.below(8) {
                        0 => {
                            self.word(b"kn");
                            self.num(s);
                            let d = self.pick(&[b"E", b"D"]);
                            self.word(d);
                            let n = [16, 24, 32][self.r.below(3)];
                            if self.r.one_in(2) {
                                let b = self.bytes(32);
                                self.key.copy_from_slice(&b[..32]);
                            } else {
                                match self.r.below(3) {
                                    0 => self.key[self.r.below(32)] ^= 1 << self.r.below(8),
                                    1 => self.key.rotate_left(4 * self.r.below(8)),
                                    _ => {}
                                }
                            }
                            self.line.put(b" ");
                            let k = self.key;
                            self.line.hex(&k[..n]);
                            self.live[s] = n as u8;
                        }
                        1 if self.live[u] != 0 => {
                            self.word(b"kc");
                            self.num(s);
                            self.num(u);
                            self.live[s] = self.live[u];
                        }
                        2 if self.live[u] != 0 => {
                            let o = self.pick(&[b"kl", b"kf"]);
                            self.word(o);
                            self.num(s);
                            self.num(u);
                            self.live[s] = self.live[u];
                        }
                        3 if self.r.one_in(6) => {
                            self.word(b"kd");
                            self.num(s);
                            self.live[s] = 0;
                        }
                        _ if self.live[u] != 0 => {
                            self.word(b"kx");
                            self.num(w);
                            self.num(u);
                            self.opnd(w);
                            self.keep();
                        }
                        _ => continue,
                    }
                }
                1 => {
                    self.word(b"rnd");
                    self.num(w);
                    let f = self.pick(&[b"enc", b"encl", b"dec", b"decl"]);
                    self.word(f);
                    self.opnd(w);
                    self.opnd(w);
                    self.keep();
                }
                2 => {
                    self.word(b"mix");
                    let f = self.pick(&[b"mc", b"imc"]);
                    self.word(f);
                    self.opnd(1);
                    self.keep();
                }
                3 => {
                    self.word(b"chain");
                    self.num(w);
                    let f = self.pick(&[b"enc", b"dec"]);
                    self.word(f);
                    self.opnd(w);
                    self.line.put(b" ");
                    let n = 1 + if self.r.one_in(8) { self.r.below(40) } else { self.r.below(6) };
                    for i in 0..n {
                        if i > 0 {
                            self.line.put(b",");
                        }
                        self.lit(16 * w);
                    }
                    self.keep();
                }
                4 => {
                    self.word(b"bit");
                    self.num(w);
                    let f = self.pick(&[b"and", b"or", b"xor", b"not", b"and=", b"or=", b"xor="]);
                    self.word(f);
                    self.opnd(w);
                    self.opnd(w);
                    self.keep();
                }
                5 => {
                    self.word(b"cmp");
                    self.num(w);
                    let f = self.pick(&[b"eq", b"ne", b"isz"]);
                    self.word(f);
                    self.opnd(w);
                    self.opnd(w);
                }
                6 => {
                    self.word(b"pack");
                    let f = self.pick(&[
                        b"2from1s", b"2to1s", b"4from1s", b"4to1s", b"4from2s", b"4to2s", b"2of1", b"4of1", b"4of2",
                        b"tour",
                    ]);
                    self.word(f);
                    self.line.put(b" ");
                    let n = match f {
                        b"2of1" | b"4of1" => 16,
                        b"2from1s" | b"2to1s" | b"4of2" => 32,
                        _ => 64,
                    };
                    self.lit(n);
                }
                7 => {
                    if self.r.one_in(4) {
                        self.word(b"u128");
                        let f = self.pick(&[b"in", b"out", b"both"]);
                        self.word(f);
                        self.line.put(b" ");
                        self.lit(16);
                    } else {
                        self.word(b"bytes");
                        self.num(w);
                        let c = self.pick(&[b"new", b"arr", b"ref", b"slice"]);
                        self.word(c);
                        let c = self.pick(&[b"arr", b"store", b"reg"]);
                        self.word(c);
                        self.line.put(b" ");
                        self.lit(16 * w);
                    }
                }
                8 => {
                    let st = self.r.one_in(2);
                    self.word(if st { b"store" } else { b"slice" });
                    self.num(w);
                    let m = self.r.below(64);
                    self.num(m);
                    if st {
                        self.opnd(w);
                    }
                    self.line.put(b" ");
                    let n = if st { 16 * w + self.r.below(40) } else { self.r.below(120) };
                    if n == 0 {
                        self.line.put(b"-");
                    } else {
                        let mut left = n;
                        while left > 0 {
                            let m = left.min(64);
                            self.lit(m);
                            left -= m;
                        }
                    }
                }
                _ => {
                    if self.r.one_in(2) {
                        self.word(b"fmt");
                        let f = self.pick(&[b"d", b"#d", b"?", b"#?", b"x?", b"X?", b"x", b"#x", b"X", b"#X", b"b", b"#b"]);
                        self.word(f);
                        self.opnd(1);
                    } else {
                        self.word(b"dbg");
                        self.num(w);
                        let f = self.pick(&[b"0", b"1"]);
                        self.word(f);
                        self.opnd(w);
                    }
                }
            }
            return self.line.bytes();
        }
    }
}

/// mask, seed, number of commands
pub fn params(line: &[u8]) -> (usize, u64, usize) {
    let mut t = Toks::new(line);
    t.next();
    let mask = t.num();
    let seed = dec(t.next()) as u64;
    (mask, seed, t.num())
}

/// `one` runs a command on the library and on the reference and tells whether they agree
pub fn run(line: &[u8], group: &mut Group, gen: &mut Gen, mut one: impl FnMut(&[u8]) -> bool) -> bool {
    let (mask, seed, n) = params(line);
    *gen = Gen::new(seed);
    let mut done = 0;
    while done < n {
        gen.start();
        group.n = 0;
        group.put(b"reset");
        one(b"reset");
        let len = 1 + gen.r.below(24);
        for _ in 0..len {
            let c = gen.command(mask);
            if group.n + c.len() + 1 > GROUP {
                break;
            }
            group.put(b";");
            group.put(c);
            done += 1;
            if !one(c) {
                return false;
            }
        }
    }
    true
}
