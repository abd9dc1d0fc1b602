//! Operations of the library on raw secret bytes, for watching what an observer of control flow and addresses sees.
//! `leak_run` branches on the public parameters only (which operation, how many keys, how long a buffer).
//! A line `leak NAME N HEX` runs one of them.
use crate::interp::*;
use aes_crypto::*;
use core::hint::black_box;

pub const SECRET: usize = 2048;
pub const NAMES: [&str; 62] = [
    "e128", "e192", "e256", "d128", "d192", "d256", "c128", "c192", "c256", "setup128", "setup192", "setup256",
    "enc1", "enc_last1", "dec1", "dec_last1", "mc", "imc",
    "enc2", "enc_last2", "dec2", "dec_last2",
    "enc4", "enc_last4", "dec4", "dec_last4",
    "chain_enc1", "chain_dec1", "chain_enc2", "chain_dec2", "chain_enc4", "chain_dec4",
    "and1", "or1", "xor1", "not1", "and2", "or2", "xor2", "not2", "and4", "or4", "xor4", "not4",
    "assign1", "assign2", "assign4",
    "bytes1", "bytes2", "bytes4", "parse1", "parse2", "parse4", "store1", "store2", "store4", "u128", "pack", "split", "spread",
    "control_table", "control_branch",
];

struct Rd(*const u8);
impl Rd {
    #[inline(always)]
    fn get<const N: usize>(&mut self) -> [u8; N] {
        unsafe {
            let v = self.0.cast::<[u8; N]>().read_unaligned();
            self.0 = self.0.add(N);
            v
        }
    }
    #[inline(always)]
    fn b<const N: usize, T: From<[u8; N]>>(&mut self) -> T {
        T::from(self.get::<N>())
    }
}
struct Wr(*mut u8);
impl Wr {
    #[inline(always)]
    fn put<const N: usize, T: Into<[u8; N]>>(&mut self, v: T) {
        unsafe {
            self.0.cast::<[u8; N]>().write_unaligned(v.into());
            self.0 = self.0.add(N);
        }
    }
}

macro_rules! cipher {
    ($($f:ident $g:ident $h:ident $s:ident $e:ident $d:ident $n:literal),*) => {$(
        #[inline(never)]
        fn $f(r: &mut Rd, w: &mut Wr) {
            let c = $e::from(r.get::<$n>());
            w.put::<16, _>(c.encrypt_block(r.b::<16, _>()));
            w.put::<32, _>(c.encrypt_2_blocks(r.b::<32, _>()));
            w.put::<64, _>(c.encrypt_4_blocks(r.b::<64, _>()));
        }
        #[inline(never)]
        fn $g(r: &mut Rd, w: &mut Wr) {
            let c = $d::from(r.get::<$n>());
            w.put::<16, _>(c.decrypt_block(r.b::<16, _>()));
            w.put::<32, _>(c.decrypt_2_blocks(r.b::<32, _>()));
            w.put::<64, _>(c.decrypt_4_blocks(r.b::<64, _>()));
        }
        #[inline(never)]
        fn $h(r: &mut Rd, w: &mut Wr) {
            let e = $e::from(r.get::<$n>());
            let d = black_box(e.decrypter());
            let f = black_box(d.encrypter());
            let mut g = black_box(f.clone());
            let h = black_box(d.clone());
            w.put::<16, _>(g.encrypt_block(r.b::<16, _>()));
            w.put::<16, _>(h.decrypt_block(r.b::<16, _>()));
            g.clone_from(&e);
            w.put::<16, _>(black_box(g).encrypt_block(r.b::<16, _>()));
        }
        #[inline(never)]
        fn $s(r: &mut Rd) {
            let k = r.get::<$n>();
            black_box($e::from(black_box(k)));
            black_box($d::from(black_box(k)));
        }
    )*};
}
cipher!(e128 d128 c128 s128 Aes128Enc Aes128Dec 16, e192 d192 c192 s192 Aes192Enc Aes192Dec 24,
        e256 d256 c256 s256 Aes256Enc Aes256Dec 32);

macro_rules! vector {
    ($($m:ident $t:ident $n:literal),*) => {$(mod $m {
        use super::*;
        type T = $t;
        const N: usize = $n;
        #[inline(never)]
        pub fn round(k: usize, r: &mut Rd, w: &mut Wr) {
            let x: T = r.b::<N, _>();
            let y: T = r.b::<N, _>();
            w.put::<N, _>(match k {
                0 => x.enc(y),
                1 => x.enc_last(y),
                2 => x.dec(y),
                _ => x.dec_last(y),
            });
        }
        #[inline(never)]
        pub fn chain(k: usize, n: usize, r: &mut Rd, w: &mut Wr) {
            let x: T = r.b::<N, _>();
            let mut ks = [T::zero(); 16];
            let mut i = 0;
            while i < n {
                ks[i] = r.b::<N, _>();
                i += 1;
            }
            let ks = black_box(&ks);
            w.put::<N, _>(if k == 0 { x.chain_enc(&ks[..n]) } else { x.chain_dec(&ks[..n]) });
        }
        #[inline(never)]
        pub fn bits(k: usize, r: &mut Rd, w: &mut Wr) {
            let x: T = r.b::<N, _>();
            let y: T = r.b::<N, _>();
            w.put::<N, _>(match k {
                0 => x & y,
                1 => x | y,
                2 => x ^ y,
                _ => !x,
            });
        }
        #[inline(never)]
        pub fn assign(r: &mut Rd, w: &mut Wr) {
            let mut x: T = r.b::<N, _>();
            let y: T = r.b::<N, _>();
            x &= black_box(y);
            w.put::<N, _>(black_box(x));
            x |= black_box(y);
            w.put::<N, _>(black_box(x));
            x ^= black_box(y);
            w.put::<N, _>(black_box(x));
        }
        #[inline(never)]
        pub fn bytes(r: &mut Rd, w: &mut Wr) {
            let x = r.get::<N>();
            w.put::<N, _>(black_box(T::from(black_box(x))));
            w.put::<N, _>(black_box(T::from(black_box(&x))));
            w.put::<N, _>(black_box(T::new(black_box(x))));
        }
        #[inline(never)]
        pub fn parse(n: usize, r: &mut Rd, w: &mut Wr) {
            let s = unsafe { core::slice::from_raw_parts(r.0, n) };
            if let Ok(x) = T::try_from(black_box(s)) {
                w.put::<N, _>(black_box(x));
            }
        }
        #[inline(never)]
        pub fn store(n: usize, r: &mut Rd, w: &mut Wr) {
            let x: T = r.b::<N, _>();
            let d = unsafe { core::slice::from_raw_parts_mut(w.0, n) };
            black_box(x).store_to(black_box(d));
        }
    })*};
}
vector!(v1 AesBlock 16, v2 AesBlockX2 32, v4 AesBlockX4 64);

#[inline(never)]
fn pack(r: &mut Rd, w: &mut Wr) {
    let (a, b, c, d): (AesBlock, AesBlock, AesBlock, AesBlock) = (r.b::<16, _>(), r.b::<16, _>(), r.b::<16, _>(), r.b::<16, _>());
    let p = black_box(AesBlockX2::from((a, b)));
    w.put::<32, _>(p);
    w.put::<64, _>(AesBlockX4::from((a, b, c, d)));
    w.put::<64, _>(AesBlockX4::from((black_box(AesBlockX2::from((c, d))), p)));
}
#[inline(never)]
fn split(r: &mut Rd, w: &mut Wr) {
    let x: AesBlockX4 = r.b::<64, _>();
    let (a, b, c, d) = x.into();
    for y in [a, b, c, d] {
        w.put::<16, _>(black_box(y));
    }
    let (p, q): (AesBlockX2, AesBlockX2) = x.into();
    w.put::<32, _>(black_box(p));
    w.put::<32, _>(black_box(q));
    let (a, b) = p.into();
    w.put::<16, _>(black_box(a));
    w.put::<16, _>(black_box(b));
}
#[inline(never)]
fn spread(r: &mut Rd, w: &mut Wr) {
    let a: AesBlock = r.b::<16, _>();
    w.put::<32, _>(black_box(AesBlockX2::from(a)));
    w.put::<64, _>(black_box(AesBlockX4::from(a)));
    w.put::<64, _>(black_box(AesBlockX4::from(r.b::<32, AesBlockX2>())));
}

/// Not operations of the library: whoever watches must notice that these two leak.
static CONTROL: [u8; 256] = {
    let mut t = [0; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = (i * 7 + 3) as u8;
        i += 1;
    }
    t
};
#[inline(never)]
fn control_table(r: &mut Rd, w: &mut Wr) {
    let [i] = r.get::<1>();
    w.put::<1, _>([black_box(&CONTROL)[black_box(i) as usize]]);
}
#[inline(never)]
fn control_branch(r: &mut Rd, w: &mut Wr) {
    let [i] = r.get::<1>();
    if black_box(i) & 0x40 != 0 {
        w.put::<1, _>([black_box(1)]);
    } else {
        black_box(w.put::<2, _>([black_box(2), black_box(3)]));
    }
}

/// The watched call: everything behind `s` is secret.
#[inline(never)]
#[no_mangle]
pub extern "C" fn leak_run(id: usize, n: usize, s: *const u8, out: *mut u8) {
    let r = &mut Rd(s);
    let w = &mut Wr(out);
    match id {
        0 => e128(r, w),
        1 => e192(r, w),
        2 => e256(r, w),
        3 => d128(r, w),
        4 => d192(r, w),
        5 => d256(r, w),
        6 => c128(r, w),
        7 => c192(r, w),
        8 => c256(r, w),
        9 => s128(r),
        10 => s192(r),
        11 => s256(r),
        12..=15 => v1::round(id - 12, r, w),
        16 => w.put::<16, _>(black_box(r.b::<16, AesBlock>()).mc()),
        17 => w.put::<16, _>(black_box(r.b::<16, AesBlock>()).imc()),
        18..=21 => v2::round(id - 18, r, w),
        22..=25 => v4::round(id - 22, r, w),
        26 | 27 => v1::chain(id - 26, n, r, w),
        28 | 29 => v2::chain(id - 28, n, r, w),
        30 | 31 => v4::chain(id - 30, n, r, w),
        32..=35 => v1::bits(id - 32, r, w),
        36..=39 => v2::bits(id - 36, r, w),
        40..=43 => v4::bits(id - 40, r, w),
        44 => v1::assign(r, w),
        45 => v2::assign(r, w),
        46 => v4::assign(r, w),
        47 => v1::bytes(r, w),
        48 => v2::bytes(r, w),
        49 => v4::bytes(r, w),
        50 => v1::parse(n, r, w),
        51 => v2::parse(n, r, w),
        52 => v4::parse(n, r, w),
        53 => v1::store(n, r, w),
        54 => v2::store(n, r, w),
        55 => v4::store(n, r, w),
        56 => {
            let b: AesBlock = r.b::<16, _>();
            let x = u128::from(b);
            w.put::<16, _>(AesBlock::from(black_box(x)));
        }
        57 => pack(r, w),
        58 => split(r, w),
        59 => spread(r, w),
        60 => control_table(r, w),
        61 => control_branch(r, w),
        _ => bad("leak"),
    }
}

/// Reached when the operation is over
#[inline(never)]
#[no_mangle]
pub extern "C" fn leak_end(_x: usize) {
    black_box(());
}
#[repr(align(64))]
pub struct Area {
    pub s: [u8; SECRET],
    pub o: [u8; SECRET],
}
pub static mut AREA: Area = Area { s: [0; SECRET], o: [0; SECRET] };

/// `leak NAME N HEX`; `watch` is called around the operation
pub fn line(l: &[u8], out: &mut Out, mut watch: impl FnMut(&mut Area, bool) -> usize) {
    let mut f = l.split(|c| *c == b' ').skip(1);
    let mut next = || f.next().unwrap_or_else(|| bad("leak"));
    let name = next();
    let id = NAMES.iter().position(|x| x.as_bytes() == name).unwrap_or_else(|| bad("name"));
    let n = dec(next());
    let area = unsafe { &mut *core::ptr::addr_of_mut!(AREA) };
    let hex = next();
    area.s.fill(0);
    let mut i = 0;
    while 2 * i + 1 < hex.len() && i < SECRET {
        let nib = |c: u8| if c < b'a' { c - b'0' } else { c - b'a' + 10 };
        area.s[i] = nib(hex[2 * i]) << 4 | nib(hex[2 * i + 1]);
        i += 1;
    }
    area.o.fill(0);
    watch(area, true);
    black_box(leak_run as extern "C" fn(usize, usize, *const u8, *mut u8))(id, n, area.s.as_ptr(), area.o.as_mut_ptr());
    leak_end(black_box(id));
    let k = watch(area, false);
    out.put(b"ok ");
    out.num(k);
}
