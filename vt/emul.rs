//! The AES instructions of ARMv8 and RISC-V written out, for Miri, which does not execute them. This module joins
//! a copy of the library in which the names of the instructions are bound to it (build.emulated).
#![allow(dead_code, unused_imports, missing_docs, improper_ctypes_definitions, clippy::all)]

const fn times2(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}

const fn times(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a, b, 0);
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = times2(a);
        b >>= 1;
    }
    r
}

const fn tables() -> ([u8; 256], [u8; 256]) {
    let (mut s, mut t) = ([0u8; 256], [0u8; 256]);
    let mut x = 0;
    while x < 256 {
        // x to the power of 254
        let (mut inv, mut i) = (1u8, 0);
        while i < 254 {
            inv = times(inv, x as u8);
            i += 1;
        }
        let y = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        s[x] = y;
        t[y as usize] = x as u8;
        x += 1;
    }
    (s, t)
}

static TABLES: ([u8; 256], [u8; 256]) = tables();

fn sub(x: u8) -> u8 {
    TABLES.0[x as usize]
}

fn inv_sub(x: u8) -> u8 {
    TABLES.1[x as usize]
}

fn columns<const N: usize>(x: [u8; N], m: [u8; 4]) -> [u8; N] {
    core::array::from_fn(|i| (0..4).fold(0, |r, j| r ^ times(x[i / 4 * 4 + j], m[(j + 4 - i % 4) % 4])))
}

const MIX: [u8; 4] = [2, 3, 1, 1];
const INV_MIX: [u8; 4] = [14, 11, 13, 9];

fn sub_shift(x: [u8; 16]) -> [u8; 16] {
    core::array::from_fn(|i| sub(x[5 * i % 16]))
}

fn inv_sub_shift(x: [u8; 16]) -> [u8; 16] {
    core::array::from_fn(|i| inv_sub(x[13 * i % 16]))
}

#[cfg(any(target_arch = "aarch64", target_arch = "arm"))]
pub mod arm {
    use super::*;
    #[cfg(target_arch = "aarch64")]
    pub use core::arch::aarch64::*;
    #[cfg(target_arch = "arm")]
    pub use core::arch::arm::*;
    use core::mem::transmute;

    #[inline]
    pub fn vaeseq_u8(data: uint8x16_t, key: uint8x16_t) -> uint8x16_t {
        unsafe { transmute(sub_shift(transmute(veorq_u8(data, key)))) }
    }
    #[inline]
    pub fn vaesdq_u8(data: uint8x16_t, key: uint8x16_t) -> uint8x16_t {
        unsafe { transmute(inv_sub_shift(transmute(veorq_u8(data, key)))) }
    }
    #[inline]
    pub fn vaesmcq_u8(data: uint8x16_t) -> uint8x16_t {
        unsafe { transmute(columns::<16>(transmute(data), MIX)) }
    }
    #[inline]
    pub fn vaesimcq_u8(data: uint8x16_t) -> uint8x16_t {
        unsafe { transmute(columns::<16>(transmute(data), INV_MIX)) }
    }
    #[cfg(target_arch = "arm")]
    #[inline]
    pub unsafe fn vld1q_u8(ptr: *const u8) -> uint8x16_t {
        ptr.cast::<uint8x16_t>().read_unaligned()
    }
    #[cfg(target_arch = "arm")]
    #[inline]
    pub unsafe fn vst1q_u8(ptr: *mut u8, a: uint8x16_t) {
        ptr.cast::<uint8x16_t>().write_unaligned(a)
    }
}

#[cfg(target_arch = "riscv64")]
mod riscv64 {
    use super::*;

    fn state(rs1: u64, rs2: u64) -> [u8; 16] {
        (u128::from(rs1) | u128::from(rs2) << 64).to_le_bytes()
    }
    fn low(x: [u8; 16]) -> u64 {
        u128::from_le_bytes(x) as u64
    }
    #[export_name = "emul.riscv.aes64es"]
    extern "C" fn es(rs1: u64, rs2: u64) -> u64 {
        low(sub_shift(state(rs1, rs2)))
    }
    #[export_name = "emul.riscv.aes64esm"]
    extern "C" fn esm(rs1: u64, rs2: u64) -> u64 {
        low(columns(sub_shift(state(rs1, rs2)), MIX))
    }
    #[export_name = "emul.riscv.aes64ds"]
    extern "C" fn ds(rs1: u64, rs2: u64) -> u64 {
        low(inv_sub_shift(state(rs1, rs2)))
    }
    #[export_name = "emul.riscv.aes64dsm"]
    extern "C" fn dsm(rs1: u64, rs2: u64) -> u64 {
        low(columns(inv_sub_shift(state(rs1, rs2)), INV_MIX))
    }
    #[export_name = "emul.riscv.aes64im"]
    extern "C" fn im(rs1: u64) -> u64 {
        u64::from_le_bytes(columns(rs1.to_le_bytes(), INV_MIX))
    }
    #[export_name = "emul.riscv.aes64ks1i"]
    extern "C" fn ks1i(rs1: u64, rnum: u32) -> u64 {
        const RC: [u32; 11] = [1, 2, 4, 8, 16, 32, 64, 128, 0x1b, 0x36, 0];
        let w = (rs1 >> 32) as u32;
        let w = if rnum < 10 { w.rotate_right(8) } else { w };
        let w = u32::from_le_bytes(w.to_le_bytes().map(sub)) ^ RC[rnum as usize];
        u64::from(w) | u64::from(w) << 32
    }
    #[export_name = "emul.riscv.aes64ks2"]
    extern "C" fn ks2(rs1: u64, rs2: u64) -> u64 {
        let w0 = (rs1 >> 32) as u32 ^ rs2 as u32;
        let w1 = w0 ^ (rs2 >> 32) as u32;
        u64::from(w0) | u64::from(w1) << 32
    }
}

#[cfg(target_arch = "riscv32")]
mod riscv32 {
    use super::*;

    fn one(rs1: u32, so: [u8; 4], bs: u32) -> u32 {
        rs1 ^ u32::from_le_bytes(so).rotate_left(8 * bs)
    }
    fn byte(rs2: u32, bs: u32) -> u8 {
        (rs2 >> (8 * bs)) as u8
    }
    #[export_name = "emul.riscv.aes32esi"]
    extern "C" fn esi(rs1: u32, rs2: u32, bs: u32) -> u32 {
        one(rs1, [sub(byte(rs2, bs)), 0, 0, 0], bs)
    }
    #[export_name = "emul.riscv.aes32esmi"]
    extern "C" fn esmi(rs1: u32, rs2: u32, bs: u32) -> u32 {
        one(rs1, columns([sub(byte(rs2, bs)), 0, 0, 0], MIX), bs)
    }
    #[export_name = "emul.riscv.aes32dsi"]
    extern "C" fn dsi(rs1: u32, rs2: u32, bs: u32) -> u32 {
        one(rs1, [inv_sub(byte(rs2, bs)), 0, 0, 0], bs)
    }
    #[export_name = "emul.riscv.aes32dsmi"]
    extern "C" fn dsmi(rs1: u32, rs2: u32, bs: u32) -> u32 {
        one(rs1, columns([inv_sub(byte(rs2, bs)), 0, 0, 0], INV_MIX), bs)
    }
}
