//! Runs `leak` lines with the secrets marked as undefined for Valgrind's memcheck, which then reports every branch and
//! every address that depends on them. Each answer is the number of reports.
use super::leakops::{self, Area};
use crate::interp::*;

#[cfg(target_arch = "x86_64")]
fn request(code: usize, a: usize, b: usize) -> usize {
    let args = [code, a, b, 0, 0, 0];
    let mut r = 0usize;
    unsafe {
        core::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r, options(nostack));
    }
    r
}
#[cfg(target_arch = "x86")]
fn request(code: usize, a: usize, b: usize) -> usize {
    let args = [code, a, b, 0, 0, 0];
    let mut r = 0usize;
    unsafe {
        core::arch::asm!("rol edi, 3", "rol edi, 13", "rol edi, 29", "rol edi, 19", "xchg ebx, ebx",
            in("eax") args.as_ptr(), inout("edx") r, options(nostack));
    }
    r
}

const RUNNING: usize = 0x1001;
const ERRORS: usize = 0x1201;
const UNDEFINED: usize = 0x4d43_0001;
const DEFINED: usize = 0x4d43_0002;

pub fn line(l: &[u8], out: &mut Out) {
    if request(RUNNING, 0, 0) == 0 {
        bad("not under valgrind");
    }
    let mut before = 0;
    leakops::line(l, out, |a: &mut Area, start| {
        if start {
            request(UNDEFINED, a.s.as_ptr() as usize, a.s.len());
            before = request(ERRORS, 0, 0);
            0
        } else {
            request(DEFINED, a.s.as_ptr() as usize, a.s.len());
            request(DEFINED, a.o.as_ptr() as usize, a.o.len());
            request(ERRORS, 0, 0) - before
        }
    });
}
