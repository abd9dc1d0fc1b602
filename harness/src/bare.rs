//! Driver without a standard library: raw Linux system calls, run under qemu user emulation.
use crate::interp::*;
use core::arch::{asm, global_asm};

#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    unsafe { asm!("ecall", in("a7") n, inlateout("a0") a as isize => r, in("a1") b, in("a2") c) };
    r
}
#[cfg(target_arch = "aarch64")]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    unsafe { asm!("svc #0", in("x8") n, inlateout("x0") a as isize => r, in("x1") b, in("x2") c) };
    r
}
#[cfg(target_arch = "arm")]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    unsafe {
        asm!("mov {t}, r7", "mov r7, {n}", "svc #0", "mov r7, {t}", t = out(reg) _, n = in(reg) n,
             inlateout("r0") a as isize => r, in("r1") b, in("r2") c)
    };
    r
}
#[cfg(target_arch = "s390x")]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    unsafe { asm!("svc 0", in("r1") n, inlateout("r2") a as isize => r, in("r3") b, in("r4") c) };
    r
}
#[cfg(target_arch = "x86")]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    unsafe { asm!("int 0x80", inlateout("eax") n as isize => r, in("ebx") a, in("ecx") b, in("edx") c) };
    r
}
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64", target_arch = "aarch64"))]
const NR: (usize, usize, usize) = (63, 64, 93);
#[cfg(not(any(target_arch = "riscv32", target_arch = "riscv64", target_arch = "aarch64")))]
const NR: (usize, usize, usize) = (3, 4, 1);

#[cfg(target_arch = "x86")]
global_asm!(".globl _start", "_start:", "and esp, -16", "call rmain");
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
global_asm!(".globl _start", "_start:", "andi sp, sp, -16", "call rmain");
#[cfg(target_arch = "arm")]
global_asm!(".globl _start", "_start:", "bic r0, sp, #15", "mov sp, r0", "bl rmain");
#[cfg(target_arch = "aarch64")]
global_asm!(".globl _start", "_start:", "mov x0, sp", "and x0, x0, #-16", "mov sp, x0", "bl rmain");
#[cfg(target_arch = "s390x")]
global_asm!(".globl _start", "_start:", "aghi %r15, -160", "brasl %r14, rmain");

fn exit(c: usize) -> ! {
    flush();
    sys(NR.2, c, 0, 0);
    loop {}
}

static mut OBUF: Buf<{ 1 << 17 }> = Buf::new();

fn flush() {
    let o = unsafe { &mut *core::ptr::addr_of_mut!(OBUF) };
    let mut at = 0;
    while at < o.n {
        let r = sys(NR.1, 1, o.d.as_ptr() as usize + at, o.n - at);
        if r <= 0 {
            break;
        }
        at += r as usize;
    }
    o.n = 0;
}

fn emit(b: &[u8]) {
    let o = unsafe { &mut *core::ptr::addr_of_mut!(OBUF) };
    if o.n + b.len() + 1 > o.d.len() {
        flush();
    }
    let o = unsafe { &mut *core::ptr::addr_of_mut!(OBUF) };
    o.put(b);
    o.put(b"\n");
}

pub fn harness_error(_what: &str) -> ! {
    exit(97)
}

pub fn lost() -> ! {
    if !unsafe { IN_MASS } {
        emit(b"lost");
    }
    exit(101)
}

const AREA: usize = (1 << 20) + (1 << 13);
const WIN: usize = 1024;
#[repr(align(64))]
struct Scratch {
    d: [u8; AREA],
    at: usize,
    len: usize,
    active: bool,
}
static mut SCRATCH: Scratch = Scratch { d: [0; AREA], at: 0, len: 0, active: false };

impl Scratch {
    fn ok(&self) -> bool {
        self.d[self.at - WIN..self.at]
            .iter()
            .chain(&self.d[self.at + self.len..self.at + self.len + WIN])
            .all(|b| *b == 0xc7)
    }
}

struct Handle;
fn scratch() -> &'static mut Scratch {
    unsafe { &mut *core::ptr::addr_of_mut!(SCRATCH) }
}

impl Mem for Handle {
    fn place(&mut self, len: usize, mode: usize) -> &mut [u8] {
        let s = scratch();
        s.at = 2048 + if mode < 64 { mode } else { 0 };
        s.len = len;
        s.d[s.at - WIN..s.at + len + WIN].fill(0xc7);
        s.active = true;
        &mut s.d[s.at..s.at + len]
    }
    fn around_intact(&self) -> bool {
        scratch().ok()
    }
    fn done(&mut self) {
        scratch().active = false;
    }
    fn keys<B: Copy + 'static>(&mut self, n: usize, z: B) -> impl core::ops::DerefMut<Target = [B]> {
        let s = scratch();
        let at = s.d.as_ptr().align_offset(64);
        if at + n * size_of::<B>() > AREA {
            harness_error("keys");
        }
        unsafe {
            let p = s.d.as_mut_ptr().add(at) as *mut B;
            for i in 0..n {
                p.add(i).write(z);
            }
            core::slice::from_raw_parts_mut(p, n)
        }
    }
}

/// A panic ends the process; the driver carries on with the next line in a new one.
#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo) -> ! {
    static mut ONCE: bool = false;
    unsafe {
        if ONCE {
            exit(98)
        }
        ONCE = true;
    }
    let s = scratch();
    let o = unsafe { &mut *core::ptr::addr_of_mut!(POUT) };
    o.n = 0;
    if unsafe { IN_MASS } {
        let g = unsafe { &*core::ptr::addr_of!(GROUP) };
        emit2(b"mass ", g.bytes());
        exit(101)
    }
    if !s.active {
        o.put(b"panic");
    } else if s.ok() {
        o.put(b"panic ");
        o.hex(&s.d[s.at..s.at + s.len]);
    } else {
        o.put(b"stray");
    }
    emit(o.bytes());
    exit(101)
}
fn emit2(a: &[u8], b: &[u8]) {
    let o = unsafe { &mut *core::ptr::addr_of_mut!(OBUF) };
    if o.n + a.len() + b.len() + 1 > o.d.len() {
        flush();
    }
    let o = unsafe { &mut *core::ptr::addr_of_mut!(OBUF) };
    o.put(a);
    o.put(b);
    o.put(b"\n");
}
static mut IN_MASS: bool = false;
static mut GROUP: crate::mass::Group = Buf::new();
static mut GEN: Option<crate::mass::Gen> = None;
static mut RST: Option<crate::refi::RefSt> = None;
static mut ROUT: Out = Out::new();
static mut POUT: Out = Out::new();

static mut IN: [u8; 1 << 17] = [0; 1 << 17];
static mut OUTL: Out = Out::new();

#[no_mangle]
pub extern "C" fn rmain() -> ! {
    let buf = unsafe { &mut *core::ptr::addr_of_mut!(IN) };
    let out = unsafe { &mut *core::ptr::addr_of_mut!(OUTL) };
    let mut st = St::new();
    let mut mem = Handle;
    let (mut lo, mut hi) = (0, 0);
    loop {
        // next line
        let nl = buf[lo..hi].iter().position(|c| *c == b'\n');
        if let Some(e) = nl {
            if e > 0 {
                out.n = 0;
                scratch().active = false;
                let line = &buf[lo..lo + e];
                if line.starts_with(b"mass ") {
                    let (group, rout) = unsafe { (&mut *core::ptr::addr_of_mut!(GROUP), &mut *core::ptr::addr_of_mut!(ROUT)) };
                    let gen = unsafe { &mut *core::ptr::addr_of_mut!(GEN) }.insert(crate::mass::Gen::new(0));
                    let rst = unsafe { &mut *core::ptr::addr_of_mut!(RST) }.insert(crate::refi::RefSt::new());
                    unsafe { IN_MASS = true };
                    let same = crate::mass::run(line, group, gen, |c| {
                        out.n = 0;
                        scratch().active = false;
                        exec(&mut st, None, &mut mem, c, out);
                        rout.n = 0;
                        crate::refi::exec(rst, c, rout);
                        rout.bytes() == out.bytes()
                    });
                    unsafe { IN_MASS = false };
                    if same {
                        emit(b"ok -");
                    } else {
                        emit2(b"mass ", group.bytes());
                    }
                } else if line.starts_with(b"leak ") {
                    leakops::line(line, out, |_, _| 0);
                    emit(out.bytes());
                } else if line.starts_with(b"taint ") {
                    #[cfg(target_arch = "x86")]
                    ct::line(line, out);
                    emit(out.bytes());
                } else {
                    exec(&mut st, None, &mut mem, line, out);
                    emit(out.bytes());
                }
            }
            lo += e + 1;
            continue;
        }
        buf.copy_within(lo..hi, 0);
        hi -= lo;
        lo = 0;
        if hi == buf.len() {
            exit(96);
        }
        let r = sys(NR.0, 0, buf.as_mut_ptr() as usize + hi, buf.len() - hi);
        if r <= 0 {
            exit(0);
        }
        hi += r as usize;
    }
}

#[cfg(target_arch = "x86")]
#[path = "ct.rs"]
pub mod ct;

#[path = "leak.rs"]
pub mod leakops;
