//! Driver for targets with a standard library: commands on stdin, answers on stdout.
use crate::interp::*;
use std::io::{BufWriter, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

pub fn harness_error(what: &str) -> ! {
    eprintln!("harness error: {what}");
    std::process::exit(97)
}

pub fn lost() -> ! {
    std::panic::panic_any("lost")
}

const PAGE: usize = 65536;

/// One scratch area between two inaccessible ones
pub struct Scratch {
    #[cfg(not(miri))]
    base: *mut u8,
    #[cfg(not(miri))]
    long: *mut u8,
    #[cfg(not(miri))]
    long_len: usize,
    #[cfg(miri)]
    heap: Vec<u8>,
    at: usize,
    len: usize,
    active: bool,
}

#[cfg(not(miri))]
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

impl Scratch {
    #[cfg(not(miri))]
    pub fn new() -> Self {
        unsafe {
            let base = mmap(std::ptr::null_mut(), 3 * PAGE, 0, 0x22, -1, 0);
            if base as isize == -1 || mprotect(base.add(PAGE), PAGE, 3) != 0 {
                harness_error("mmap");
            }
            Scratch { base, long: std::ptr::null_mut(), long_len: 0, at: 0, len: 0, active: false }
        }
    }
    #[cfg(miri)]
    pub fn new() -> Self {
        Scratch { heap: Vec::new(), at: 0, len: 0, active: false }
    }
    #[cfg(not(miri))]
    fn all(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(PAGE), PAGE) }
    }
    fn region(&self) -> &[u8] {
        #[cfg(not(miri))]
        return &self.all()[self.at..self.at + self.len];
        #[cfg(miri)]
        return &self.heap[self.at..];
    }
}

const CANARY: u8 = 0xc7;
const WIN: usize = 1024; // bytes watched on each side of the region

impl Mem for Scratch {
    #[cfg(not(miri))]
    fn place(&mut self, len: usize, mode: usize) -> &mut [u8] {
        if len > PAGE - 8192 {
            // a long region of its own, of which only the pages that are touched exist
            unsafe {
                if !self.long.is_null() {
                    munmap(self.long, self.long_len);
                }
                self.long = mmap(std::ptr::null_mut(), len, 3, 0x4022, -1, 0);
                if self.long as isize == -1 {
                    harness_error("mmap of a long region");
                }
                self.long_len = len;
                (self.at, self.len, self.active) = (2048, 0, false);
                std::slice::from_raw_parts_mut(self.base.add(PAGE), PAGE).fill(CANARY);
                return std::slice::from_raw_parts_mut(self.long, len);
            }
        }
        self.at = match mode {
            100 => PAGE - len,
            101 => 0,
            m => 2048 + m,
        };
        self.len = len;
        self.active = true;
        unsafe {
            let all = std::slice::from_raw_parts_mut(self.base.add(PAGE), PAGE);
            let lo = self.at.saturating_sub(WIN);
            let hi = (self.at + len + WIN).min(PAGE);
            all[lo..hi].fill(CANARY);
            &mut all[self.at..self.at + len]
        }
    }
    // Under Miri the region is the tail of its own allocation: any access outside it is reported.
    #[cfg(miri)]
    fn place(&mut self, len: usize, mode: usize) -> &mut [u8] {
        self.at = if mode < 64 { mode } else { 0 };
        self.len = len;
        self.active = true;
        self.heap = vec![CANARY; self.at + len];
        self.heap.shrink_to_fit();
        &mut self.heap[self.at..]
    }
    #[cfg(not(miri))]
    fn around_intact(&self) -> bool {
        let lo = self.at.saturating_sub(WIN);
        let hi = (self.at + self.len + WIN).min(PAGE);
        let all = self.all();
        all[lo..self.at].iter().chain(&all[self.at + self.len..hi]).all(|b| *b == CANARY)
    }
    #[cfg(miri)]
    fn around_intact(&self) -> bool {
        self.heap[..self.at].iter().all(|b| *b == CANARY)
    }
    fn done(&mut self) {
        self.active = false;
    }
    #[cfg(not(miri))]
    fn keys<B: Copy + 'static>(&mut self, n: usize, z: B) -> impl core::ops::DerefMut<Target = [B]> {
        let len = n * size_of::<B>();
        unsafe {
            let end = if len <= PAGE {
                self.base.add(2 * PAGE)
            } else {
                if !self.long.is_null() {
                    munmap(self.long, self.long_len);
                }
                let up = (len + PAGE - 1) / PAGE * PAGE;
                self.long_len = up + PAGE;
                self.long = mmap(std::ptr::null_mut(), self.long_len, 0, 0x22, -1, 0);
                if self.long as isize == -1 || mprotect(self.long, up, 3) != 0 {
                    harness_error("mmap of many keys");
                }
                self.long.add(up)
            };
            let p = end.sub(len) as *mut B;
            for i in 0..n {
                p.add(i).write(z);
            }
            std::slice::from_raw_parts_mut(p, n)
        }
    }
    #[cfg(miri)]
    fn keys<B: Copy + 'static>(&mut self, n: usize, z: B) -> impl core::ops::DerefMut<Target = [B]> {
        vec![z; n].into_boxed_slice()
    }
}

fn run_line(st: &mut St, shared: Option<&St>, mem: &mut Scratch, line: &[u8], out: &mut Out) {
    out.n = 0;
    mem.active = false;
    let r = catch_unwind(AssertUnwindSafe(|| exec(st, shared, mem, line, out)));
    if let Err(e) = r {
        out.n = 0;
        if e.downcast_ref::<&str>() == Some(&"lost") {
            out.put(b"lost");
        } else if !mem.active {
            out.put(b"panic");
        } else if mem.around_intact() {
            out.put(b"panic ");
            let c: Vec<u8> = mem.region().to_vec();
            out.hex(&c);
        } else {
            out.put(b"stray");
        }
    }
}

struct Mass {
    group: crate::mass::Group,
    gen: crate::mass::Gen,
    rst: crate::refi::RefSt,
    rout: Out,
}

/// `mass MASK SEED N`
fn mass(st: &mut St, mem: &mut Scratch, line: &[u8], out: &mut Out) {
    let mut m = Box::new(Mass {
        group: Buf::new(),
        gen: crate::mass::Gen::new(0),
        rst: crate::refi::RefSt::new(),
        rout: Out::new(),
    });
    let Mass { group, gen, rst, rout } = &mut *m;
    let same = crate::mass::run(line, group, gen, |c| {
        run_line(st, None, mem, c, out);
        rout.n = 0;
        crate::refi::exec(rst, c, rout);
        rout.bytes() == out.bytes()
    });
    out.n = 0;
    out.put(if same { b"ok -" } else { b"mass " });
    if !same {
        out.put(group.bytes());
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut input = Vec::new();
    std::io::stdin().read_to_end(&mut input).unwrap();
    let lines: Vec<&[u8]> = input.split(|c| *c == b'\n').filter(|l| !l.is_empty()).collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("mt") => mt(&lines, a[2].parse().unwrap(), a[3].parse().unwrap(), None),
        Some("cold") => mt(&lines, a[2].parse().unwrap(), 1, Some(a[3].parse().unwrap())),
        Some("ref") => {
            let mut rst = Box::new(crate::refi::RefSt::new());
            let mut out = Box::new(Out::new());
            let mut o = BufWriter::with_capacity(1 << 16, std::io::stdout().lock());
            for l in lines {
                out.n = 0;
                crate::refi::exec(&mut rst, l, &mut out);
                o.write_all(out.bytes()).unwrap();
                o.write_all(b"\n").unwrap();
            }
        }
        _ => {
            let mut o = BufWriter::with_capacity(1 << 16, std::io::stdout().lock());
            let mut st = Box::new(St::new());
            let mut mem = Scratch::new();
            let mut out = Box::new(Out::new());
            let flush_each = cfg!(miri) || std::env::var_os("VH_FLUSH").is_some();
            for l in lines {
                if l.starts_with(b"mass ") {
                    mass(&mut st, &mut mem, l, &mut out);
                } else if l.starts_with(b"leak ") {
                    out.n = 0;
                    leakops::line(l, &mut out, |_, _| 0);
                } else if l.starts_with(b"taint ") {
                    out.n = 0;
                    #[cfg(target_arch = "x86_64")]
                    ct::line(l, &mut out);
                } else {
                    run_line(&mut st, None, &mut mem, l, &mut out);
                }
                o.write_all(out.bytes()).unwrap();
                o.write_all(b"\n").unwrap();
                if flush_each {
                    o.flush().unwrap();
                }
            }
        }
    }
}

/// `mt T R`: lines before `go` prepare shared slots; all T threads then execute every following line
/// R times each, from different starting points, with their own private state. For each line, all
/// distinct answers are printed, separated by `|`.
/// `cold T K`: nothing is prepared; thread t starts at once with group (t % 2) * K, so that the first calls
/// of the process meet.
fn mt(lines: &[&[u8]], threads: usize, rounds: usize, cold: Option<usize>) {
    let go = lines.iter().position(|l| *l == b"go").unwrap_or_else(|| harness_error("go"));
    let mut shared = Anyway(Box::new(St::new()));
    {
        let mut mem = Scratch::new();
        let mut out = Box::new(Out::new());
        for l in &lines[..go] {
            run_line(&mut shared.0, None, &mut mem, l, &mut out);
            println!("{}", String::from_utf8_lossy(out.bytes()));
        }
    }
    println!("ok -");
    // groups of lines that belong together start with `reset`
    let body = &lines[go + 1..];
    let mut groups: Vec<(usize, usize)> = Vec::new();
    for (i, l) in body.iter().enumerate() {
        if *l == b"reset" || groups.is_empty() {
            groups.push((i, i));
        }
        groups.last_mut().unwrap().1 = i + 1;
    }
    let seen: Vec<Mutex<Vec<Vec<u8>>>> = body.iter().map(|_| Mutex::new(Vec::new())).collect();
    let bar = Barrier::new(threads);
    let here = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for tid in 0..threads {
            let (shared, seen, bar, here, groups) = (&shared, &seen, &bar, &here, &groups);
            let f = move || {
                let mut st = Box::new(St::new());
                let mut mem = Scratch::new();
                let mut out = Box::new(Out::new());
                let mut mine: Vec<Vec<Vec<u8>>> = body.iter().map(|_| Vec::new()).collect();
                bar.wait();
                // the last thread to get here finds the others awake
                here.fetch_add(1, Ordering::AcqRel);
                while here.load(Ordering::Acquire) < threads {
                    std::hint::spin_loop();
                }
                let first = cold.map_or(tid * groups.len() / threads, |k| tid % 2 * k);
                for r in 0..rounds {
                    for g in 0..groups.len() {
                        let (a, b) = groups[(g + first + r) % groups.len()];
                        for i in a..b {
                            run_line(&mut st, Some(shared.get()), &mut mem, body[i], &mut out);
                            if !mine[i].iter().any(|x| x == out.bytes()) {
                                mine[i].push(out.bytes().to_vec());
                            }
                        }
                    }
                }
                for (i, m) in mine.into_iter().enumerate() {
                    let mut l = seen[i].lock().unwrap();
                    for x in m {
                        if !l.contains(&x) {
                            l.push(x);
                        }
                    }
                }
            };
            std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, f).unwrap();
        }
    });
    let mut o = BufWriter::new(std::io::stdout().lock());
    for s in seen {
        let l = s.lock().unwrap();
        o.write_all(&l.join(&b'|')).unwrap();
        o.write_all(b"\n").unwrap();
    }
}


#[cfg(target_arch = "x86_64")]
#[path = "ct.rs"]
pub mod ct;

#[path = "leak.rs"]
pub mod leakops;
