#![cfg_attr(feature = "bare", no_std, no_main)]
#![cfg_attr(all(feature = "bare", any(target_arch = "s390x", target_arch = "powerpc64")), feature(asm_experimental_arch))]
#![allow(clippy::all)]

mod interp;
mod mass;
mod refi;

#[cfg(not(feature = "bare"))]
#[path = "hosted.rs"]
mod sys;

#[cfg(feature = "bare")]
#[path = "bare.rs"]
mod sys;

pub fn harness_error(what: &str) -> ! {
    sys::harness_error(what)
}

#[cfg(not(feature = "bare"))]
fn main() {
    sys::main()
}
