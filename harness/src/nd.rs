//! What a harness may ask for: arbitrary values, assumptions, assertions, coverage marks.
//! Under the symbolic engine these are its primitives; natively they read a recorded counterexample.
#![allow(dead_code)]

#[cfg(irsx)]
mod imp {
    extern "C" {
        fn vx_bytes(p: *mut u8, n: u64, name: *const u8, nl: u64);
        fn vx_choose(n: u64, name: *const u8, nl: u64) -> u64;
        fn vx_assume(c: u64);
        fn vx_assert(c: u64, l: *const u8, ll: u64);
        fn vx_cover(l: *const u8, ll: u64);
        fn vx_panic_mode(m: u64);
        fn vx_trace(v: u64);
        fn vx_tier() -> u64;
        fn vx_concretize(v: u64) -> u64;
        fn vx_set_clock(secs: u64);
    }
    pub fn fill(b: &mut [u8], name: &str) {
        unsafe { vx_bytes(b.as_mut_ptr(), b.len() as u64, name.as_ptr(), name.len() as u64) }
    }
    pub fn choose(n: usize, name: &str) -> usize {
        unsafe { vx_choose(n as u64, name.as_ptr(), name.len() as u64) as usize }
    }
    #[inline(never)]
    pub fn assume(c: bool) {
        unsafe { vx_assume(c as u64) }
    }
    #[inline(never)]
    pub fn check(c: bool, label: &str) {
        unsafe { vx_assert(c as u64, label.as_ptr(), label.len() as u64) }
    }
    pub fn cover(label: &str) {
        unsafe { vx_cover(label.as_ptr(), label.len() as u64) }
    }
    pub fn panics_allowed(on: bool) {
        unsafe { vx_panic_mode(on as u64) }
    }
    /// Fork over the values of symbolic memory offsets (for parsers of symbolic data).
    pub fn fork_offsets(on: bool) {
        unsafe { vx_panic_mode(if on { 2 } else { 3 }) }
    }
    /// Write symbolic numbers in decimal too (left out otherwise: they are in error messages mostly).
    pub fn number_text(on: bool) {
        unsafe { vx_panic_mode(if on { 4 } else { 5 }) }
    }
    pub fn trace(v: u64) {
        unsafe { vx_trace(v) }
    }
    pub fn thorough() -> bool {
        unsafe { vx_tier() != 0 }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { vx_concretize(v) }
    }
    pub fn set_clock(secs: u64) {
        unsafe { vx_set_clock(secs) }
    }
}

#[cfg(not(irsx))]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct St {
        pub input: Vec<u8>,
        pub pos: usize,
        pub thorough: bool,
        pub panics_ok: bool,
        pub trace: Vec<String>,
        /// keep going after a failed assertion (trace mode)
        pub soft: bool,
    }
    thread_local!(pub static S: RefCell<St> = RefCell::new(St::default()));
    pub struct Stop(pub &'static str, pub String);
    fn take() -> u8 {
        S.with(|s| {
            let mut s = s.borrow_mut();
            let b = s.input.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            b
        })
    }
    pub fn fill(b: &mut [u8], _name: &str) {
        for x in b {
            *x = take();
        }
    }
    pub fn choose(n: usize, _name: &str) -> usize {
        if n == 0 {
            std::panic::panic_any(Stop("assume", String::new()));
        }
        take() as usize % n
    }
    pub fn assume(c: bool) {
        if !c {
            S.with(|s| s.borrow_mut().trace.push("assume-false".into()));
            std::panic::panic_any(Stop("assume", String::new()));
        }
    }
    pub fn check(c: bool, label: &str) {
        if !c {
            S.with(|s| s.borrow_mut().trace.push(format!("assert-failed {}", label)));
            std::panic::panic_any(Stop("assert", label.to_string()));
        }
    }
    pub fn cover(label: &str) {
        S.with(|s| s.borrow_mut().trace.push(format!("cover {}", label)));
    }
    pub fn fork_offsets(_on: bool) {}
    pub fn number_text(_on: bool) {}
    pub fn panics_allowed(on: bool) {
        S.with(|s| s.borrow_mut().panics_ok = on);
    }
    pub fn trace(v: u64) {
        S.with(|s| s.borrow_mut().trace.push(format!("{}", v)));
    }
    pub fn thorough() -> bool {
        S.with(|s| s.borrow().thorough)
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    /// Seconds the wall clock shows from now on (0: the real time).
    pub static CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);
    pub fn set_clock(secs: u64) {
        CLOCK.store(secs, std::sync::atomic::Ordering::SeqCst);
    }
    /// Takes the place of the C library's function in the replay programs.
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
        extern "C" {
            fn syscall(n: i64, ...) -> i64;
        }
        let t = CLOCK.load(std::sync::atomic::Ordering::SeqCst);
        if id == 0 && t != u64::MAX {
            *ts = [t as i64, 0];
            return 0;
        }
        syscall(228, id as i64, ts) as i32
    }
}

pub use imp::{assume, check, choose, concretize, cover, fill, fork_offsets, number_text, panics_allowed, set_clock, thorough, trace};

pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0; N];
    fill(&mut b, name);
    b
}
pub fn vec(n: usize, name: &str) -> Vec<u8> {
    let mut b = vec![0; n];
    fill(&mut b, name);
    b
}
pub fn u8(name: &str) -> u8 {
    bytes::<1>(name)[0]
}
pub fn u16(name: &str) -> u16 {
    u16::from_le_bytes(bytes(name))
}
pub fn u32(name: &str) -> u32 {
    u32::from_le_bytes(bytes(name))
}
pub fn u64(name: &str) -> u64 {
    u64::from_le_bytes(bytes(name))
}
pub fn i64(name: &str) -> i64 {
    i64::from_le_bytes(bytes(name))
}
pub fn bool(name: &str) -> bool {
    let b = u8(name);
    assume(b < 2);
    b == 1
}
/// A boolean decided by forking (concrete on every path).
pub fn flip(name: &str) -> bool {
    choose(2, name) == 1
}
/// A symbolic number below `n`.
pub fn below(n: u64, name: &str) -> u64 {
    let v = u64(name);
    assume(v < n);
    v
}
