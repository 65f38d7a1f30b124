//! Layout of the memory shared between driver, worker and simulated run.
use std::sync::atomic::{AtomicPtr, Ordering};

pub const SCEN_OFF: usize = 4096;
pub const SCEN_CAP: usize = 32 << 20;
pub const DEC_OFF: usize = SCEN_OFF + SCEN_CAP;
pub const DEC_CAP: usize = 64 << 20;
pub const HIST_OFF: usize = DEC_OFF + DEC_CAP;
pub const HIST_CAP: usize = 256 << 20;
pub const TOTAL: usize = HIST_OFF + HIST_CAP;

pub mod hdr {
    pub const SCEN_LEN: usize = 0;
    pub const HIST_LEN: usize = 1;
    pub const DEC_LEN: usize = 2;
    pub const VERDICT: usize = 3;
    pub const POLLS: usize = 4;
    pub const EVENTS: usize = 5;
    pub const SIM_TIME: usize = 6;
    pub const TRACE_HASH: usize = 7;
    pub const OVERFLOW: usize = 8;
    pub const TIMERS: usize = 9;
    pub const STARTED: usize = 10;
    /// non-default decisions per class: CLS0 + class
    pub const CLS0: usize = 16;
}
pub mod verdict {
    pub const NONE: u64 = 0;
    /// nothing left to happen, or nothing but internal timers for the idle limit
    pub const HANG: u64 = 2;
    pub const STEP_LIMIT: u64 = 3;
    pub const SPIN: u64 = 4;
    pub const HARNESS: u64 = 5;
    /// killed where the scenario asked for it
    pub const CRASH: u64 = 6;
}

static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub fn map(fd: i32) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), TOTAL, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_NORESERVE, fd, 0);
        assert!(p != libc::MAP_FAILED, "mmap of shared memory failed");
        p as *mut u8
    }
}
pub fn set_base(p: *mut u8) {
    BASE.store(p, Ordering::Relaxed)
}
pub fn base() -> *mut u8 {
    BASE.load(Ordering::Relaxed)
}
pub fn get(b: *mut u8, i: usize) -> u64 {
    unsafe { std::ptr::read_volatile((b as *const u64).add(i)) }
}
pub fn put(b: *mut u8, i: usize, v: u64) {
    unsafe { std::ptr::write_volatile((b as *mut u64).add(i), v) }
}
