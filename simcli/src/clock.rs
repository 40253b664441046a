//! Virtual time for the threads that simulate: the C library's monotonic and
//! real-time clocks are answered from the simulation's clock, so the timeouts
//! inside the RPC client library run on simulated time too.

use std::cell::Cell;

thread_local! {
    /// Nanoseconds of simulated time, or `u64::MAX`: not a simulation thread.
    static NOW: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub fn enter() {
    NOW.with(|n| n.set(0));
}
/// Moves the simulated clock forward.
pub fn set(ns: u64) {
    NOW.with(|n| n.set(ns));
}

/// # Safety
/// `ts` must point to a timespec.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let n = NOW.try_with(|n| n.get()).unwrap_or(u64::MAX);
    if n == u64::MAX || ts.is_null() {
        return libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    }
    let base: u64 = if clk == libc::CLOCK_REALTIME { 1_700_000_000 } else { 100_000 };
    (*ts).tv_sec = (base + n / 1_000_000_000) as libc::time_t;
    (*ts).tv_nsec = (n % 1_000_000_000) as libc::c_long;
    0
}
