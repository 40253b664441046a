//! Process-wide randomness goes through this seam: the C library's `getrandom`,
//! from which std seeds its hash maps, is answered from a per-thread counter, so
//! hash-map iteration order is a function of the run's seed.

use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x5eed) };
}

pub fn seed(s: u64) {
    STATE.with(|c| c.set(s));
}

/// # Safety
/// `buf` must be valid for `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = STATE.try_with(|c| c.get()).unwrap_or(1);
    for i in 0..len {
        if i % 8 == 0 {
            crate::rng::splitmix(&mut s);
        }
        *buf.add(i) = (s.rotate_left(17).wrapping_mul(0x2545f4914f6cdd1d) >> (8 * (i % 8))) as u8;
    }
    let _ = STATE.try_with(|c| c.set(s));
    len as isize
}
