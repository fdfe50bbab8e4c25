//! Edge coverage (only when built with the sancov flags): makes the thorough tier coverage-guided.
use std::sync::atomic::{AtomicUsize, Ordering};

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let cur = START.load(Ordering::Relaxed);
    if cur == 0 || (start as usize) < cur {
        START.store(start as usize, Ordering::Relaxed);
    }
    if (stop as usize) > STOP.load(Ordering::Relaxed) {
        STOP.store(stop as usize, Ordering::Relaxed);
    }
}

pub fn available() -> bool {
    START.load(Ordering::Relaxed) != 0
}

pub fn len() -> usize {
    STOP.load(Ordering::Relaxed) - START.load(Ordering::Relaxed)
}

fn slice() -> &'static mut [u8] {
    let s = START.load(Ordering::Relaxed);
    if s == 0 {
        return &mut [];
    }
    unsafe { std::slice::from_raw_parts_mut(s as *mut u8, len()) }
}

pub fn reset() {
    slice().fill(0);
}

/// Folds the counters (bucketed as AFL does) into `seen`; returns how many bits are new.
pub fn collect(seen: &mut Vec<u8>) -> usize {
    let c = slice();
    if seen.len() < c.len() {
        seen.resize(c.len(), 0);
    }
    let mut new = 0;
    for (i, v) in c.iter().enumerate() {
        if *v == 0 {
            continue;
        }
        let b: u8 = match *v {
            1 => 1,
            2 => 2,
            3 => 4,
            4..=7 => 8,
            8..=15 => 16,
            16..=31 => 32,
            32..=127 => 64,
            _ => 128,
        };
        if seen[i] & b == 0 {
            seen[i] |= b;
            new += 1;
        }
    }
    new
}
