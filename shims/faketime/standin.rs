//! Stands in for faketime (not available offline): the clock core/network's peer store reads, which
//! a check can set for its own thread.
use std::cell::Cell;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

thread_local! {
    static NOW: Cell<Option<u64>> = Cell::new(None);
}

/// Sets (or gives back) this thread's clock.
pub fn set(now_ms: Option<u64>) {
    NOW.with(|n| n.set(now_ms))
}

pub fn unix_time() -> Duration {
    match NOW.with(|n| n.get()) {
        Some(ms) => Duration::from_millis(ms),
        None => SystemTime::now().duration_since(UNIX_EPOCH).unwrap(),
    }
}

pub fn unix_time_as_millis() -> u64 {
    unix_time().as_millis() as u64
}
