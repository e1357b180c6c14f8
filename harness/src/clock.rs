//! The wall clock of a case thread: either the real one, or one that the case controls. The program reads it with
//! clock_gettime(2), which this overrides.

use std::{cell::Cell, time::Duration};

#[derive(Clone, Copy)]
enum Mode {
    Real,
    /// Stands still at so many nanoseconds since the epoch.
    Manual(u128),
    /// Follows tokio's clock: (nanoseconds since the epoch at that instant).
    Follow(u128, tokio::time::Instant),
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Real) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// # Safety
/// As clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if id == 0 {
        let now = match MODE.try_with(Cell::get) {
            Ok(Mode::Manual(t)) => Some(t),
            Ok(Mode::Follow(t, since)) => {
                MODE.with(|m| m.set(Mode::Manual(t)));
                let e = tokio::time::Instant::now().saturating_duration_since(since);
                MODE.with(|m| m.set(Mode::Follow(t, since)));
                Some(t + e.as_nanos())
            }
            _ => None,
        };
        if let Some(t) = now {
            (*ts).sec = (t / 1_000_000_000) as i64;
            (*ts).nsec = (t % 1_000_000_000) as i64;
            return 0;
        }
    }
    crate::engine::raw_syscall(228, id as usize, ts as usize, 0, 0, 0, 0) as i32
}

/// A time in 2023, in whole seconds.
pub const EPOCH: u64 = 1_700_000_000;

pub fn manual(since_epoch: Duration) {
    MODE.with(|m| m.set(Mode::Manual(since_epoch.as_nanos())));
}
/// From now on the wall clock advances with the runtime's clock.
pub fn follow(since_epoch: Duration) {
    MODE.with(|m| m.set(Mode::Follow(since_epoch.as_nanos(), tokio::time::Instant::now())));
}
pub fn real() {
    MODE.with(|m| m.set(Mode::Real));
}

/// Moves a manual clock on.
pub fn advance(by: Duration) {
    MODE.with(|m| {
        if let Mode::Manual(t) = m.get() {
            m.set(Mode::Manual(t + by.as_nanos()));
        }
    });
}
