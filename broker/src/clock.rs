//! Virtual time: this executable's own `clock_gettime` adds an offset to every
//! clock, so tokio's timers, `Instant` and `SystemTime` all move when a monitor
//! says so, without any hook in the code under test.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::Duration;

static OFFSET: AtomicI64 = AtomicI64::new(0);
/// While a case runs, the clocks (real time, monotonic) stand still unless advanced.
static FROZEN: [AtomicI64; 2] = [const { AtomicI64::new(0) }; 2];
/// Bumped by the simulated network whenever a byte moves.
pub static ACTIVITY: AtomicU64 = AtomicU64::new(0);

#[cfg(not(feature = "real_time"))]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) } as libc::c_int;
    if r == 0 {
        // a frozen clock still never shows the same instant twice
        let off = if FROZEN[1].load(Ordering::Relaxed) != 0 { OFFSET.fetch_add(10, Ordering::Relaxed) } else { OFFSET.load(Ordering::Relaxed) };
        let slot = if id == libc::CLOCK_REALTIME { Some(0) } else if id == libc::CLOCK_MONOTONIC { Some(1) } else { None };
        if let Some(base) = slot.map(|s| FROZEN[s].load(Ordering::Relaxed)).filter(|b| *b != 0) {
            let t = unsafe { &mut *ts };
            t.tv_sec = base / 1_000_000_000;
            t.tv_nsec = base % 1_000_000_000;
        }
        if off != 0 {
            let t = unsafe { &mut *ts };
            let n = t.tv_nsec as i64 + off % 1_000_000_000;
            t.tv_sec += off / 1_000_000_000 + n / 1_000_000_000;
            t.tv_nsec = n % 1_000_000_000;
        }
    }
    r
}

pub fn advance(d: Duration) {
    OFFSET.fetch_add(d.as_nanos() as i64, Ordering::SeqCst);
}

/// Virtual milliseconds since the process started using virtual time.
pub fn virtual_ms() -> i64 {
    OFFSET.load(Ordering::Relaxed) / 1_000_000
}

pub fn activity() -> u64 {
    ACTIVITY.load(Ordering::Relaxed)
}

pub fn bump() {
    ACTIVITY.fetch_add(1, Ordering::Relaxed);
}

/// Stops the clocks: from now on only `advance` moves them.
pub fn freeze() {
    if cfg!(feature = "real_time") {
        return;
    }
    for (slot, id) in [(0, libc::CLOCK_REALTIME), (1, libc::CLOCK_MONOTONIC)] {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::syscall(libc::SYS_clock_gettime, id, &mut ts) };
        FROZEN[slot].store(ts.tv_sec * 1_000_000_000 + ts.tv_nsec, Ordering::SeqCst);
    }
}

/// Back to real time; only between runtimes.
pub fn reset() {
    FROZEN[0].store(0, Ordering::SeqCst);
    FROZEN[1].store(0, Ordering::SeqCst);
    OFFSET.store(0, Ordering::SeqCst);
}
