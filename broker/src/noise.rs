//! Schedule noise for the parallel storms: after every acquisition and release of
//! a lock, and now and then when memory is taken or given back, a thread may be
//! made to spin, yield or sleep. Widens the windows between two steps of the code
//! under test that nothing protects.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

/// Of 4096 locks so many are noisy; 0 is silence.
static LEVEL: AtomicU32 = AtomicU32::new(0);
static SEED: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
}

pub fn level(n: u32) {
    LEVEL.store(n, Ordering::Relaxed);
    lock_api::set_noise(if n == 0 { None } else { Some(at_lock) });
}

fn draw() -> u64 {
    STATE
        .try_with(|s| {
            let mut x = s.get();
            if x == 0 {
                x = SEED.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed) | 1;
            }
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.set(x);
            x
        })
        .unwrap_or(u64::MAX)
}

fn dawdle(r: u64) {
    match r % 16 {
        0 => std::thread::sleep(std::time::Duration::from_micros(20 + r / 16 % 200)),
        1..=5 => std::thread::yield_now(),
        _ => {
            for _ in 0..(r / 16 % 3000) {
                std::hint::spin_loop();
            }
        }
    }
}

fn at_lock() {
    let r = draw();
    if (r >> 40) % 4096 < LEVEL.load(Ordering::Relaxed) as u64 {
        dawdle(r);
    }
}

fn at_alloc() {
    let l = LEVEL.load(Ordering::Relaxed) as u64;
    if l != 0 {
        let r = draw();
        if (r >> 40) % 65536 < l {
            dawdle(r);
        }
    }
}

pub struct Noisy;
unsafe impl GlobalAlloc for Noisy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        at_alloc();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        at_alloc();
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static ALLOC: Noisy = Noisy;
