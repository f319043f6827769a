//! A case that does not come back within its time limit is a non-termination: record it and stop.
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
static CASE: AtomicU64 = AtomicU64::new(0);
pub fn tick(c: u64) {
    CASE.store(c, Ordering::Relaxed);
}
pub fn start(limit: Duration, on_hang: impl Fn(u64) + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let c = CASE.load(Ordering::Relaxed);
            if c != last.0 {
                last = (c, Instant::now());
            } else if c != 0 && last.1.elapsed() > limit {
                on_hang(c);
                std::process::exit(3);
            }
        }
    });
}
