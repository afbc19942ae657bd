//! Constructs the effect and safety rules must report, extracted and checked on every run:
//! a rule that no longer matches here would pass vacuously on the repository.
use std::sync::Mutex;

static MEMO: Mutex<u64> = Mutex::new(0);

pub fn uses_unsafe(x: u64) -> u64 {
    unsafe { std::num::NonZeroU64::new_unchecked(x | 1).get() }
}

pub fn prints(x: u64) -> u64 {
    println!("{}", x);
    x
}

pub fn reads_state(x: u64) -> u64 {
    let mut m = MEMO.lock().unwrap();
    *m += x;
    *m
}

pub fn reads_clock() -> bool {
    std::time::Instant::now().elapsed().as_nanos() > 5
}

pub fn reads_env() -> bool {
    std::env::var("HOME").is_ok()
}

pub fn indirect(x: u64) -> u64 {
    (0..x).map(prints).sum()
}

pub fn prints_then_diverges(x: u64) -> u64 {
    println!("{}", x);
    unimplemented!()
}
