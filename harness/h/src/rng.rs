//! The random words seen by the code under test.
use std::sync::atomic::{AtomicUsize, Ordering};

static mut WORDS: Vec<u64> = vec![];
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn word() -> u64 {
    let i = NEXT.fetch_add(1, Ordering::SeqCst);
    #[allow(static_mut_refs)]
    unsafe {
        WORDS[i]
    }
}
/// The words handed out from now on; asking for more is a panic.
pub fn set(w: Vec<u64>) {
    unsafe { WORDS = w }
    NEXT.store(0, Ordering::SeqCst);
    prima_undine::random::hooks::install(Some(word));
}
/// words handed out so far
pub fn used() -> usize {
    NEXT.load(Ordering::SeqCst)
}
/// A symbolic word.
pub fn any() -> u64 {
    (crate::vx::u32_in(0, u32::MAX) as u64) << 32 | crate::vx::u32_in(0, u32::MAX) as u64
}
/// The i-th of n strata of the word range, the position inside it symbolic.
pub fn stratum(i: u32, n: u32) -> u64 {
    let w = ((1u64 << 32) / n as u64) as u32;
    let lo = i * w + w / 4;
    (crate::vx::u32_in(lo, lo + w / 2) as u64) << 32 | crate::vx::u32_in(0, u32::MAX) as u64
}
