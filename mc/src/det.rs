//! Owns the randomness of std's hash maps: `getrandom` is answered from a seed
//! that the harness chooses, so the iteration order of a `HashMap` is a function
//! of the seed of the thread that created it.
use std::cell::Cell;
thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
}
/// Sets the answer for the next `getrandom` of this thread. std caches its keys per
/// thread, so this only matters before the first `HashMap` of the thread.
pub fn set_seed(s: u64) {
    SEED.with(|x| x.set(s));
}
fn mix(z: u64) -> u64 {
    let mut z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SEED.try_with(|x| x.get()).unwrap_or(0);
    for i in 0..len {
        *buf.add(i) = (mix(s.wrapping_mul(31).wrapping_add((i / 8) as u64)) >> (8 * (i % 8))) as u8;
    }
    len as isize
}
