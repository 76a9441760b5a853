//! What harnesses note down from several threads, without synchronising the threads by it.
#[cfg(not(miri))]
mod imp {
    static mut DROPS: [u8; 8] = [0; 8];
    static mut BEGAN: [bool; 8] = [false; 8];
    static mut ENDED: [bool; 8] = [false; 8];
    static mut LIVE: isize = 0;
    pub fn drops(i: usize) -> u8 {
        unsafe { (&raw const DROPS[i]).read_volatile() }
    }
    pub fn set_drops(i: usize, v: u8) {
        unsafe { (&raw mut DROPS[i]).write_volatile(v) }
    }
    pub fn began(i: usize) -> bool {
        unsafe { (&raw const BEGAN[i]).read_volatile() }
    }
    pub fn begin(i: usize) {
        unsafe { (&raw mut BEGAN[i]).write_volatile(true) }
    }
    pub fn ended(i: usize) -> bool {
        unsafe { (&raw const ENDED[i]).read_volatile() }
    }
    pub fn end(i: usize) {
        unsafe { (&raw mut ENDED[i]).write_volatile(true) }
    }
    pub fn live() -> isize {
        unsafe { (&raw const LIVE).read_volatile() }
    }
    pub fn add_live(n: isize) {
        unsafe { (&raw mut LIVE).write_volatile(live() + n) }
    }
}
#[cfg(miri)]
mod imp {
    use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicU8, Ordering::Relaxed};
    static DROPS: [AtomicU8; 8] = [const { AtomicU8::new(0) }; 8];
    static BEGAN: [AtomicBool; 8] = [const { AtomicBool::new(false) }; 8];
    static ENDED: [AtomicBool; 8] = [const { AtomicBool::new(false) }; 8];
    static LIVE: AtomicIsize = AtomicIsize::new(0);
    pub fn drops(i: usize) -> u8 {
        DROPS[i].load(Relaxed)
    }
    pub fn set_drops(i: usize, v: u8) {
        DROPS[i].store(v, Relaxed)
    }
    pub fn began(i: usize) -> bool {
        BEGAN[i].load(Relaxed)
    }
    pub fn begin(i: usize) {
        BEGAN[i].store(true, Relaxed)
    }
    pub fn ended(i: usize) -> bool {
        ENDED[i].load(Relaxed)
    }
    pub fn end(i: usize) {
        ENDED[i].store(true, Relaxed)
    }
    pub fn live() -> isize {
        LIVE.load(Relaxed)
    }
    pub fn add_live(n: isize) {
        LIVE.fetch_add(n, Relaxed);
    }
}
pub use imp::*;
