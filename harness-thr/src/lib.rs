#![allow(dead_code)]
#[path = "../../harness/src/nd.rs"]
pub mod nd;
mod chan;
pub mod mon;
mod strings;

macro_rules! entries {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $n() { $m::$n() })*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

/// Counts live blocks.
pub struct Watch;
unsafe impl std::alloc::GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        mon::add_live(1);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        mon::add_live(-1);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Watch = Watch;

entries! {
    chan::h_oneshot_seq,
    chan::h_parker_seq,
    chan::h_queue_seq,
    chan::h_oneshot_race,
    chan::h_parker_race,
    chan::h_parker_again,
    chan::h_recv_race,
    strings::h_bytes_race,
}
