#![allow(dead_code)]
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[cfg(feature = "native")]
#[path = "../../harness/src/native.rs"]
pub mod native;
#[path = "../../harness/src/spec.rs"]
mod spec;
mod own;

macro_rules! entries {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $n() { $m::$n() })*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

/// Counts live blocks, and on request looks for traces of a secret in blocks being freed.
pub struct Watch;
pub static mut LIVE: isize = 0;
pub static mut WATCH: bool = false;
pub static mut FOUND: bool = false;

/// Two consecutive marker bytes, or the base64 encoding of three.
unsafe fn dirty(p: *const u8, n: usize) -> bool {
    let mut i = 0;
    while i + 1 < n {
        let (a, b) = (p.add(i).read_volatile(), p.add(i + 1).read_volatile());
        if (a == b'Z') & (b == b'Z') {
            return true;
        }
        if i + 3 < n && (a == b'W') & (b == b'l') {
            let (c, d) = (p.add(i + 2).read_volatile(), p.add(i + 3).read_volatile());
            if (c == b'p') & (d == b'a') {
                return true;
            }
        }
        i += 1;
    }
    false
}
/// The blocks in use and their sizes (as many as fit).
static mut BLOCKS: [(*mut u8, usize); 256] = [(std::ptr::null_mut(), 0); 256];
/// One more than the highest index in use so far.
static mut TOP: usize = 0;
unsafe fn note(p: *mut u8, n: usize) {
    let mut i = 0;
    while i < TOP && !BLOCKS[i].0.is_null() {
        i += 1;
    }
    if i < 256 {
        BLOCKS[i] = (p, n);
        if i == TOP {
            TOP = i + 1;
        }
    }
}
unsafe fn unnote(p: *mut u8, n: usize) {
    let mut i = TOP;
    while i > 0 {
        i -= 1;
        if BLOCKS[i].0 == p {
            BLOCKS[i].0 = std::ptr::null_mut();
            if BLOCKS[i].1 != n {
                nd::fail("memory is released as a block of another size");
            }
            return;
        }
    }
}
unsafe impl std::alloc::GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE += 1;
        // blocks start zeroed so that only what the program wrote can be found in them
        let p = std::alloc::System.alloc_zeroed(l);
        note(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE -= 1;
        unnote(p, l.size());
        if WATCH && dirty(p, l.size()) {
            FOUND = true;
        }
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Watch = Watch;

entries! {
    own::h_bytes_machine,
    own::h_bytes_nested,
    own::h_msg_leak,
    own::h_secretbuf,
    own::h_secret_zero_buf,
    own::h_secret_zero_str,
    own::h_secret_flow,
    own::h_secret_fmt,
    own::h_secret_msg_fmt,
    own::h_base64_chunks,
    own::h_base64_decode,
}
