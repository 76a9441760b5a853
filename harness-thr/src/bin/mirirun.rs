//! Runs one harness under Miri: mirirun ENTRY PARAMS VALUES.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

const N: usize = 4096;
static VALS: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
static NVALS: AtomicUsize = AtomicUsize::new(0);
static POS: AtomicUsize = AtomicUsize::new(0);
static PARAMS: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
thread_local! {
    static THREADS: RefCell<Vec<Option<std::thread::JoinHandle<()>>>> = const { RefCell::new(vec![]) };
}
fn next() -> u64 {
    let i = POS.fetch_add(1, Relaxed);
    if i >= NVALS.load(Relaxed) {
        std::process::exit(12);
    }
    VALS[i].load(Relaxed)
}
fn text<'a>(p: *const u8, l: usize) -> &'a str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, l)) }
}
#[no_mangle]
extern "C" fn vz_nd_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn vz_nd_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn vz_nd_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn vz_nd_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn vz_assume(c: u8) {
    if c == 0 {
        std::process::exit(11)
    }
}
#[no_mangle]
extern "C" fn vz_check(c: u8, p: *const u8, l: usize) {
    if c == 0 {
        vz_fail(p, l)
    }
}
#[no_mangle]
extern "C" fn vz_fail(p: *const u8, l: usize) -> ! {
    println!("FAILED {}", text(p, l));
    std::process::exit(10)
}
#[no_mangle]
extern "C" fn vz_cover(_: u32) {}
#[no_mangle]
extern "C" fn vz_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn vz_param(i: u32) -> u64 {
    PARAMS[i as usize].load(Relaxed)
}
#[no_mangle]
extern "C" fn vz_end() -> ! {
    std::process::exit(0)
}
struct Arg(*mut u8);
unsafe impl Send for Arg {}
#[no_mangle]
extern "C" fn vz_spawn(f: extern "C" fn(*mut u8), p: *mut u8) -> u64 {
    let a = Arg(p);
    let h = std::thread::spawn(move || {
        let a = a;
        f(a.0)
    });
    THREADS.with_borrow_mut(|t| {
        t.push(Some(h));
        t.len() as u64
    })
}
#[no_mangle]
extern "C" fn vz_join(t: u64) {
    if let Some(h) = THREADS.with_borrow_mut(|v| v[t as usize - 1].take()) {
        let _ = h.join();
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    for (i, v) in args[2].split(',').filter(|s| !s.is_empty()).enumerate() {
        PARAMS[i].store(v.parse().unwrap(), Relaxed);
    }
    let mut n = 0;
    for v in args[3].split(',').filter(|s| !s.is_empty()) {
        VALS[n].store(v.parse().unwrap(), Relaxed);
        n += 1;
    }
    NVALS.store(n, Relaxed);
    let (_, f) = vzh::ENTRIES.iter().find(|(n, _)| *n == args[1]).expect("entry");
    f();
    println!("HELD");
}
