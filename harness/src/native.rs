use std::sync::Mutex;
struct St {
    params: Vec<u64>,
    vals: Vec<u64>,
    pos: usize,
}
static ST: Mutex<St> = Mutex::new(St { params: vec![], vals: vec![], pos: 0 });
pub fn init(params: Vec<u64>, vals: Vec<u64>) {
    *ST.lock().unwrap() = St { params, vals, pos: 0 };
}
fn quit(c: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(c) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}
fn next() -> u64 {
    let mut s = ST.lock().unwrap();
    let Some(v) = s.vals.get(s.pos).copied() else {
        println!("EXHAUSTED");
        quit(12)
    };
    s.pos += 1;
    v
}
#[no_mangle]
extern "C" fn vz_nd_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn vz_nd_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn vz_nd_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn vz_nd_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn vz_assume(c: u8) {
    if c == 0 {
        println!("ASSUMPTION");
        quit(11)
    }
}
unsafe fn msg(p: *const u8, l: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, l)).into_owned()
}
#[no_mangle]
unsafe extern "C" fn vz_check(c: u8, p: *const u8, l: usize) {
    if c == 0 {
        vz_fail(p, l)
    }
}
#[no_mangle]
unsafe extern "C" fn vz_fail(p: *const u8, l: usize) -> ! {
    println!("FAILED {}", msg(p, l));
    quit(10)
}
#[no_mangle]
extern "C" fn vz_cover(_: u32) {}
#[no_mangle]
extern "C" fn vz_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn vz_param(i: u32) -> u64 {
    ST.lock().unwrap().params.get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
extern "C" fn vz_end() -> ! {
    println!("HELD");
    quit(0)
}
