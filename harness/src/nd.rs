//! The nondeterminism interface: under the symbolic executor these are
//! intrinsics; in the native replay they read a recorded assignment.

extern "C" {
    pub fn vz_nd_u8() -> u8;
    pub fn vz_nd_u16() -> u16;
    pub fn vz_nd_u32() -> u32;
    pub fn vz_nd_u64() -> u64;
    pub fn vz_assume(c: u8);
    pub fn vz_check(c: u8, p: *const u8, l: usize);
    pub fn vz_fail(p: *const u8, l: usize) -> !;
    pub fn vz_cover(k: u32);
    pub fn vz_concretize(v: u64) -> u64;
    pub fn vz_param(i: u32) -> u64;
    pub fn vz_spawn(f: extern "C" fn(*mut u8), p: *mut u8) -> u64;
    pub fn vz_join(t: u64);
    pub fn vz_end() -> !;
}

pub fn u8_() -> u8 {
    unsafe { vz_nd_u8() }
}
pub fn u16_() -> u16 {
    unsafe { vz_nd_u16() }
}
pub fn u32_() -> u32 {
    unsafe { vz_nd_u32() }
}
pub fn u64_() -> u64 {
    unsafe { vz_nd_u64() }
}
pub fn bool_() -> bool {
    let b = u8_();
    assume(b < 2);
    b == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vz_assume(c as u8) }
}
#[inline(always)]
pub fn check(c: bool, m: &str) {
    unsafe { vz_check(c as u8, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn fail(m: &str) -> ! {
    unsafe { vz_fail(m.as_ptr(), m.len()) }
}
pub fn cover(k: u32) {
    unsafe { vz_cover(k) }
}
/// A value in `0..n`, made concrete (the executor forks over all values).
pub fn choose(n: usize) -> usize {
    let b = u8_();
    assume((b as usize) < n);
    unsafe { vz_concretize(b as u64) as usize }
}
/// A value in `0..n`, left symbolic.
pub fn below(n: u8) -> u8 {
    let b = u8_();
    assume(b < n);
    b
}
/// A forking boolean.
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn param(i: u32) -> usize {
    unsafe { vz_param(i) as usize }
}
/// Exactly `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8_());
    }
    v
}
/// Between 0 and `n` arbitrary bytes (the length forks, the content is symbolic).
pub fn upto(n: usize) -> Vec<u8> {
    let l = choose(n + 1);
    bytes(l)
}
pub fn from(lo: usize, hi: usize) -> Vec<u8> {
    let l = lo + choose(hi - lo + 1);
    bytes(l)
}
/// Content equality as one symbolic term (no early exit).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn all(v: &[u8], f: impl Fn(u8) -> bool) -> bool {
    let mut r = true;
    for &b in v {
        r &= f(b);
    }
    r
}
pub fn any(v: &[u8], f: impl Fn(u8) -> bool) -> bool {
    let mut r = false;
    for &b in v {
        r |= f(b);
    }
    r
}
