//! A symbolic clock: `clock_gettime` reads it, the harness moves it.  When ticking, every read may
//! find it moved on by any amount.
use crate::nd;
use std::time::Duration;

pub struct Clock {
    pub sec: u64,
    pub nsec: u32,
    pub ticking: bool,
    pub coarse: bool,
}
pub static mut CLOCK: Clock = Clock { sec: 1000, nsec: 0, ticking: false, coarse: false };

#[repr(C)]
pub struct Ts {
    sec: i64,
    nsec: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_id: i32, ts: *mut Ts) -> i32 {
    if CLOCK.ticking {
        advance();
    }
    (*ts).sec = CLOCK.sec as i64;
    (*ts).nsec = CLOCK.nsec as i64;
    0
}
/// Lets any amount of time pass (up to about 30 years in all, or four minutes when coarse).
pub fn advance() {
    let (s, n);
    if unsafe { CLOCK.coarse } {
        // a few minutes, in quarters of a second
        let k = nd::u16_();
        nd::assume(k < 1 << 10);
        s = 1000 + (k >> 2) as u64;
        n = (k & 3) as u32 * 250_000_000;
    } else {
        s = nd::u32_() as u64;
        n = nd::u32_();
        nd::assume((n < 1_000_000_000) & (s < 1 << 30));
    }
    unsafe {
        nd::assume((s > CLOCK.sec) | ((s == CLOCK.sec) & (n >= CLOCK.nsec)));
        CLOCK.sec = s;
        CLOCK.nsec = n;
    }
}
pub fn ticking(v: bool) {
    unsafe { CLOCK.ticking = v }
}
pub fn coarse(v: bool) {
    unsafe { CLOCK.coarse = v }
}
/// Time since the clock's epoch.
pub fn now() -> Time {
    unsafe { Time { s: CLOCK.sec, n: CLOCK.nsec } }
}

/// Points in time and lengths of time, as seconds and nanoseconds.
#[derive(Clone, Copy)]
pub struct Time {
    pub s: u64,
    pub n: u32,
}
impl Time {
    pub fn of(d: Duration) -> Time {
        Time { s: d.as_secs(), n: d.subsec_nanos() }
    }
    pub fn plus(self, o: Time) -> Time {
        let n = self.n + o.n;
        let c = n >= 1_000_000_000;
        Time { s: self.s + o.s + c as u64, n: if c { n - 1_000_000_000 } else { n } }
    }
    pub fn times(self, k: u32) -> Time {
        let mut r = Time { s: 0, n: 0 };
        for _ in 0..k {
            r = r.plus(self);
        }
        r
    }
    pub fn le(self, o: Time) -> bool {
        (self.s < o.s) | ((self.s == o.s) & (self.n <= o.n))
    }
    pub fn eq(self, o: Time) -> bool {
        (self.s == o.s) & (self.n == o.n)
    }
    pub fn max(self, o: Time) -> Time {
        let l = self.le(o);
        Time { s: if l { o.s } else { self.s }, n: if l { o.n } else { self.n } }
    }
}
/// Lets exactly `d` pass.
pub fn pass(d: Duration) {
    let t = now().plus(Time::of(d));
    unsafe {
        CLOCK.sec = t.s;
        CLOCK.nsec = t.n;
    }
}
/// Lets time pass until `t`, if that is in the future.
pub fn until(t: Time) {
    let t = now().max(t);
    unsafe {
        CLOCK.sec = t.s;
        CLOCK.nsec = t.n;
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_id: i32, _flags: i32, req: *const Ts, _rem: *mut Ts) -> i32 {
    pass(Duration::new((*req).sec as u64, (*req).nsec as u32));
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, _rem: *mut Ts) -> i32 {
    pass(Duration::new((*req).sec as u64, (*req).nsec as u32));
    0
}
