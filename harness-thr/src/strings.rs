//! Strings shared between threads.
use crate::mon::live;
use crate::nd;
use vinezombie::owning::MakeOwning;
use vinezombie::string::{tf::AsciiCasemap, Bytes, SecretBuf};

struct Job {
    string: Option<Bytes<'static>>,
    what: usize,
    want: [u8; 3],
}
extern "C" fn bytes_thread(p: *mut u8) {
    let j = unsafe { &mut *(p as *mut Job) };
    let Some(s) = j.string.take() else { nd::fail("model") };
    work(s, j.what, &j.want);
}
fn work(mut s: Bytes<'static>, what: usize, want: &[u8; 3]) {
    let same = |s: &[u8]| nd::check(s.len() == 3 && (s[0] == want[0]) & (s[1] == want[1]) & (s[2] == want[2]), "the value of a shared string differs");
    match what {
        0 => same(&s),
        1 => {
            let c = s.clone();
            drop(s);
            same(&c);
        }
        2 => {
            let mut v = s.into_vec();
            same(&v);
            v.clear();
            v.push(1);
        }
        3 => {
            s.make_owning();
            nd::check(s.to_utf8().is_some_and(|t| t.len() == 3), "a shared string is not UTF-8");
            same(&s);
        }
        4 => {
            s.transform(AsciiCasemap::<true>);
            nd::check(s.len() == 3 && s[0] == want[0].to_ascii_uppercase(), "a shared string is changed wrongly");
        }
        _ => {
            let s = s.secret();
            same(&s);
        }
    }
}
/// Every thread has a clone of one string and does with it what it wants.
pub fn h_bytes_race() {
    let start = live();
    let n = nd::param(0);
    let kinds = nd::param(1);
    let want = [b'a', b'Q', b'z'];
    {
        let s: Bytes<'static> = if nd::flip() {
            let mut b = SecretBuf::with_capacity(3);
            b.push_slice(&want);
            b.into_bytes()
        } else {
            Bytes::from(want.to_vec())
        };
        let mut jobs: Vec<Job> = (0..n).map(|_| Job { string: Some(s.clone()), what: nd::choose(kinds), want }).collect();
        let what = nd::choose(kinds);
        let ts: Vec<u64> = jobs.iter_mut().map(|j| unsafe { nd::vz_spawn(bytes_thread, j as *mut _ as *mut u8) }).collect();
        work(s, what, &want);
        for t in ts {
            unsafe { nd::vz_join(t) }
        }
    }
    nd::check(live() <= start, "a shared string leaks");
}
