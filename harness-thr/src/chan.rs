//! The channels that handlers report over: one-shot channels, parkers, queues; one thread and several.
use crate::mon::{self, live};
use crate::nd;
use std::ops::ControlFlow;
use vinezombie::client::channel::oneshot::{self, Receiver};
use vinezombie::client::channel::parker::{self, Parker, Unparker};
use vinezombie::client::channel::{ChannelSpec, ClosedSender, Sender, Sent, SyncChannels};

/// A value that knows how often it was dropped.
#[derive(Debug)]
struct Val {
    tag: usize,
    data: Box<u8>,
}
impl Val {
    fn new(tag: usize, data: u8) -> Val {
        Val { tag, data: Box::new(data) }
    }
}
impl Default for Val {
    fn default() -> Val {
        nd::fail("model")
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        nd::check(self.tag < 8, "a value that was never sent is dropped");
        mon::set_drops(self.tag, mon::drops(self.tag) + 1)
    }
}
fn dropped(tag: usize) -> bool {
    let n = mon::drops(tag);
    nd::check(n < 2, "a value is dropped twice");
    n == 1
}

/// One-shot channels under any history of sends, clones, drops and receives.
pub fn h_oneshot_seq() {
    let start = live();
    let (s, r) = oneshot::channel::<Val>();
    let mut senders: Vec<Option<oneshot::Sender<Val>>> = vec![Some(s)];
    let mut recver = Some(r);
    // the value under way
    let mut sent: Option<(usize, u8)> = None;
    // whether a value was ever sent
    let mut used = false;
    let mut next = 0;
    for _ in 0..nd::param(0) {
        let i = if senders.is_empty() { 0 } else { nd::choose(senders.len()) };
        match nd::choose(5) {
            0 if !senders.is_empty() && senders.len() < nd::param(1) => {
                let c = senders[i].clone();
                senders.push(c);
            }
            1 if !senders.is_empty() => {
                senders.remove(i);
            }
            2 if !senders.is_empty() && next < 8 => {
                let data = nd::u8_();
                let v = Val::new(next, data);
                let open = recver.is_some() && !used;
                if nd::flip() {
                    // as handlers do it
                    let mut s = senders.remove(i);
                    nd::check(s.may_send() == open, "may_send() differs");
                    let res = s.send(v);
                    nd::check(res == ControlFlow::Break(if open { Sent::Ok } else { Sent::Closed }), "the result of sending differs");
                    nd::check(s.is_none() && !s.may_send(), "a used sender stays open");
                    let d = nd::u8_();
                    nd::check(s.send(Val::new(7, d)) == ControlFlow::Break(Sent::Closed) && dropped(7), "a used sender sends again");
                    mon::set_drops(7, 0);
                    nd::check(dropped(next) == !open, "a value is dropped or kept wrongly");
                } else {
                    let Some(s) = senders.remove(i) else { nd::fail("model") };
                    match s.send(v) {
                        Ok(()) => nd::check(open, "sending into a closed channel succeeds"),
                        Err(v) => {
                            nd::check(!open, "sending into an open channel fails");
                            nd::check((v.tag == next) & (*v.data == data), "the value refused differs");
                        }
                    }
                }
                if open {
                    sent = Some((next, data));
                    used = true;
                }
                next += 1;
            }
            3 => {
                let Some(r) = recver.take() else { continue };
                let got = if nd::flip() && sent.is_some() {
                    // nobody unparks, and nobody needs to
                    let (_u, p) = parker::new(());
                    r.recv(&p)
                } else {
                    r.recv_now()
                };
                nd::check(got.is_some() == sent.is_some(), "a value is received that was not sent, or the reverse");
                if let (Some(v), Some((tag, data))) = (&got, sent) {
                    nd::check((v.tag == tag) & (*v.data == data), "the value received differs");
                    nd::check(!dropped(tag), "the value received is dropped already");
                }
                drop(got);
                if let Some((tag, _)) = sent.take() {
                    nd::check(dropped(tag), "the value received was duplicated");
                }
            }
            4 => {
                if recver.take().is_some() {
                    if let Some((tag, _)) = sent.take() {
                        nd::check(dropped(tag), "a value that was never received leaks");
                    }
                }
            }
            _ => continue,
        }
        for s in senders.iter().flatten() {
            nd::check(s.is_closed() == (recver.is_none() || used), "is_closed() differs");
        }
        if let Some(r) = &recver {
            nd::check(r.is_empty() == sent.is_none(), "is_empty() differs");
            match (r.peek(), sent) {
                (None, None) => (),
                (Some(v), Some((tag, data))) => nd::check((v.tag == tag) & (*v.data == data), "the value waiting differs"),
                _ => nd::fail("a value is waiting that was not sent, or the reverse"),
            }
        }
    }
    if nd::flip() {
        drop(senders);
        drop(recver);
    } else {
        drop(recver);
        drop(senders);
    }
    for t in 0..next {
        nd::check(dropped(t), "a value leaks");
    }
    nd::check(live() == start, "a channel leaks");
}

/// Parking ends at once if there was an unpark since the last time or no unparker is left.
pub fn h_parker_seq() {
    let start = live();
    let (u, p) = parker::new(());
    let mut us: Vec<Unparker<()>> = vec![u];
    let mut pending = false;
    for _ in 0..nd::param(0) {
        let i = if us.is_empty() { 0 } else { nd::choose(us.len()) };
        match nd::choose(4) {
            0 if !us.is_empty() && us.len() < 3 => {
                let c = us[i].clone();
                us.push(c);
            }
            1 if !us.is_empty() => {
                us.remove(i);
            }
            2 if !us.is_empty() => {
                us[i].unpark();
                pending = true;
            }
            3 if pending || us.is_empty() => {
                p.park();
                pending = false;
            }
            _ => continue,
        }
    }
    drop(us);
    p.park();
    if nd::flip() {
        p.park();
    }
    drop(p);
    nd::check(live() <= start + 1, "a parker leaks");
}
/// The channels handlers are given.
pub fn h_queue_seq() {
    let start = live();
    {
        let (mut s, r) = SyncChannels.new_queue::<Val>();
        let mut r = Some(r);
        let mut sent: Vec<(usize, u8)> = vec![];
        let mut next = 0;
        for _ in 0..nd::param(0) {
            match nd::choose(3) {
                0 if next < 7 => {
                    let d = nd::u8_();
                    nd::check(s.may_send(), "may_send() differs");
                    let res = s.send(Val::new(next, d));
                    if r.is_some() {
                        nd::check(res == ControlFlow::Continue(()) && Sent::from(res) == Sent::Ok, "the result of sending differs");
                        sent.push((next, d));
                    } else {
                        nd::check(res == ControlFlow::Break(Sent::Closed) && Sent::from(res) == Sent::Closed, "the result of sending differs");
                        nd::check(dropped(next), "a value leaks");
                    }
                    next += 1;
                }
                1 => {
                    let Some(r) = &r else { continue };
                    match r.try_recv() {
                        Ok(v) => {
                            nd::check(!sent.is_empty(), "a value is received that was not sent");
                            let (tag, d) = sent.remove(0);
                            nd::check((v.tag == tag) & (*v.data == d), "values are received out of order");
                        }
                        Err(_) => nd::check(sent.is_empty(), "a value sent is not received"),
                    }
                }
                2 => {
                    r = None;
                    sent.clear();
                }
                _ => (),
            }
        }
        drop(r);
        drop(s);
        for t in 0..next {
            nd::check(dropped(t), "a value leaks");
        }
        let mut c = ClosedSender::<Val>::default();
        nd::check(!c.may_send(), "a closed sender may send");
        nd::check(c.send(Val::new(7, 0)) == ControlFlow::Break(Sent::Closed) && dropped(7), "a closed sender sends");
        // one-shot, as handlers get it
        mon::set_drops(7, 0);
        let (mut s, (r, p)) = SyncChannels.new_oneshot::<Val>();
        nd::check(s.may_send(), "may_send() differs");
        let d = nd::u8_();
        match nd::choose(3) {
            0 => {
                nd::check(s.send(Val::new(7, d)) == ControlFlow::Break(Sent::Ok), "the result of sending differs");
                nd::check(!s.may_send(), "may_send() differs");
                if nd::flip() {
                    drop(s);
                }
                let v = r.recv(&p);
                nd::check(v.as_ref().is_some_and(|v| v.tag == 7 && *v.data == d), "a value sent is not received");
            }
            1 => {
                drop(s);
                nd::check(r.recv(&p).is_none(), "a value is received that was not sent");
                mon::set_drops(7, 1);
            }
            _ => {
                drop(r);
                nd::check(!s.may_send(), "may_send() differs");
                nd::check(s.send(Val::new(7, d)) == ControlFlow::Break(Sent::Closed), "the result of sending differs");
            }
        }
        nd::check(dropped(7), "a value leaks");
    }
    nd::check(live() <= start + 1, "a channel leaks");
}

// ------------------------------------------------------------------ several threads
struct Job<S> {
    sender: Option<S>,
    tag: usize,
    what: usize,
    result: Option<bool>,
}
extern "C" fn oneshot_thread(p: *mut u8) {
    let j = unsafe { &mut *(p as *mut Job<oneshot::Sender<Val>>) };
    let Some(s) = j.sender.take() else { nd::fail("model") };
    let s = match j.what {
        0 => return,
        1 => s,
        2 => {
            let c = s.clone();
            drop(s);
            c
        }
        _ => {
            if s.is_closed() {
                // then sending fails for sure
                nd::check(s.send(Val::new(j.tag, j.tag as u8)).is_err(), "a closed channel is sent to");
                j.result = Some(false);
                return;
            }
            s
        }
    };
    j.result = Some(match s.send(Val::new(j.tag, j.tag as u8)) {
        Ok(()) => true,
        Err(v) => {
            nd::check((v.tag == j.tag) & (*v.data == j.tag as u8), "the value refused differs");
            false
        }
    });
}
/// Senders and a receiver on threads of their own.
pub fn h_oneshot_race() {
    let start = live();
    let n = nd::param(0);
    let kinds = nd::param(1);
    let (s, r) = oneshot::channel::<Val>();
    let mut jobs: Vec<Job<oneshot::Sender<Val>>> = (1..n).map(|i| Job { sender: Some(s.clone()), tag: i, what: nd::choose(kinds), result: None }).collect();
    jobs.push(Job { sender: Some(s), tag: 0, what: nd::choose(kinds), result: None });
    let what = nd::choose(4);
    let ts: Vec<u64> = jobs.iter_mut().map(|j| unsafe { nd::vz_spawn(oneshot_thread, j as *mut _ as *mut u8) }).collect();
    let got = match what {
        0 => Some(r.recv_now()),
        1 => {
            drop(r);
            None
        }
        2 => {
            let full = !r.is_empty();
            let g = r.recv_now();
            nd::check(g.is_some() || !full, "a value that was there is not received");
            Some(g)
        }
        _ => {
            let seen = r.peek().map(|v| (v.tag, *v.data));
            let g = r.recv_now();
            if let Some((t, d)) = seen {
                nd::check(g.as_ref().is_some_and(|v| v.tag == t && *v.data == d), "the value received is not the one waiting");
            }
            Some(g)
        }
    };
    for t in ts {
        unsafe { nd::vz_join(t) }
    }
    let ok = jobs.iter().filter(|j| j.result == Some(true)).count();
    nd::check(ok < 2, "two values are sent over a one-shot channel");
    match &got {
        Some(Some(v)) => {
            nd::check(jobs.iter().any(|j| j.tag == v.tag && j.result == Some(true)), "a value is received whose sending failed");
            nd::check(*v.data == v.tag as u8 && !dropped(v.tag), "the value received differs");
        }
        Some(None) => nd::check(ok == 0, "a value was sent and is lost"),
        None => (),
    }
    drop(got);
    for j in &jobs {
        nd::check(dropped(j.tag) == j.result.is_some(), "a value leaks");
    }
    drop(jobs);
    nd::check(live() <= start, "a channel leaks");
}

extern "C" fn parker_thread(p: *mut u8) {
    let j = unsafe { &mut *(p as *mut Job<Unparker<()>>) };
    let Some(s) = j.sender.take() else { nd::fail("model") };
    if j.what == 1 {
        mon::begin(j.tag);
        s.unpark();
    }
    mon::end(j.tag);
    drop(s);
}
/// Parking ends when somebody unparks or nobody is left to, not earlier, and never hangs.
pub fn h_parker_race() {
    let n = nd::param(0);
    let (u, p) = parker::new(());
    let mut jobs: Vec<Job<Unparker<()>>> = (1..n).map(|i| Job { sender: Some(u.clone()), tag: i, what: nd::choose(2), result: None }).collect();
    jobs.push(Job { sender: Some(u), tag: 0, what: nd::choose(2), result: None });
    let ts: Vec<u64> = jobs.iter_mut().map(|j| unsafe { nd::vz_spawn(parker_thread, j as *mut _ as *mut u8) }).collect();
    let began = || (0..n).filter(|i| mon::began(*i)).count();
    let gone = || (0..n).all(mon::ended);
    for i in 0..nd::param(1) {
        p.park();
        // every return is somebody's doing
        nd::check(gone() || began() > i, "parking ends although nobody unparked");
    }
    for t in ts {
        unsafe { nd::vz_join(t) }
    }
    p.park();
    if jobs.iter().any(|j| j.what == 1) {
        p.park();
    }
}
/// One parker after the other: what is left of the first does not end parking for the second.
pub fn h_parker_again() {
    let start = live();
    let n = nd::param(0);
    let mut jobs: Vec<Job<Unparker<()>>> = vec![];
    let mut ps: Vec<Parker> = vec![];
    for i in 0..n {
        let (u, p) = parker::new(());
        jobs.push(Job { sender: Some(u), tag: i, what: nd::choose(2), result: None });
        ps.push(p);
    }
    let mut ts: Vec<u64> = vec![];
    for j in jobs.iter_mut() {
        ts.push(unsafe { nd::vz_spawn(parker_thread, j as *mut _ as *mut u8) });
    }
    for (i, p) in ps.into_iter().enumerate() {
        p.park();
        nd::check(mon::began(i) || mon::ended(i), "parking ends although nobody unparked");
    }
    for t in ts {
        unsafe { nd::vz_join(t) }
    }
    drop(jobs);
    nd::check(live() <= start + 1, "a parker leaks");
}

extern "C" fn recv_thread(p: *mut u8) {
    let j = unsafe { &mut *(p as *mut Job<Unparker<Option<oneshot::Sender<Val>>>>) };
    let Some(mut s) = j.sender.take() else { nd::fail("model") };
    if j.what == 1 {
        j.result = Some(s.send(Val::new(j.tag, j.tag as u8)) == ControlFlow::Break(Sent::Ok));
        // the sender stays: sending alone has to wake the receiver
        j.sender = Some(s);
    }
}
/// Waiting for a value from any of several threads.
pub fn h_recv_race() {
    let start = live();
    let n = nd::param(0);
    let (s, r) = oneshot::channel::<Val>();
    let (u, p): (_, Parker) = parker::new(Some(s));
    let mut jobs: Vec<Job<Unparker<Option<oneshot::Sender<Val>>>>> = (1..n).map(|i| Job { sender: Some(u.clone()), tag: i, what: nd::choose(2), result: None }).collect();
    jobs.push(Job { sender: Some(u), tag: 0, what: nd::choose(2), result: None });
    let ts: Vec<u64> = jobs.iter_mut().map(|j| unsafe { nd::vz_spawn(recv_thread, j as *mut _ as *mut u8) }).collect();
    let r: Receiver<Val> = r;
    let got = r.recv(&p);
    for t in ts {
        unsafe { nd::vz_join(t) }
    }
    let ok = jobs.iter().filter(|j| j.result == Some(true)).count();
    let any = jobs.iter().any(|j| j.what == 1);
    nd::check(got.is_some() == any, "a value sent is not waited for, or one is received that was not sent");
    nd::check(ok == any as usize, "not exactly one of the values sent goes through");
    if let Some(v) = &got {
        nd::check(jobs.iter().any(|j| j.tag == v.tag && j.result == Some(true)), "a value is received whose sending failed");
    }
    drop(got);
    for j in &jobs {
        nd::check(dropped(j.tag) == (j.what == 1), "a value leaks");
    }
    drop(jobs);
    drop(p);
    // the main thread's handle stays
    nd::check(live() <= start + 1, "a channel leaks");
}
