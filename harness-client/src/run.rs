//! The run loop: timeouts, waits for the rate limit, ends of the connection.
use crate::clock::{self, Time};
use crate::nd;
use crate::world::{self, w, Conn};
use std::ops::ControlFlow;
use std::time::Duration;
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::handlers::{AutoPong, YieldAll};
use vinezombie::client::Client;
use vinezombie::ircmsg::ClientMsg;
use vinezombie::string::Cmd;

const LIMITS: [Option<Duration>; 6] = [
    None,
    Some(Duration::from_secs(5)),
    Some(Duration::from_secs(1)),
    Some(Duration::from_millis(300)),
    Some(Duration::ZERO),
    Some(Duration::from_secs(u64::MAX)),
];
fn effective(i: usize) -> Option<Duration> {
    match LIMITS[i] {
        Some(d) if d < Duration::from_secs(1) => Some(Duration::from_secs(1)),
        d => d,
    }
}
/// Some time below `max` seconds, in eighths of a second, never a whole second.
fn some_time(max: u8) -> Time {
    let s = nd::below(max);
    let k = nd::below(8);
    nd::assume(k > 0);
    Time { s: s as u64, n: k as u32 * 125_000_000 }
}
static mut CALLS: usize = 0;
/// One run of a client that has messages to send, while at most one message arrives, at any time.
pub fn h_run_times() {
    let queued = nd::choose(nd::param(0) + 1);
    let delay = [Duration::from_secs(2), Duration::ZERO][nd::choose(2)];
    let rlim = nd::choose(nd::param(1));
    let wlim = nd::choose(nd::param(2));
    let handlers = nd::choose(3);
    let on_timeout = nd::choose(3);
    let twice = nd::param(3) > 0 && nd::flip();
    w().dry = 1;
    let mut c = Client::new(Conn, SyncChannels);
    c.queue_mut().set_rate_limit(delay, 0);
    if twice {
        // limits set earlier leave no trace
        c.set_read_timeout(Some(Duration::from_secs(3))).set_write_timeout(Some(Duration::from_secs(3)));
        let Ok(_) = c.add((), AutoPong);
        let _ = c.run();
        c.reset();
        w().dry_reads = 0;
    }
    c.queue_mut().set_rate_limit(delay, 0);
    let ready = clock::now().plus(Time::of(delay));
    w().writes.clear();
    c.set_read_timeout(LIMITS[rlim]).set_write_timeout(LIMITS[wlim]);
    for _ in 0..queued {
        c.queue_mut().edit().push(ClientMsg::new_cmd(Cmd::from_str("A")));
    }
    let mut q = None;
    if handlers == 1 {
        let Ok(_) = c.add((), AutoPong);
    } else if handlers == 2 {
        let Ok((_, r)) = c.add((), YieldAll);
        q = Some(r);
    }
    match on_timeout {
        0 => (),
        k => c.set_timeout_fn(Some(move |_: &mut vinezombie::client::ClientLogic| {
            unsafe { CALLS += 1 };
            if k == 1 || unsafe { CALLS } > 1 {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(())
            }
        })),
    }
    let start = clock::now();
    // the model: when messages are sent, and when and how the run ends
    let mut at = None;
    if handlers != 0 {
        // a message arrives within a minute
        let t = start.plus(some_time(60));
        at = Some(t);
        w().arrive.push((t, b"PING x\r\n".to_vec()));
    }
    let r = c.run();
    let r = match r {
        Ok(None) => 0,
        Ok(Some((y, f))) => {
            nd::check(y.is_empty() == (handlers != 2) && f.is_empty(), "the handlers reported differ");
            1
        }
        Err(e) => {
            nd::check(e.kind() == std::io::ErrorKind::TimedOut, "an I/O error out of nothing");
            2
        }
    };
    let end = clock::now();
    let delay = Time::of(delay);
    let rl = effective(rlim);
    let mut now = start;
    let mut left = queued;
    let mut sends = vec![];
    let mut next = ready;
    let mut ponged = false;
    let mut calls = 0;
    let expect;
    loop {
        // send what may be sent
        let mut any = false;
        while left > 0 && next.le(now) {
            left -= 1;
            any = true;
            next = now.plus(delay);
        }
        if any {
            sends.push(now);
        }
        if handlers == 0 {
            if left == 0 {
                expect = 1;
                break;
            }
            now = next;
            continue;
        }
        // how long to read
        let wait = if left > 0 { Some(next) } else { None };
        let by = rl.filter(|d| d.as_secs() < 1 << 40).map(|d| now.plus(Time::of(d)));
        let (until, limited) = match (wait, by) {
            (Some(a), Some(b)) => {
                if a.le(b) {
                    (Some(a), true)
                } else {
                    (Some(b), false)
                }
            }
            (Some(a), None) => (Some(a), true),
            (None, b) => (b, false),
        };
        let arrival = if ponged { None } else { at };
        let comes = match (arrival, until) {
            (None, None) => return, // blocks for ever
            (Some(_), None) => true,
            (None, Some(_)) => false,
            (Some(a), Some(u)) => a.le(u),
        };
        if comes {
            now = at.unwrap();
            if handlers == 2 {
                expect = 1;
                // what may be sent is sent before returning
                break;
            }
            ponged = true;
            left += 1;
            continue;
        }
        now = until.unwrap();
        if limited {
            continue;
        }
        calls += 1;
        match on_timeout {
            0 => {
                expect = 0;
                calls = 0;
                break;
            }
            1 => {
                expect = 2;
                break;
            }
            _ => {
                if calls == 2 {
                    expect = 2;
                    break;
                }
            }
        }
    }
    nd::check(r == expect, "the run ends in another way");
    nd::check(unsafe { CALLS } == calls, "the timeout function is not called once per timeout");
    nd::check(now.eq(end), "the run ends at another time");
    let wr = &w().writes;
    // a final flush may write once more
    let mut more = sends.len();
    if handlers == 2 && left > 0 && next.le(now) {
        more += 1;
    }
    let mut i = 0;
    for (t, lim) in wr.iter() {
        nd::check(i < more, "more is written than may be");
        nd::check(t.eq(if i < sends.len() { sends[i] } else { now }), "messages are sent at another time");
        nd::check(*lim == effective(wlim), "data is written under another write timeout than the one set");
        i += 1;
    }
    nd::check(i == more, "messages are not sent");
    nd::cover(expect as u32);
    drop(q);
}
/// Bytes that trickle in do not extend the read timeout, and are not lost to it.
pub fn h_run_trickle() {
    w().dry = 1;
    let mut c = Client::new(Conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(5)));
    let owning = nd::flip();
    let mut q = None;
    if owning {
        let Ok((_, r)) = c.add((), YieldAll);
        q = Some(r);
    } else {
        let Ok(_) = c.add((), AutoPong);
    }
    let line = b"PING abcde\r\n";
    let mut t = clock::now();
    let start = t;
    let mut from = 0;
    let pieces = 1 + nd::choose(nd::param(0));
    for i in 0..pieces {
        // cut before the command, in the middle, or within the terminator
        let cuts: Vec<usize> = [1, 5, 11].into_iter().filter(|k| *k > from).collect();
        let to = if i == pieces - 1 || cuts.is_empty() { line.len() } else { cuts[nd::choose(cuts.len())] };
        t = t.plus(some_time(20));
        w().arrive.push((t, line[from..to].to_vec()));
        from = to;
        if to == line.len() {
            break;
        }
    }
    // the message is complete at t; every run before that times out after five seconds
    let mut begin = start;
    for _ in 0..20 {
        w().dry_reads = 0;
        let end = begin.plus(Time { s: 5, n: 0 });
        let r = match c.run() {
            Ok(None) => 0,
            Ok(Some(_)) => 1,
            Err(_) => nd::fail("an I/O error out of nothing"),
        };
        if t.le(end) {
            if owning {
                nd::check(r == 1 && clock::now().eq(t), "a message that came in pieces is not handled when it is complete");
            } else {
                nd::check(r == 0, "a result out of nothing");
            }
            break;
        }
        nd::check(r == 0, "a result out of nothing");
        nd::check(clock::now().eq(end), "bytes that trickle in extend the read timeout");
        begin = end;
    }
    if owning {
        let Ok(m) = q.as_ref().unwrap().try_recv() else { nd::fail("a message that came in pieces is lost") };
        nd::check(m.kind.as_str() == "PING" && m.args.split_last().1.is_some_and(|a| a == "abcde"), "a message that came in pieces is changed");
        nd::check(world::lines().is_empty(), "a message out of nothing");
    } else {
        let l = world::lines();
        nd::check(l.len() == 1 && l[0] == b"PONG abcde", "a message that came in pieces is changed");
    }
    nd::cover(pieces as u32);
}
/// The end of the connection, broken lines and failing writes are errors.
pub fn h_run_errors() {
    let mut c = Client::new(Conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let Ok(_) = c.add((), AutoPong);
    w().chunk = 1 + nd::choose(3) * 7;
    let part = nd::upto(nd::param(0));
    let n = part.len();
    for b in &part {
        nd::assume((*b != 10) & (*b != 13) & (*b != 0));
    }
    match nd::choose(3) {
        0 => {
            world::feed(b"PING a");
            world::feed_raw(&part);
            w().dry = 2;
            let e = match c.run() {
                Err(e) => e,
                Ok(_) => nd::fail("the end of the connection is not reported"),
            };
            nd::check(e.kind() == std::io::ErrorKind::UnexpectedEof, "the end of the connection is reported as something else");
            let l = world::lines();
            nd::check(l.len() == 1 && l[0] == b"PONG a", "messages before the end of the connection are not handled");
            let _ = n;
        }
        1 => {
            w().fail_write = true;
            world::feed(b"PING a");
            nd::check(c.run().is_err(), "a failed write is not reported");
        }
        _ => {
            w().fail_write = true;
            c.queue_mut().edit().push(ClientMsg::new_cmd(Cmd::from_str("A")));
            world::feed(b"X");
            nd::check(c.run().is_err(), "a failed write is not reported");
        }
    }
}
