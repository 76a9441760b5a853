//! The asynchronous run loop: timeouts, waits for the rate limit, stalled writes, cancellation.
use crate::clock::{self, Time};
use crate::nd;
use std::future::Future;
use std::io::{ErrorKind, Result};
use std::ops::ControlFlow;
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::conn::Bidir;
use vinezombie::client::handlers::{AutoPong, YieldAll};
use vinezombie::client::Client;
use vinezombie::ircmsg::ClientMsg;
use vinezombie::string::Cmd;

struct World {
    input: Vec<u8>,
    pos: usize,
    arrive: Vec<(Time, Vec<u8>)>,
    eof: bool,
    waiting: bool,
    out: Vec<u8>,
    flushed: usize,
    writes: Vec<Time>,
    /// The writer takes so many bytes, and then nothing until then (`None`: ever).
    stalls: Vec<(usize, Option<Time>)>,
    stall_flush: bool,
    fail_write: bool,
}
static mut W: World = World {
    input: vec![],
    pos: 0,
    arrive: vec![],
    eof: false,
    waiting: false,
    out: vec![],
    flushed: 0,
    writes: vec![],
    stalls: vec![],
    stall_flush: false,
    fail_write: false,
};
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { &mut W }
}
struct R;
struct Wr;
impl AsyncRead for R {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let n = match self.as_mut().poll_fill_buf(cx) {
            Poll::Ready(Ok(s)) => {
                let n = s.len().min(buf.remaining());
                buf.put_slice(&s[..n]);
                n
            }
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        self.consume(n);
        Poll::Ready(Ok(()))
    }
}
impl AsyncBufRead for R {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        let w = w();
        while w.pos == w.input.len() && !w.arrive.is_empty() && w.arrive[0].0.le(clock::now()) {
            let (_, b) = w.arrive.remove(0);
            w.input.extend_from_slice(&b);
        }
        if w.pos == w.input.len() && !w.eof {
            w.waiting = true;
            return Poll::Pending;
        }
        Poll::Ready(Ok(&w.input[w.pos..]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        nd::check(w().pos + n <= w().input.len(), "more consumed than there is");
        w().pos += n;
    }
}
fn stalled(w: &mut World) -> bool {
    if let Some((0, t)) = w.stalls.first() {
        match t {
            Some(t) if t.le(clock::now()) => {
                w.stalls.remove(0);
            }
            _ => return true,
        }
    }
    false
}
impl AsyncWrite for Wr {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        let w = w();
        if w.fail_write {
            return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
        }
        if stalled(w) {
            return Poll::Pending;
        }
        let mut n = b.len();
        if let Some(s) = w.stalls.first_mut() {
            n = n.min(s.0);
            s.0 -= n;
        }
        w.writes.push(clock::now());
        w.out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        let w = w();
        if w.stall_flush && stalled(w) {
            return Poll::Pending;
        }
        w.flushed = w.out.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
}
/// Runs a task like a runtime does: it is polled again when something it waits for has happened.
/// Returns `None` if nothing ever will, or when it is to be abandoned.
fn block_on<F: Future>(f: F, mut abandon: impl FnMut() -> bool) -> Option<F::Output> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..20 {
        w().waiting = false;
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
        if abandon() {
            return None;
        }
        let mut next: Option<Time> = None;
        let mut event = |t: Time| {
            next = Some(match next {
                Some(u) if u.le(t) => u,
                _ => t,
            })
        };
        for d in tokio::time::waiting().into_iter().flatten() {
            event(clock::now().plus(Time::of(d.saturating_duration_since(Instant::now()))));
        }
        if w().waiting && !w().arrive.is_empty() {
            event(w().arrive[0].0);
        }
        if let Some((0, Some(t))) = w().stalls.first() {
            event(*t);
        }
        match next {
            None => return None,
            Some(t) => clock::until(t),
        }
    }
    nd::fail("the task spins")
}

const LIMITS: [Option<Duration>; 6] = [
    None,
    Some(Duration::from_secs(5)),
    Some(Duration::from_secs(1)),
    Some(Duration::from_millis(300)),
    Some(Duration::ZERO),
    Some(Duration::from_secs(u64::MAX)),
];
fn effective(i: usize) -> Option<Duration> {
    match LIMITS[i] {
        Some(d) if d < Duration::from_secs(1) => Some(Duration::from_secs(1)),
        d => d,
    }
}
/// Some time below `max` seconds, in eighths of a second, never a whole second.
fn some_time(max: u8) -> Time {
    let s = nd::below(max);
    let k = nd::below(8);
    nd::assume(k > 0);
    Time { s: s as u64, n: k as u32 * 125_000_000 }
}
static mut CALLS: usize = 0;
/// One run of a client that has messages to send, while at most one message arrives, at any time.
pub fn h_arun_times() {
    let queued = nd::choose(nd::param(0) + 1);
    let delay = [Duration::from_secs(2), Duration::ZERO][nd::choose(2)];
    let rlim = nd::choose(nd::param(1));
    let handlers = nd::choose(3);
    let on_timeout = nd::choose(3);
    let mut c = Client::new(Bidir(R, Wr), SyncChannels);
    c.queue_mut().set_rate_limit(delay, 0);
    let ready = clock::now().plus(Time::of(delay));
    c.set_read_timeout(LIMITS[rlim]).set_write_timeout(Some(Duration::from_secs(1)));
    for _ in 0..queued {
        c.queue_mut().edit().push(ClientMsg::new_cmd(Cmd::from_str("A")));
    }
    let mut q = None;
    if handlers == 1 {
        let Ok(_) = c.add((), AutoPong);
    } else if handlers == 2 {
        let Ok((_, r)) = c.add((), YieldAll);
        q = Some(r);
    }
    match on_timeout {
        0 => (),
        k => c.set_timeout_fn(Some(move |_: &mut vinezombie::client::ClientLogic| {
            unsafe { CALLS += 1 };
            if k == 1 || unsafe { CALLS } > 1 {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(())
            }
        })),
    }
    let start = clock::now();
    let mut at = None;
    if handlers != 0 {
        let t = start.plus(some_time(60));
        at = Some(t);
        w().arrive.push((t, b"PING x\r\n".to_vec()));
    }
    let r = match block_on(c.run_tokio(), || false) {
        None => 3,
        Some(Ok(None)) => 0,
        Some(Ok(Some((y, f)))) => {
            nd::check(y.is_empty() == (handlers != 2) && f.is_empty(), "the handlers reported differ");
            1
        }
        Some(Err(e)) => {
            nd::check(e.kind() == ErrorKind::TimedOut, "an I/O error out of nothing");
            2
        }
    };
    let end = clock::now();
    // the model: when messages are sent, and when and how the run ends
    let delay = Time::of(delay);
    let rl = effective(rlim);
    let mut now = start;
    let mut left = queued;
    let mut sends = vec![];
    let mut next = ready;
    let mut ponged = false;
    let mut calls = 0;
    let expect;
    loop {
        let mut any = false;
        while left > 0 && next.le(now) {
            left -= 1;
            any = true;
            next = now.plus(delay);
        }
        if any {
            sends.push(now);
        }
        if handlers == 0 {
            if left == 0 {
                expect = 1;
                break;
            }
            now = next;
            continue;
        }
        let wait = if left > 0 { Some(next) } else { None };
        let by = rl.filter(|d| d.as_secs() < 1 << 40).map(|d| now.plus(Time::of(d)));
        let (until, limited) = match (wait, by) {
            (Some(a), Some(b)) => {
                if a.le(b) {
                    (Some(a), true)
                } else {
                    (Some(b), false)
                }
            }
            (Some(a), None) => (Some(a), true),
            (None, b) => (b, false),
        };
        let arrival = if ponged { None } else { at };
        let comes = match (arrival, until) {
            (None, None) => {
                expect = 3;
                break;
            }
            (Some(_), None) => true,
            (None, Some(_)) => false,
            (Some(a), Some(u)) => a.le(u),
        };
        if comes {
            now = at.unwrap();
            if handlers == 2 {
                expect = 1;
                break;
            }
            ponged = true;
            left += 1;
            continue;
        }
        now = until.unwrap();
        if limited {
            continue;
        }
        calls += 1;
        match on_timeout {
            0 => {
                expect = 0;
                calls = 0;
                break;
            }
            1 => {
                expect = 2;
                break;
            }
            _ => {
                if calls == 2 {
                    expect = 2;
                    break;
                }
            }
        }
    }
    nd::check(r == expect, "the run ends in another way");
    nd::check(unsafe { CALLS } == calls, "the timeout function is not called once per timeout");
    nd::check(now.eq(end), "the run ends at another time");
    let mut more = sends.len();
    if handlers == 2 && left > 0 && next.le(now) {
        more += 1;
    }
    let mut i = 0;
    for t in w().writes.iter() {
        nd::check(i < more, "more is written than may be");
        nd::check(t.eq(if i < sends.len() { sends[i] } else { now }), "messages are sent at another time");
        i += 1;
    }
    nd::check(i == more, "messages are not sent");
    nd::check(w().flushed == w().out.len(), "data was written but not flushed");
    nd::cover(expect as u32);
    drop(q);
}
/// A write that makes no progress within the write timeout ends the run; any other goes on.
pub fn h_arun_stall() {
    let wlim = nd::choose(nd::param(1));
    let mut c = Client::new(Bidir(R, Wr), SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_write_timeout(LIMITS[wlim]);
    c.queue_mut().edit().push(ClientMsg::new_cmd(Cmd::from_str("ABC")));
    let line = b"ABC\r\n";
    w().stall_flush = nd::flip();
    let n = 1 + nd::choose(nd::param(0));
    let mut t = clock::now();
    let mut taken = 0;
    let mut end = t;
    let mut expect = 1;
    for i in 0..n {
        let k = [0, 1, 5][nd::choose(3)];
        if taken + k > line.len() || (k == 0 && i > 0) {
            return;
        }
        taken += k;
        if taken == line.len() && !w().stall_flush {
            // nothing left to stall
            break;
        }
        let until = if nd::flip() { None } else { Some(t.plus(some_time(20))) };
        w().stalls.push((k, until));
        let lim = effective(wlim).filter(|d| d.as_secs() < 1 << 40).map(|d| t.plus(Time::of(d)));
        match (until, lim) {
            (None, None) => {
                expect = 3;
                end = t;
                break;
            }
            (None, Some(l)) => {
                expect = 2;
                end = l;
                break;
            }
            (Some(u), Some(l)) if !u.le(l) => {
                expect = 2;
                end = l;
                break;
            }
            (Some(u), _) => {
                t = u;
                end = u;
            }
        }
        if taken == line.len() {
            break;
        }
    }
    let r = match block_on(c.run_tokio(), || false) {
        None => 3,
        Some(Ok(Some(_))) => 1,
        Some(Ok(None)) => 0,
        Some(Err(e)) => {
            nd::check(e.kind() == ErrorKind::TimedOut, "an I/O error out of nothing");
            2
        }
    };
    nd::check(r == expect, "a stalled write ends the run wrongly, or does not");
    nd::check(end.eq(clock::now()), "the run ends at another time");
    if expect == 1 {
        nd::check(w().out == line && w().flushed == line.len(), "the message is not sent once");
    }
    nd::cover(expect as u32);
}
/// Bytes that trickle in do not extend the read timeout and are not lost to it, nor to a run
/// that is abandoned while it waits.
pub fn h_arun_trickle() {
    let mut c = Client::new(Bidir(R, Wr), SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.set_read_timeout(Some(Duration::from_secs(5)));
    let Ok((_, q)) = c.add((), YieldAll);
    let Ok(_) = c.add((), AutoPong);
    let line = b"PING abcde\r\nX\r\n";
    let mut t = clock::now();
    let start = t;
    let mut from = 0;
    let pieces = 1 + nd::choose(nd::param(0));
    for i in 0..pieces {
        let cuts: Vec<usize> = [1, 5, 11, 13].into_iter().filter(|k| *k > from).collect();
        let to = if i == pieces - 1 || cuts.is_empty() { line.len() } else { cuts[nd::choose(cuts.len())] };
        t = t.plus(if pieces == 1 { some_time(20) } else { Time { s: [0, 2, 4, 6, 11][nd::choose(5)], n: 375_000_000 } });
        w().arrive.push((t, line[from..to].to_vec()));
        from = to;
        if to == line.len() {
            break;
        }
    }
    let mut left = nd::param(1);
    let mut begin = start;
    let mut seen = 0;
    for _ in 0..20 {
        let mut abandoned = false;
        let r = block_on(c.run_tokio(), || {
            if left > 0 && nd::flip() {
                left -= 1;
                abandoned = true;
            }
            abandoned
        });
        if abandoned {
            begin = clock::now();
            continue;
        }
        match r {
            None => nd::fail("the run ends in another way"),
            Some(Err(_)) => nd::fail("an I/O error out of nothing"),
            Some(Ok(None)) => {
                nd::check(clock::now().eq(begin.plus(Time { s: 5, n: 0 })), "bytes that trickle in extend the read timeout");
                begin = clock::now();
            }
            Some(Ok(Some(_))) => {
                seen += 1;
                if seen == 2 {
                    break;
                }
                begin = clock::now();
            }
        }
    }
    nd::check(seen == 2, "a message that came in pieces is lost");
    nd::check(clock::now().eq(t), "a message that came in pieces is not handled when it is complete");
    let (Ok(m), Ok(n)) = (q.try_recv(), q.try_recv()) else { nd::fail("a message that came in pieces is lost") };
    nd::check(m.kind.as_str() == "PING" && m.args.split_last().1.is_some_and(|a| a == "abcde") && n.kind.as_str() == "X", "a message that came in pieces is changed");
    nd::check(q.try_recv().is_err(), "a message is seen twice");
    nd::check(w().out == b"PONG abcde\r\n", "a message that came in pieces is answered wrongly");
    nd::cover(pieces as u32);
}
/// The end of the connection and failing writes are errors.
pub fn h_arun_errors() {
    let mut c = Client::new(Bidir(R, Wr), SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    let Ok(_) = c.add((), AutoPong);
    let part = nd::upto(nd::param(0));
    for b in &part {
        nd::assume((*b != 10) & (*b != 13) & (*b != 0));
    }
    w().input.extend_from_slice(b"PING a\r\n");
    match nd::choose(2) {
        0 => {
            w().input.extend_from_slice(&part);
            w().eof = true;
            match block_on(c.run_tokio(), || false) {
                Some(Err(e)) => nd::check(e.kind() == ErrorKind::UnexpectedEof, "the end of the connection is reported as something else"),
                _ => nd::fail("the end of the connection is not reported"),
            }
            nd::check(w().out == b"PONG a\r\n", "messages before the end of the connection are not handled");
        }
        _ => {
            w().fail_write = true;
            if nd::flip() {
                c.queue_mut().edit().push(ClientMsg::new_cmd(Cmd::from_str("A")));
            }
            match block_on(c.run_tokio(), || false) {
                Some(Err(e)) => nd::check(e.kind() == ErrorKind::BrokenPipe, "a failed write is reported as something else"),
                _ => nd::fail("a failed write is not reported"),
            }
        }
    }
    nd::cover(1);
}
