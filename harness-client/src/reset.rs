//! Resetting a client, and moving it to another connection.
use crate::clock::{self, Time};
use crate::nd;
use std::io::{self, BufRead, BufReader, Read, Write};
use std::ops::ControlFlow;
use std::time::Duration;
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::conn::{Bidir, Connection, ReadTimeout, WriteTimeout};
use vinezombie::client::handlers::{AutoPong, YieldAll};
use vinezombie::client::queue::{Adjuster, Queue};
use vinezombie::client::state::ServerVersion;
use vinezombie::client::{Client, ClientLogic, ClientState};
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Arg, Cmd};

#[derive(Default)]
struct Line {
    input: Vec<u8>,
    pos: usize,
    out: Vec<u8>,
    flushed: usize,
    read_to: Option<Duration>,
    write_to: Option<Duration>,
    fail: bool,
    /// Setting a time limit for writing fails.
    fail_set: bool,
    dry: usize,
    /// What happened: 0 read, 1 write; when, and with which time limit.
    log: Vec<(u8, Time, Option<Duration>)>,
}
static mut LINES: Vec<Line> = vec![];
#[allow(static_mut_refs)]
fn line(i: usize) -> &'static mut Line {
    unsafe { &mut LINES[i] }
}
#[allow(static_mut_refs)]
fn open() -> Link {
    unsafe {
        LINES.push(Line::default());
        Link(LINES.len() - 1)
    }
}
#[derive(PartialEq, Eq)]
struct Link(usize);
impl Read for Link {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Link {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let l = line(self.0);
        l.log.push((0, clock::now(), l.read_to));
        if l.pos == l.input.len() {
            l.dry += 1;
            nd::check(l.dry < 20, "the client keeps reading after timeouts");
            // with no limit, nothing happens for a long time, and then the system gives up
            clock::pass(l.read_to.unwrap_or(Duration::from_secs(100)));
            return Err(io::ErrorKind::TimedOut.into());
        }
        Ok(&l.input[l.pos..])
    }
    fn consume(&mut self, n: usize) {
        line(self.0).pos += n;
    }
}
impl Write for Link {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let l = line(self.0);
        if l.fail {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        l.log.push((1, clock::now(), l.write_to));
        l.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        line(self.0).flushed = line(self.0).out.len();
        Ok(())
    }
}
impl ReadTimeout for Link {
    fn set_read_timeout(&mut self, t: Option<Duration>) -> io::Result<()> {
        line(self.0).read_to = t;
        Ok(())
    }
}
impl WriteTimeout for Link {
    fn set_write_timeout(&mut self, t: Option<Duration>) -> io::Result<()> {
        if line(self.0).fail_set {
            return Err(io::ErrorKind::NotConnected.into());
        }
        line(self.0).write_to = t;
        Ok(())
    }
}
impl Connection for Link {
    type BufRead = Link;
    type Write = Link;
    fn as_bufread(&mut self) -> &mut Link {
        self
    }
    fn as_write(&mut self) -> &mut Link {
        self
    }
}

/// Drops queued messages called `D` once it has seen a message.
struct Drops(usize, bool);
impl Adjuster for Drops {
    fn should_adjust(&mut self, _: &ServerMsg<'_>) -> bool {
        self.0 += 1;
        self.0 >= 2
    }
    fn update(&mut self, m: &mut ClientMsg<'_>) -> bool {
        m.cmd != Cmd::from_str("D") || !self.1
    }
    fn reset(&mut self) {
        self.0 = 0;
    }
}
#[derive(Clone, Copy)]
struct Config {
    delay: Duration,
    burst: u32,
    rlim: Option<Duration>,
    wlim: Option<Duration>,
    adj: bool,
}
fn config(n: usize) -> Config {
    let k = nd::choose(n);
    Config {
        delay: Duration::from_secs([2, 0, 3, 2][k]),
        burst: [0, 0, 1, 2][k],
        rlim: [Some(Duration::from_secs(7)), None, None, Some(Duration::from_secs(1))][k],
        wlim: [Some(Duration::from_secs(4)), None, Some(Duration::from_secs(1)), None][k],
        adj: k == 0 || k == 3,
    }
}
/// A new client, configured after it was made.
fn late(c: &Config) -> Client<Link, SyncChannels> {
    let mut r = Client::new(open(), SyncChannels);
    r.queue_mut().set_rate_limit(c.delay, c.burst);
    r.queue_mut().use_adjuster(Drops(0, c.adj));
    r.set_read_timeout(c.rlim).set_write_timeout(c.wlim);
    r
}
/// A new client, made with its configuration.
fn early(c: &Config) -> Client<Link, SyncChannels> {
    let mut q = Queue::new();
    q.set_rate_limit(c.delay, c.burst);
    q.use_adjuster(Drops(0, c.adj));
    // (setting a rate limit assumes that messages were sent before)
    q.reset();
    let mut l = ClientLogic::new().with_state(ClientState::new());
    if let Some(t) = c.rlim {
        l = l.with_read_timeout(t);
    }
    l = l.with_queue(q);
    if let Some(t) = c.wlim {
        l = l.with_write_timeout(t);
    }
    Client::new_with_logic(open(), SyncChannels, l)
}
static mut CALLS: usize = 0;
fn calls() -> usize {
    unsafe { std::mem::take(&mut CALLS) }
}
fn on_timeout<C>(c: &mut Client<C, SyncChannels>) {
    c.set_timeout_fn(Some(|_: &mut ClientLogic| {
        unsafe { CALLS += 1 };
        ControlFlow::Break(())
    }));
}
fn push<C>(c: &mut Client<C, SyncChannels>, s: &'static str) {
    c.queue_mut().edit().push(ClientMsg::new_cmd(Cmd::from_str(s)));
}
type Recv = <SyncChannels as vinezombie::client::channel::ChannelSpec>::Queue<ServerMsg<'static>>;
fn texts(r: &Recv) -> (Vec<Vec<u8>>, bool) {
    let mut v = vec![];
    loop {
        match r.try_recv() {
            Ok(m) => v.push(m.to_string().into_bytes()),
            Err(e) => return (v, e == std::sync::mpsc::TryRecvError::Disconnected),
        }
    }
}
/// The outcome of a run: 0 nothing came, 1 a result (with how many handlers), 2 an error.
fn outcome(r: io::Result<Option<(&[usize], &[usize])>>) -> (u8, usize, usize) {
    match r {
        Ok(None) => (0, 0, 0),
        Ok(Some((y, f))) => (1, y.len(), f.len()),
        Err(e) => (2, (e.kind() == io::ErrorKind::TimedOut) as usize, 0),
    }
}
fn ping(b: &[u8]) -> Vec<u8> {
    let mut v = b"PING ".to_vec();
    v.extend_from_slice(b);
    v.extend_from_slice(b"\r\n");
    v
}
fn same_log(a: &[(u8, Time, Option<Duration>)], b: &[(u8, Time, Option<Duration>)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.eq(y.1) && x.2 == y.2)
}
/// What happens to the client before: two of ten things.
fn history(c: &mut Client<Link, SyncChannels>, at: usize, fixed: &[u8]) -> Vec<Recv> {
    let i = nd::choose(10);
    let j = nd::choose(10);
    nd::assume(i <= j);
    let has = |k: usize| i == k || j == k;
    let mut recv = vec![];
    if has(0) {
        c.queue_mut().use_labeler_default();
    }
    if has(1) {
        c.state_mut().insert::<ServerVersion>(Arg::from_str("x"));
        c.state_mut().set_source_len(std::num::NonZeroUsize::new(1 + nd::u8_() as usize).unwrap());
    }
    if has(2) {
        push(c, "A");
        push(c, "D");
        push(c, "B");
    }
    if has(3) {
        let Ok(_) = c.add((), AutoPong);
    }
    if has(4) {
        let Ok((_, r)) = c.add((), YieldAll);
        recv.push(r);
    }
    let l = line(at);
    if has(5) {
        l.input.extend_from_slice(&ping(fixed));
        l.input.extend_from_slice(&ping(b"old"));
    }
    if has(6) {
        l.input.extend_from_slice(b"PI");
    }
    l.fail = has(7);
    l.fail_set = has(9);
    if has(8) {
        // something went out just before
        push(c, "E");
        let _ = c.run();
    }
    recv
}
/// A client that is reset, with or without a new connection, against a new client with the same
/// configuration.
pub fn h_client_reset() {
    let cfg = config(nd::param(0));
    let word = nd::bytes(1);
    nd::assume((word[0] > b' ') & (word[0] < 0x7f) & (word[0] != b':'));
    let mut a = late(&cfg);
    let first = 0;
    if nd::param(1) > 0 && nd::flip() {
        on_timeout(&mut a);
    }
    let recv = history(&mut a, first, &word);
    let _ = outcome(a.run());
    if nd::flip() {
        let _ = outcome(a.run());
    }
    calls();
    line(first).fail = false;
    line(first).fail_set = false;
    if nd::param(2) > 0 && nd::flip() {
        clock::coarse(true);
        clock::advance();
    }
    let at = if nd::flip() {
        a.reset();
        line(first).pos = line(first).input.len();
        first
    } else {
        let sent = line(first).out.len();
        let new = open();
        let at = new.0;
        let old = a.reset_with_conn(new);
        nd::check(old == Link(first), "reset_with_conn() returns another connection");
        nd::check(line(first).out.len() == sent, "reset_with_conn() sends something");
        at
    };
    nd::check(!a.needs_run(), "a client that was reset needs to run");
    nd::check(a.queue().is_empty() && !a.queue().is_using_labeler(), "reset() leaves something in the queue");
    nd::check(a.state().get::<ServerVersion>().is_none(), "reset() leaves state");
    nd::check(a.state().source_len() == ClientState::new().source_len(), "reset() leaves the length of the source");
    for r in &recv {
        nd::check(texts(r).1, "reset() leaves a handler");
    }
    // a new client
    let mut b = early(&cfg);
    let bt = line(at).log.len();
    let other = open().0 - 1;
    // (only configuration may carry over, so the time-out function has to be the same)
    let f = nd::flip();
    for c in [&mut a, &mut b] {
        if f {
            on_timeout(c);
        } else {
            c.set_timeout_fn(None::<fn(&mut ClientLogic) -> ControlFlow<()>>);
        }
    }
    let start = clock::now();
    let (n, hs, runs) = (nd::choose(3), nd::choose(4), 1 + nd::choose(2));
    let mut seen = vec![];
    for (c, l) in [(&mut a, at), (&mut b, other)] {
        unsafe {
            clock::CLOCK.sec = start.s;
            clock::CLOCK.nsec = start.n;
        }
        line(l).dry = 0;
        let o = line(l).out.len();
        let i = line(l).log.len();
        for k in 0..n {
            push(c, ["A", "D"][k]);
        }
        let mut recv = None;
        if hs & 1 != 0 {
            let Ok(_) = c.add((), AutoPong);
        }
        if hs & 2 != 0 {
            let Ok((_, r)) = c.add((), YieldAll);
            recv = Some(r);
        }
        line(l).input.extend_from_slice(b"NG a\r\n");
        line(l).input.extend_from_slice(&ping(&word));
        let mut res = vec![];
        for _ in 0..runs {
            res.push(outcome(c.run()));
        }
        let got = recv.map(|r| texts(&r));
        let l = line(l);
        nd::check(l.flushed == l.out.len(), "data was written but not flushed");
        seen.push((res, got, l.out[o..].to_vec(), c.needs_run(), calls(), i));
    }
    let (x, y) = (&seen[0], &seen[1]);
    nd::check(x.0 == y.0, "a client that was reset runs otherwise than a new one");
    nd::check(x.1 == y.1, "the handlers of a client that was reset get other messages");
    nd::check(x.2 == y.2, "a client that was reset sends something else");
    nd::check(x.3 == y.3, "a client that was reset differs in what remains to be done");
    nd::check(x.4 == y.4, "the function for timeouts is called otherwise");
    nd::check(same_log(&line(at).log[bt..], &line(other).log), "a client that was reset has other time limits, or reads and writes at other times");
    nd::cover(at as u32);
}
/// A client that is moved to another connection or given other channels, against one that is not.
pub fn h_client_move() {
    let cfg = config(nd::param(0));
    let kind = nd::choose(3);
    let word = nd::bytes(1);
    nd::assume((word[0] > b' ') & (word[0] < 0x7f) & (word[0] != b':'));
    let (n, hs, lab, f) = (nd::choose(3), nd::choose(4), nd::flip(), nd::flip());
    let cut = nd::choose(ping(&word).len() + 1);
    let early_run = nd::flip();
    let fail = if early_run { nd::choose(3) } else { 0 };
    let runs = 1 + nd::choose(2);
    let later = nd::flip();
    let start = clock::now();
    let mut seen = vec![];
    for moved in [false, true] {
        unsafe {
            clock::CLOCK.sec = start.s;
            clock::CLOCK.nsec = start.n;
        }
        let mut c = late(&cfg);
        let first = unsafe { LINES.len() } - 1;
        if f {
            on_timeout(&mut c);
        }
        if lab {
            c.queue_mut().use_labeler_default();
        }
        c.state_mut().insert::<ServerVersion>(Arg::from_str("x"));
        c.state_mut().set_source_len(std::num::NonZeroUsize::new(77).unwrap());
        for k in 0..n {
            push(&mut c, ["A", "D"][k]);
        }
        let mut recv = None;
        if hs & 1 != 0 {
            let Ok(_) = c.add((), AutoPong);
        }
        if hs & 2 != 0 {
            let Ok((_, r)) = c.add((), YieldAll);
            recv = Some(r);
        }
        let p = ping(&word);
        line(first).input.extend_from_slice(&p[..cut]);
        let mut res = vec![];
        if early_run {
            line(first).fail = fail == 1;
            line(first).fail_set = fail == 2;
            res.push(outcome(c.run()));
            line(first).fail = false;
            line(first).fail_set = false;
        }
        let mut last = first;
        if moved {
            match kind {
                0 => {
                    let new = open();
                    last = new.0;
                    // what was not read is gone with the connection; here it is sent again
                    let rest = line(first).input[line(first).pos..].to_vec();
                    line(last).input = rest;
                    c = c.with_conn(new);
                }
                1 => c = c.with_spec(SyncChannels),
                _ => (),
            }
        }
        line(last).input.extend_from_slice(&p[cut..]);
        line(last).dry = 0;
        nd::check(c.state().get::<ServerVersion>().is_some() && c.state().source_len().get() == 77, "a move loses state");
        nd::check(c.queue().is_using_labeler() == lab, "a move changes the labeler");
        if later {
            push(&mut c, "C");
        }
        for _ in 0..runs {
            res.push(outcome(c.run()));
        }
        let mut out = line(first).out.clone();
        let mut log = line(first).log.clone();
        if last != first {
            out.extend_from_slice(&line(last).out);
            log.extend_from_slice(&line(last).log);
        }
        nd::check(line(last).flushed == line(last).out.len(), "data was written but not flushed");
        let more = c.needs_run();
        let got = recv.map(|r| texts(&r));
        if moved && kind == 2 {
            nd::check(c.take_conn() == Link(first), "take_conn() returns another connection");
        }
        seen.push((res, got, out, more, calls(), log));
    }
    let (x, y) = (&seen[0], &seen[1]);
    nd::check(x.0 == y.0, "a client that was moved runs otherwise");
    nd::check(x.1 == y.1, "the handlers of a client that was moved get other messages");
    nd::check(x.2 == y.2, "a client that was moved sends something else");
    nd::check(x.3 == y.3, "a client that was moved differs in what remains to be done");
    nd::check(x.4 == y.4, "the function for timeouts is called otherwise");
    nd::check(same_log(&x.5, &y.5), "a client that was moved has other time limits, or reads and writes at other times");
    nd::cover(kind as u32);
}

type Seen = (Vec<(u8, usize, usize)>, (Vec<Vec<u8>>, bool), bool, usize);
fn use_it<C: Connection>(conn: C, cfg: &Config, n: usize, f: bool, runs: usize) -> Seen {
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(cfg.delay, cfg.burst);
    c.set_read_timeout(cfg.rlim).set_write_timeout(cfg.wlim);
    for k in 0..n {
        push(&mut c, ["A", "B"][k]);
    }
    if f {
        on_timeout(&mut c);
    }
    let Ok(_) = c.add((), AutoPong);
    let Ok((_, r)) = c.add((), YieldAll);
    let mut res = vec![];
    for _ in 0..runs {
        res.push(outcome(c.run()));
    }
    (res, texts(&r), c.needs_run(), calls())
}
/// A connection made of two halves, and one behind a buffer, against one that is both itself.
pub fn h_run_wrapped() {
    let cfg = config(nd::param(0));
    let word = nd::bytes(1);
    nd::assume((word[0] > b' ') & (word[0] < 0x7f) & (word[0] != b':'));
    let kind = nd::choose(2);
    let (n, f, runs) = (nd::choose(3), nd::flip(), 1 + nd::choose(3));
    let two = nd::flip();
    let part = nd::flip();
    let mut input = ping(&word);
    if two {
        input.extend_from_slice(&ping(b"b"));
    }
    if part {
        input.extend_from_slice(b"PI");
    }
    let start = clock::now();
    let one = open();
    let one_at = one.0;
    line(one_at).input = input.clone();
    let x = use_it(one, &cfg, n, f, runs);
    unsafe {
        clock::CLOCK.sec = start.s;
        clock::CLOCK.nsec = start.n;
    }
    let l = line(one_at);
    let writes: Vec<_> = l.log.iter().filter(|e| e.0 == 1).cloned().collect();
    let reads: Vec<_> = l.log.iter().filter(|e| e.0 == 0).cloned().collect();
    let (y, from, to);
    if kind == 0 {
        let (r, w) = (open(), open());
        (from, to) = (r.0, w.0);
        line(from).input = input;
        y = use_it(Bidir(r, w), &cfg, n, f, runs);
        nd::check(line(from).write_to.is_none() && line(to).read_to.is_none(), "a time limit was set on the wrong half");
        nd::check(line(from).out.is_empty() && line(to).log.iter().all(|e| e.0 == 1), "the halves of a connection were exchanged");
        nd::check(same_log(&reads, &line(from).log), "a connection of two halves is read otherwise");
    } else {
        let r = open();
        (from, to) = (r.0, r.0);
        line(from).input = input;
        y = use_it(BufReader::with_capacity(nd::choose(4) * 4 + 2, r), &cfg, n, f, runs);
        // the reads that find nothing come at the same times and with the same limits
        let at = |l: &Line| l.log.iter().filter(|e| e.0 == 0).count() - l.dry;
        let a: Vec<_> = l.log.iter().filter(|e| e.0 == 0).skip(at(l)).cloned().collect();
        let m = line(from);
        let b: Vec<_> = m.log.iter().filter(|e| e.0 == 0).skip(at(m)).cloned().collect();
        nd::check(part || same_log(&a, &b), "a buffered connection waits otherwise");
    }
    nd::check(x == y, "the kind of connection makes a difference");
    nd::check(line(to).flushed == line(to).out.len(), "data was written but not flushed");
    nd::check(l.out == line(to).out, "the kind of connection makes a difference in what is sent");
    let w2: Vec<_> = line(to).log.iter().filter(|e| e.0 == 1).cloned().collect();
    nd::check(same_log(&writes, &w2), "the kind of connection makes a difference in when or under which limit is sent");
    nd::cover(kind as u32);
}
