//! Running handlers off a connection.
use crate::nd;
use crate::world::{self, Conn};
use std::ops::ControlFlow;
use std::time::Duration;
use vinezombie::client::channel::{ChannelSpec, Sender, SenderRef, Sent, SyncChannels};
use vinezombie::client::queue::QueueEditGuard;
use vinezombie::client::state::{ClientStateKey, ServerVersion};
use vinezombie::client::{Client, ClientState, Handler, SelfMadeHandler};
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Arg, Cmd};

const CMDS: [&str; 8] = ["A", "B", "C", "D", "E", "F", "G", "H"];

#[derive(Clone, Copy, PartialEq)]
struct Call {
    uid: usize,
    msg: usize,
    yielded: bool,
    finished: bool,
}
struct Log {
    calls: Vec<Call>,
    pushed: Vec<usize>,
    dropped: Vec<usize>,
    sent: Vec<usize>,
}
static mut LOG: Log = Log { calls: vec![], pushed: vec![], dropped: vec![], sent: vec![] };
#[allow(static_mut_refs)]
fn log() -> &'static mut Log {
    unsafe { &mut LOG }
}
struct Test {
    uid: usize,
    owning: bool,
}
impl Drop for Test {
    fn drop(&mut self) {
        log().dropped.push(self.uid);
    }
}
struct Send(bool, usize);
impl Sender for Send {
    type Value = usize;
    fn send(&mut self, v: usize) -> ControlFlow<Sent> {
        if self.0 {
            log().sent.push(v);
            // the last value that this sender takes, or not
            if self.1 == 1 {
                self.0 = false;
                ControlFlow::Break(Sent::Ok)
            } else {
                ControlFlow::Continue(())
            }
        } else {
            ControlFlow::Break(Sent::Closed)
        }
    }
}
impl Handler for Test {
    type Value = usize;
    fn handle(&mut self, msg: &ServerMsg<'_>, _: &mut ClientState, mut queue: QueueEditGuard<'_>, mut ch: SenderRef<'_, usize>) -> ControlFlow<()> {
        let text = msg.kind.as_str().as_bytes();
        nd::check(text.len() == 1 && text[0] >= b'A' && text[0] < b'I', "handlers see a message that was not sent");
        let m = (text[0] - b'A') as usize;
        let act = nd::below(16);
        let mut yielded = false;
        if act & 1 != 0 {
            let r = ch.send(self.uid);
            yielded = r != ControlFlow::Break(Sent::Closed);
            nd::check(ch.did_send() == yielded, "did_send() differs");
            if self.uid == 1 {
                // a second value, which is not taken, changes nothing
                nd::check(ch.send(self.uid) == ControlFlow::Break(Sent::Closed), "the result of sending differs");
                nd::check(ch.did_send() == yielded, "did_send() differs");
            }
        }
        let finished = act & 2 != 0;
        if act & 4 != 0 {
            log().pushed.push(self.uid);
            queue.push(ClientMsg::new_cmd(Cmd::from_str(CMDS[self.uid])));
        }
        self.owning = act & 8 != 0;
        log().calls.push(Call { uid: self.uid, msg: m, yielded, finished });
        if finished {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn wants_owning(&self) -> bool {
        self.owning
    }
}
impl SelfMadeHandler for Test {
    type Receiver<Spec: ChannelSpec> = Spec::Queue<usize>;
    fn queue_msgs(&self, _: &ClientState, mut q: QueueEditGuard<'_>) {
        log().pushed.push(self.uid);
        q.push(ClientMsg::new_cmd(Cmd::from_str(CMDS[self.uid])));
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = usize> + std::marker::Send>, Self::Receiver<Spec>) {
        spec.new_queue()
    }
}
fn same_set(got: &[usize], want: &[usize]) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let mut used = vec![false; want.len()];
    'o: for g in got {
        for i in 0..want.len() {
            if !used[i] && want[i] == *g {
                used[i] = true;
                continue 'o;
            }
        }
        return false;
    }
    true
}
pub fn h_dispatch() {
    let msgs = nd::param(0);
    let first = nd::param(1);
    let mut c = Client::new(Conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    // live handlers: (uid, id)
    let mut live: Vec<(usize, usize)> = vec![];
    let mut uids = 0;
    let mut add = |c: &mut Client<Conn, SyncChannels>, live: &mut Vec<(usize, usize)>| {
        let h = Test { uid: uids, owning: false };
        let open = nd::flip();
        let Ok(id) = c.add_with_sender(Box::new(Send(open, uids)), (), h);
        for (_, other) in live.iter() {
            nd::check(*other != id, "two live handlers share an id");
        }
        live.push((uids, id));
        uids += 1;
    };
    nd::check(!c.needs_run(), "a new client needs to run");
    for _ in 0..first {
        add(&mut c, &mut live);
    }
    let mut fed = 0;
    let mut seen = 0;
    let mut rounds = 0;
    while seen < msgs {
        rounds += 1;
        // any number of messages may be waiting
        let more = if fed == seen { 1 + nd::choose(msgs - fed) } else { nd::choose(msgs - fed + 1) };
        for _ in 0..more {
            world::feed(CMDS[fed].as_bytes());
            fed += 1;
        }
        log().calls.clear();
        let r = c.run();
        let Ok(r) = r else { nd::fail("running fails without an I/O error") };
        let calls = std::mem::take(&mut log().calls);
        // the calls, message by message
        let mut at = 0;
        let mut result = None;
        while result.is_none() && seen < fed {
            let mut yielded = vec![];
            let mut finished = vec![];
            if live.is_empty() {
                break;
            }
            let mut called = vec![];
            while at < calls.len() && calls[at].msg == seen {
                let k = calls[at];
                let Some(&(_, id)) = live.iter().find(|l| l.0 == k.uid) else { nd::fail("a finished handler is called again") };
                nd::check(!called.contains(&k.uid), "a handler is called twice for one message");
                called.push(k.uid);
                if k.yielded {
                    yielded.push(id);
                }
                if k.finished {
                    finished.push(id);
                }
                at += 1;
            }
            nd::check(called.len() == live.len(), "a handler missed a message");
            seen += 1;
            live.retain(|l| !finished.contains(&l.1));
            if !yielded.is_empty() || !finished.is_empty() {
                result = Some((yielded, finished));
            }
        }
        nd::check(at == calls.len(), "handlers ran on after a result, or out of order");
        match (r, result) {
            (Some((y, f)), Some((wy, wf))) => {
                nd::check(same_set(y, &wy), "the handlers reported as having yielded differ");
                nd::check(same_set(f, &wf), "the handlers reported as finished differ");
            }
            (None, None) => nd::check(seen == fed, "a read timeout was reported while messages wait"),
            (Some((y, f)), None) => {
                nd::check(y.is_empty() && f.is_empty() && live.is_empty(), "run() returned without a result");
                return;
            }
            (None, Some(_)) => nd::fail("run() withholds a result"),
        }
        // everything the handlers queued has been sent, in order
        let l = world::lines();
        let p = std::mem::take(&mut log().pushed);
        nd::check(l.len() == p.len(), "messages queued by handlers were lost or invented");
        for i in 0..p.len() {
            nd::check(l[i] == CMDS[p[i]].as_bytes(), "messages queued by handlers are out of order");
        }
        nd::check(c.needs_run() == !live.is_empty(), "needs_run() differs");
        nd::check(log().dropped.len() == uids_of(&live, &log().dropped), "a live handler was dropped");
        if rounds < 3 && seen < msgs && nd::flip() {
            add(&mut c, &mut live);
        }
    }
    if nd::flip() {
        c.state_mut().insert::<ServerVersion>(Arg::from_str("x"));
        c.queue_mut().edit().push(ClientMsg::new_cmd(Cmd::from_str("Z")));
        nd::check(c.needs_run(), "a client with queued messages does not need to run");
        c.reset();
        nd::check(!c.needs_run(), "reset() leaves something to run");
        nd::check(c.queue().is_empty(), "reset() leaves queued messages");
        nd::check(c.state().get::<ServerVersion>().is_none(), "reset() leaves state");
        world::feed(b"A");
        log().calls.clear();
        let r = c.run();
        nd::check(matches!(r, Ok(Some(([], [])))), "a reset client has results");
        nd::check(log().calls.is_empty(), "reset() leaves handlers");
        nd::check(world::written().is_empty(), "a reset client still sends");
        let n = log().dropped.len();
        nd::check(n == log().dropped.iter().collect::<std::collections::BTreeSet<_>>().len(), "a handler was dropped twice");
        // ids start over without clashing
        let mut live = vec![];
        for i in 0..2 {
            let Ok(id) = c.add_with_sender(Box::new(Send(true, i)), (), Test { uid: i, owning: false });
            nd::check(!live.contains(&id), "two live handlers share an id");
            live.push(id);
        }
    }
}
struct Mark;
impl vinezombie::client::queue::Adjuster for Mark {
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        // drops one message and rewrites another
        match msg.cmd.as_str() {
            "X" => return false,
            "Y" => {
                let _ = msg.args.edit().add_word(Arg::from_str("z"));
            }
            _ => (),
        }
        true
    }
    fn reset(&mut self) {}
}
struct Push(usize);
impl Handler for Push {
    type Value = usize;
    fn handle(&mut self, _: &ServerMsg<'_>, _: &mut ClientState, mut queue: QueueEditGuard<'_>, mut ch: SenderRef<'_, usize>) -> ControlFlow<()> {
        let _ = ch.send(0);
        nd::check(queue.is_empty(), "a handler is given a queue with something added already");
        let mut m = || {
            let k = nd::choose(3);
            log().pushed.push(k);
            queue.push(ClientMsg::new_cmd(Cmd::from_str(["X", "Y", "W"][k])));
        };
        for _ in 0..self.0 {
            m();
        }
        ControlFlow::Continue(())
    }
}
impl SelfMadeHandler for Push {
    type Receiver<Spec: ChannelSpec> = Spec::Queue<usize>;
    fn queue_msgs(&self, _: &ClientState, _: QueueEditGuard<'_>) {}
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = usize> + std::marker::Send>, Self::Receiver<Spec>) {
        spec.new_queue()
    }
}
/// Adjusters see what is queued when a message arrives, and not what handlers reply to it.
pub fn h_adjust() {
    let mut c = Client::new(Conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::from_secs(1), 0);
    c.queue_mut().use_adjuster(Mark);
    let Ok(_) = c.add_with_sender(Box::new(Send(true, 0)), (), Push(nd::param(1)));
    // (what, adjusted how often)
    let mut queued: Vec<(usize, usize)> = vec![];
    for _ in 0..nd::param(0) {
        world::feed(b"A");
        log().pushed.clear();
        let Ok(Some(_)) = c.run() else { nd::fail("run() withholds a result") };
        queued.retain(|q| q.0 != 0);
        for q in &mut queued {
            q.1 += 1;
        }
        queued.extend(log().pushed.iter().map(|k| (*k, 0)));
        nd::check(c.queue().len() == queued.len(), "queued messages were adjusted wrongly");
        nd::check(c.needs_run(), "a client with handlers does not need to run");
    }
    nd::check(world::lines().is_empty(), "messages are sent before they may be");
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c.queue_mut().use_no_adjuster();
    for (k, n) in queued {
        let Some(m) = c.queue_mut().pop(|_| ()) else { nd::fail("a message is gone") };
        nd::check(m.cmd.as_str() == ["X", "Y", "W"][k], "messages are out of order");
        nd::check(m.args.words().len() == if k == 1 { n } else { 0 }, "a message was adjusted too often or not often enough");
    }
}
/// Number of drops that concern handlers no longer live.
fn uids_of(live: &[(usize, usize)], dropped: &[usize]) -> usize {
    dropped.iter().filter(|d| !live.iter().any(|l| l.0 == **d)).count()
}

/// Shared state: a map from keys to values.
#[derive(Default)]
pub struct K1;
impl ClientStateKey for K1 {
    type Value = u8;
}
#[derive(Default)]
pub struct K2;
impl ClientStateKey for K2 {
    type Value = u8;
}
#[derive(Default)]
pub struct K3;
impl ClientStateKey for K3 {
    type Value = Vec<u8>;
}
pub fn h_state() {
    let mut s = ClientState::new();
    let (mut a, mut b, mut v) = (None, None, None);
    for _ in 0..nd::param(0) {
        let x = nd::u8_();
        match nd::choose(5) {
            0 => {
                s.insert::<K1>(x);
                a = Some(x);
            }
            1 => {
                s.insert::<K2>(x);
                b = Some(x);
            }
            2 => {
                s.insert::<K3>(vec![x]);
                v = Some(vec![x]);
            }
            3 => {
                let m = s.get_mut::<K1>();
                nd::check(m.is_some() == a.is_some(), "state presence differs");
                if let Some(m) = m {
                    *m = x;
                    a = Some(x);
                }
            }
            _ => {
                let m = s.get_mut::<K3>();
                nd::check(m.is_some() == v.is_some(), "state presence differs");
                if let (Some(m), Some(v)) = (m, &mut v) {
                    m.push(x);
                    v.push(x);
                }
            }
        }
        nd::check(s.get::<K1>().copied() == a, "state value differs");
        nd::check(s.get::<K2>().copied() == b, "state value differs");
        nd::check(s.get::<K3>() == v.as_ref(), "state value differs");
    }
}

/// Handlers that yield every message, until nobody listens.
pub fn h_yield_all() {
    use vinezombie::client::handlers::YieldAll;
    let mut c = Client::new(world::Conn, SyncChannels);
    let n = 1 + nd::choose(nd::param(1));
    let mut h = vec![];
    for _ in 0..n {
        let Ok((id, r)) = c.add((), YieldAll);
        nd::check(h.iter().all(|(k, _): &(usize, Option<_>)| *k != id), "two live handlers share an id");
        h.push((id, Some(r)));
    }
    for _ in 0..nd::param(0) {
        for (_, r) in &mut h {
            if r.is_some() && nd::flip() {
                *r = None;
            }
        }
        let b = nd::u8_();
        nd::assume((b >= b'A') & (b <= b'Z'));
        let text = [b, b' ', b];
        world::feed(&text);
        let (y, f) = match c.run() {
            Ok(Some((y, f))) => (y.to_vec(), f.to_vec()),
            _ => nd::fail("a message does not lead to a result"),
        };
        let live: Vec<_> = h.iter().filter(|x| x.1.is_some()).map(|x| x.0).collect();
        let gone: Vec<_> = h.iter().filter(|x| x.1.is_none()).map(|x| x.0).collect();
        nd::check(same_set(&y, &live), "the handlers that yielded differ");
        nd::check(same_set(&f, &gone), "the handlers that nobody listens to go on");
        h.retain(|x| x.1.is_some());
        for (_, r) in &h {
            let r = r.as_ref().unwrap();
            let Ok(m) = r.try_recv() else { nd::fail("a message is not yielded") };
            nd::check(nd::same(m.to_string().as_bytes(), &text), "another message is yielded");
            nd::check(r.try_recv().is_err(), "a message is yielded twice");
        }
        nd::check(c.needs_run() == !h.is_empty(), "needs_run() differs");
        if h.is_empty() {
            nd::cover(9);
            return;
        }
    }
}
