//! The rate-limited queue.
use crate::clock::{self, Time};
use crate::nd;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;
use vinezombie::client::queue::{Adjuster, MultiAdjuster, Queue};
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Arg, Cmd, Key, NoNul};

const NAMES: [&str; 8] = ["A", "B", "C", "D", "E", "F", "G", "H"];
pub fn msg(i: usize) -> ClientMsg<'static> {
    ClientMsg::new_cmd(Cmd::from_str(NAMES[i]))
}
fn is(m: &ClientMsg<'static>, i: usize) -> bool {
    m.cmd.as_bytes() == NAMES[i].as_bytes()
}

/// A rate limit: the delay, and the number of extra messages in a burst.
fn limit(kind: usize) -> (Duration, u32) {
    match kind {
        0 => (Duration::from_secs(2), 4),
        1 => (Duration::from_millis(1500), 1),
        2 => (Duration::from_millis(700), 3),
        3 => (Duration::ZERO, 2),
        4 => (Duration::from_secs(3), 0),
        // any whole number of seconds
        5 => (Duration::from_secs((nd::u32_() >> 2) as u64), 2),
        // any delay
        6 => {
            let n = nd::u32_();
            nd::assume(n < 1_000_000_000);
            (Duration::new((nd::u32_() >> 2) as u64, n), 1)
        }
        _ => {
            let n = nd::u32_();
            nd::assume(n < 1_000_000_000);
            (Duration::new((nd::u32_() >> 2) as u64, n), 0)
        }
    }
}
fn fill(q: &mut Queue, n: usize) {
    let mut g = q.edit();
    for i in 0..n {
        g.push(msg(i));
    }
}
/// The bucket: exactly when a message comes out, and exactly which waiting time is reported, for
/// any sequence of waits, attempts, resets and rate changes.
pub fn h_queue_bucket() {
    let ops = nd::param(0);
    let kind = nd::param(1);
    clock::coarse(nd::param(3) != 0);
    let (mut delay, mut burst) = limit(0);
    let mut q = Queue::new();
    // `due`: a message may go as soon as the clock reaches due - burst * delay.
    let mut due = clock::now();
    if kind > 0 {
        (delay, burst) = limit(kind);
        q.set_rate_limit(delay, burst);
        due = clock::now().plus(Time::of(delay).times(burst + 1));
    }
    let mut sent = 0;
    fill(&mut q, 8);
    let mut left = 8;
    for _ in 0..ops {
        if nd::flip() {
            clock::advance();
        }
        match if nd::param(2) != 0 { nd::choose(3) } else { 0 } {
            1 => {
                q.set_rate_limit(delay, burst);
                due = clock::now().plus(Time::of(delay).times(burst + 1));
                continue;
            }
            2 => {
                q.reset();
                due = clock::now();
                nd::check(q.is_empty(), "reset() leaves messages");
                fill(&mut q, 8);
                sent = 0;
                left = 8;
                continue;
            }
            _ => {}
        }
        let now = clock::now();
        let allowed = due.le(now.plus(Time::of(delay).times(burst)));
        let mut called = 0;
        let mut wait = None;
        let got = q.pop(|t| {
            called += 1;
            wait = t;
        });
        if left == 0 {
            nd::check(got.is_none() && called == 1 && wait.is_none(), "an empty queue reports a wait or yields a message");
            continue;
        }
        match got {
            Some(m) => {
                nd::check(allowed, "a message was released before the rate limit allows");
                nd::check(called == 0, "a wait was reported although a message was released");
                nd::check(is(&m, sent), "messages are released out of order");
                sent += 1;
                left -= 1;
                due = due.max(now).plus(Time::of(delay));
            }
            None => {
                nd::check(!allowed, "a message was held back although the rate limit allows it");
                nd::check(called == 1, "no wait was reported");
                let Some(w) = wait else { nd::fail("no wait was reported") };
                nd::check(!w.is_zero(), "a wait of zero was reported");
                // waiting exactly that long makes the message due
                nd::check(due.eq(now.plus(Time::of(w)).plus(Time::of(delay).times(burst))), "the reported wait is not the time until the next message");
            }
        }
        nd::check(q.len() == left, "queue length differs");
    }
}
/// With the clock moving at every reading: in any stretch of time W at most 1 + burst + W/delay
/// messages come out.
pub fn h_queue_window() {
    let ops = nd::param(0);
    let (delay, burst) = limit(nd::param(1));
    clock::coarse(nd::param(2) != 0);
    let mut q = Queue::new();
    q.set_rate_limit(delay, burst);
    if nd::flip() {
        q.reset();
    }
    fill(&mut q, 8);
    clock::ticking(true);
    let mut at: Vec<(Time, Time)> = vec![];
    for _ in 0..ops {
        clock::advance();
        let a = clock::now();
        let mut zero = false;
        let r = q.pop(|t| zero = t.is_some_and(|t| t.is_zero()));
        nd::check(!zero, "a wait of zero was reported");
        let b = clock::now();
        if r.is_some() {
            at.push((a, b));
        }
    }
    clock::ticking(false);
    for i in 0..at.len() {
        for j in i + 1..at.len() {
            let n = (j - i) as u32;
            if n > burst {
                let least = at[i].0.plus(Time::of(delay).times(n - burst));
                nd::check(least.le(at[j].1), "more messages came out than the rate limit allows");
            }
        }
    }
}
/// Any delay and burst whatever: no overflow, and a delay longer than a year holds for a year.
pub fn h_queue_extreme() {
    clock::coarse(nd::param(1) != 0);
    let n = if nd::flip() { 999_999_999 } else { 0 };
    let (secs, burst) = match nd::choose(3) {
        0 => (nd::u64_(), 0),
        1 => (nd::u64_(), 1),
        // any power of two and its neighbours
        _ => ((1u64 << nd::choose(64)).wrapping_add(nd::choose(3) as u64).wrapping_sub(1), u32::MAX),
    };
    let delay = Duration::new(secs, n);
    let mut q = Queue::new();
    fill(&mut q, 4);
    q.set_rate_limit(delay, burst);
    let year = Time { s: 31_000_000, n: 0 };
    let mut last = clock::now();
    let mut first = true;
    for _ in 0..nd::param(0) {
        clock::advance();
        let mut zero = false;
        let r = q.pop(|t| zero = t.is_some_and(|t| t.is_zero()));
        nd::check(!zero, "a wait of zero was reported");
        if r.is_some() && (burst == 0 || first) {
            if delay.as_secs() >= year.s {
                nd::check(last.plus(year).le(clock::now()), "a message was released before the rate limit allows");
            }
            last = clock::now();
        }
        first &= r.is_none();
    }
}

// ------------------------------------------------------------------ contents
struct Adj {
    on: bool,
    mask: u8,
    rename: u8,
    asked: usize,
    seen: Arc<AtomicU32>,
}
impl Adjuster for Adj {
    fn should_adjust(&mut self, _: &ServerMsg<'_>) -> bool {
        self.asked += 1;
        self.on
    }
    fn update(&mut self, m: &mut ClientMsg<'_>) -> bool {
        nd::check(self.on, "an adjuster that declined is asked to update");
        let i = (m.cmd.as_bytes()[0] - b'A') as usize;
        self.seen.fetch_or(1 << i, Relaxed);
        if self.rename >> i & 1 != 0 {
            m.args.edit().add_word(Arg::from_str("x"));
        }
        self.mask >> i & 1 != 0
    }
    fn reset(&mut self) {
        self.on = false;
    }
}
/// Labels stay fresh for long. params: labels
pub fn h_queue_labels_many() {
    let mut q = Queue::new();
    q.use_labeler_default();
    let mut first: Vec<Vec<u8>> = Vec::new();
    let mut prev: Vec<u8> = Vec::new();
    for i in 0..nd::param(0) {
        let Some(l) = q.edit().push_labeled(msg(0)) else { nd::fail("labeled exactly if there is a labeler") };
        let l = l.as_bytes();
        if l == &prev[..] || first.iter().any(|f| l == &f[..]) {
            nd::fail("label handed out twice");
        }
        prev = l.to_vec();
        if i < 2 {
            first.push(l.to_vec());
        }
        q.clear();
    }
    nd::cover(1);
}
/// Labels: always fresh, also for messages that carry a label or other tags already.
pub fn h_queue_labels() {
    let mut q = Queue::new();
    q.set_rate_limit(Duration::ZERO, 0);
    q.use_labeler_default();
    let mut seen = std::collections::BTreeSet::new();
    let mut last = None;
    for _ in 0..nd::choose(2) * nd::param(0) {
        let Some(l) = q.edit().push_labeled(msg(0)) else { nd::fail("labeled exactly if there is a labeler") };
        nd::check(seen.insert(l.as_bytes().to_vec()), "label handed out twice");
        last = Some(l);
    }
    q.clear();
    for _ in 0..nd::param(1) {
        let mut m = msg(1);
        let mut tags: Vec<(u8, u8)> = vec![];
        for _ in 0..nd::choose(3) {
            let k = [b'a', b'l', b'z'][nd::choose(3)];
            if tags.iter().any(|t| t.0 == k) {
                continue;
            }
            let v = nd::u8_();
            nd::assume(v != 0);
            let key = if k == b'l' { Key::from_str("label") } else { crate::spec::raw::key(&[k]).owning() };
            let mut v = crate::spec::raw::nonul(&[v]).owning();
            let mut b = v.as_bytes()[0];
            // possibly a label that is in use
            if let (b'l', Some(l)) = (k, &last) {
                if nd::flip() {
                    v = l.clone();
                    b = 0;
                }
            }
            m.tags.edit().insert_pair(key, v);
            tags.push((k, b));
        }
        let Some(l) = q.edit().push_labeled(m) else { nd::fail("labeled exactly if there is a labeler") };
        nd::check(!l.is_empty(), "empty label");
        for s in &seen {
            nd::check(!nd::same(l.as_bytes(), s), "label handed out twice");
        }
        seen.insert(l.as_bytes().to_vec());
        last = Some(l.clone());
        let Some(m) = q.pop(|_| ()) else { nd::fail("a message is gone") };
        nd::check(m.tags.get("label").is_some_and(|t| nd::same(t.as_bytes(), l.as_bytes())), "the message does not carry the label reported");
        let mut n = 1;
        for (k, v) in &tags {
            if *k != b'l' {
                n += 1;
                let key = crate::spec::raw::key(std::slice::from_ref(k)).owning();
                nd::check(m.tags.get(key).is_some_and(|t| nd::same(t.as_bytes(), &[*v])), "labeling changes another tag");
            }
        }
        nd::check(m.tags.len() == n, "labeling adds or removes another tag");
    }
}
/// Contents of the queue over any history of edits.
pub fn h_queue_edit() {
    let mut q = if nd::flip() { Queue::new() } else { (0..2).map(msg).collect() };
    let mut model: VecDeque<(usize, Option<u32>)> = VecDeque::new();
    if q.len() == 2 {
        model.extend([(0, None), (1, None)]);
    }
    let mut next = 2;
    q.set_rate_limit(Duration::ZERO, 0);
    let mut labels = 0u32;
    let mut labeler = 0;
    let mut seen: Vec<NoNul<'static>> = vec![];
    // where the labels of the current labeler start
    let mut fresh = 0;
    for _ in 0..nd::param(0) {
        match nd::choose(7) {
            0 => {
                // an edit session
                let before = model.len();
                let mut g = q.edit();
                nd::check(g.is_empty() && g.len() == 0, "a fresh edit is not empty");
                for _ in 0..1 + nd::choose(2) {
                    if next == 8 {
                        return;
                    }
                    match nd::choose(4) {
                        0 => {
                            g.push(msg(next));
                            model.push_back((next, None));
                            next += 1;
                        }
                        1 => {
                            nd::check(g.is_using_labeler() == (labeler > 0), "labeler presence differs");
                            let l = g.push_labeled(msg(next));
                            nd::check(l.is_some() == (labeler > 0), "labeled exactly if there is a labeler");
                            let mut at = None;
                            if let Some(l) = l {
                                if labeler == 1 {
                                    nd::check(l.as_bytes() == NAMES[labels as usize].as_bytes(), "label is not the labeler's");
                                    labels += 1;
                                }
                                nd::check(!l.is_empty(), "empty label");
                                for s in &seen[fresh..] {
                                    nd::check(labeler == 1 || *s != l, "label handed out twice");
                                }
                                at = Some(seen.len() as u32);
                                seen.push(l);
                            }
                            model.push_back((next, at));
                            next += 1;
                        }
                        2 => {
                            g.clear();
                            model.truncate(before);
                        }
                        _ => {
                            let mut h = g.edit();
                            nd::check(h.is_empty(), "a nested edit is not empty");
                            h.push(msg(next));
                            nd::check(h.len() == 1, "nested edit length differs");
                            if nd::flip() {
                                h.clear();
                                nd::check(h.is_empty(), "nested edit length differs");
                            } else {
                                model.push_back((next, None));
                            }
                            next += 1;
                        }
                    }
                    nd::check(g.len() == model.len() - before, "edit length differs");
                    nd::check(g.is_empty() == (model.len() == before), "edit emptiness differs");
                }
            }
            1 => {
                let mut t = None;
                let r = q.pop(|x| t = Some(x));
                let e = model.pop_front();
                nd::check(r.is_some() == e.is_some(), "pop yields a message exactly if there is one");
                nd::check(t.is_some() == e.is_none(), "the wait callback runs exactly if there is no message");
                if let (Some(r), Some(e)) = (r, e) {
                    check_msg(&r, &e, &seen);
                }
            }
            2 => match nd::choose(3) {
                0 => {
                    labels = 0;
                    labeler = 1;
                    seen.clear();
                    fresh = 0;
                    model.retain(|e| e.1.is_none());
                    if model.len() != q.len() {
                        return;
                    }
                    let mut i = 0;
                    q.use_labeler(move || {
                        i += 1;
                        NoNul::from_str(NAMES[i - 1])
                    });
                }
                1 => {
                    if labeler == 0 {
                        q.use_labeler_default();
                        labeler = 2;
                        fresh = seen.len();
                    }
                }
                _ => {
                    q.use_no_labeler();
                    labeler = 0;
                }
            },
            3 => {
                q.clear();
                model.clear();
            }
            4 => {
                q.reset();
                model.clear();
                labeler = 0;
                nd::check(!q.is_using_labeler(), "reset() keeps the labeler");
                // the rate limit stays what it was
            }
            5 => {
                let n = nd::choose(2);
                if next + n > 8 {
                    return;
                }
                q.extend((0..n).map(|i| msg(next + i)));
                for _ in 0..n {
                    model.push_back((next, None));
                    next += 1;
                }
            }
            _ => {
                q.use_adjuster(Adj { on: nd::flip(), mask: nd::u8_(), rename: 0, asked: 0, seen: Arc::default() });
                q.use_no_adjuster();
                q.adjust(&ServerMsg::parse("PING").unwrap());
            }
        }
        nd::check(q.len() == model.len(), "queue length differs");
        nd::check(q.is_empty() == model.is_empty(), "queue emptiness differs");
        nd::check(q.is_using_labeler() == (labeler > 0), "labeler presence differs");
    }
    while let Some(e) = model.pop_front() {
        let Some(r) = q.pop(|_| ()) else { nd::fail("a message vanished from the queue") };
        check_msg(&r, &e, &seen);
    }
    nd::check(q.pop(|_| ()).is_none(), "an extra message in the queue");
}
fn check_msg(m: &ClientMsg<'static>, e: &(usize, Option<u32>), seen: &[NoNul<'static>]) {
    nd::check(is(m, e.0), "messages are out of order");
    let l = m.tags.get(Key::from_str("label"));
    match e.1 {
        None => nd::check(l.is_none() && m.tags.is_empty(), "a message was labeled without being asked"),
        Some(i) => nd::check(l == Some(&seen[i as usize]), "a message's label differs from the one reported"),
    }
    nd::check(m.args.is_empty(), "a message was changed");
}

/// Adjusters: which messages are kept, which are changed, in any combination.
pub fn h_queue_adjust() {
    let n = nd::param(0);
    let k = nd::param(1);
    let mut q: Queue = (0..n).map(msg).collect();
    q.set_rate_limit(Duration::ZERO, 0);
    let mut keep = 0xffu8;
    let mut rename = 0u8;
    let mut seen = vec![];
    let mut add = |a: &mut Vec<Adj>| {
        let x = Adj { on: nd::flip(), mask: nd::u8_(), rename: nd::u8_(), asked: 0, seen: Arc::default() };
        seen.push((x.on, x.seen.clone()));
        if x.on {
            keep &= x.mask;
            rename |= x.rename;
        }
        a.push(x);
    };
    let mut v = vec![];
    for _ in 0..k {
        add(&mut v);
    }
    if k == 1 && nd::flip() {
        q.use_adjuster(v.pop().unwrap());
    } else {
        let mut m = MultiAdjuster::new();
        if nd::flip() {
            for a in v {
                m.add(a);
            }
        } else {
            m = v.into_iter().map(|a| Box::new(a) as Box<dyn Adjuster>).collect();
        }
        nd::check(m.len() == k && m.is_empty() == (k == 0), "number of adjusters differs");
        q.use_adjuster(m);
    }
    let s = ServerMsg::parse("PING").unwrap();
    let times = 1 + nd::choose(2);
    q.adjust(&s);
    for (on, seen) in &seen {
        nd::check(seen.load(Relaxed) == if *on { (1 << n) - 1 } else { 0 }, "an adjuster's update was not applied to a message");
    }
    if times == 2 {
        q.adjust(&s);
    }
    if nd::flip() {
        // after a reset the adjusters' state is gone, here: none adjusts
        q.reset();
        q.extend((0..n).map(msg));
        keep = 0xff;
        rename = 0;
        q.adjust(&s);
    }
    for i in 0..n {
        if keep >> i & 1 == 0 {
            continue;
        }
        let Some(m) = q.pop(|_| ()) else { nd::fail("a message was dropped that all adjusters keep") };
        nd::check(is(&m, i), "a message was dropped or kept against the adjusters' word");
        if rename >> i & 1 == 0 {
            nd::check(m.args.is_empty(), "a message was changed by no adjuster");
        } else {
            nd::check(!m.args.is_empty(), "an adjuster's change is lost");
        }
    }
    nd::check(q.is_empty(), "a message was kept that an adjuster drops");
}
