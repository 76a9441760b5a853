//! Capability messages.
use crate::nd;
use crate::spec::{self, raw, Ty};
use vinezombie::client::cap::{req, ServerMsgArgs, SubCmd};
use vinezombie::ircmsg::{ClientMsg, ServerMsg, Source};
use vinezombie::string::{Arg, Key, Line};

fn put(map: &mut Vec<(Vec<u8>, Vec<u8>)>, k: &[u8], v: &[u8]) {
    for e in map.iter_mut() {
        if nd::same(&e.0, k) {
            e.1 = v.to_vec();
            return;
        }
    }
    map.push((k.to_vec(), v.to_vec()));
}
/// The capabilities in a space-separated list, by the IRCv3 grammar.
fn reference(t: &[u8], map: &mut Vec<(Vec<u8>, Vec<u8>)>) {
    for w in t.split(|b| *b == b' ') {
        let n = w.iter().position(|b| *b == b'=' || *b == b';').unwrap_or(w.len());
        if n == 0 || w[0] == b':' || (n < w.len() && w[n] == b';') {
            continue;
        }
        put(map, &w[..n], if n < w.len() { &w[n + 1..] } else { b"" });
    }
}
fn check_map(a: &ServerMsgArgs<'_>, want: &[(Vec<u8>, Vec<u8>)]) {
    nd::check(a.caps.len() == want.len(), "the number of capabilities differs");
    for (k, v) in want {
        nd::check(a.contains(k), "a capability is missing");
        let mut found = false;
        for (k2, v2) in &a.caps {
            if nd::same(k, k2.as_bytes()) {
                found = true;
                nd::check(nd::same(v, v2.as_bytes()), "a capability's value differs");
            }
        }
        nd::check(found, "a capability is missing");
    }
}
/// A list. Servers separate capabilities with spaces; what tabs and form feeds do is left open.
fn text(n: usize) -> Vec<u8> {
    let t = spec::any_member(Ty::Line, 0, n);
    for b in &t {
        nd::assume(*b != 9 && *b != 12);
    }
    t
}
/// CAP messages from the server: arbitrary lists, arbitrary subcommands, one or two lines.
pub fn h_cap_parse() {
    let n = nd::param(0);
    let mut line = b"CAP * ".to_vec();
    let subs = ["LS", "LIST", "ACK", "NAK", "NEW", "DEL"];
    let which = nd::choose(7);
    let sub: Vec<u8> = if which < 6 { subs[which].as_bytes().to_vec() } else { spec::any_member(Ty::Arg, 2, nd::param(1)) };
    let mut known = None;
    let up: Vec<u8> = sub.iter().map(|b| b.to_ascii_uppercase()).collect();
    for s in subs {
        if nd::same(&up, s.as_bytes()) {
            known = Some(s);
        }
    }
    let more = nd::flip();
    line.extend_from_slice(&sub);
    line.extend_from_slice(if more { b" * :" } else { b" :" });
    let t = text(n);
    line.extend_from_slice(&t);
    let Ok(m) = ServerMsg::parse(raw::line(&line).owning()) else { nd::fail("a CAP message does not parse") };
    let a = ServerMsgArgs::parse(&m.args);
    let Some(known) = known else {
        nd::check(a.is_err(), "an unknown subcommand is accepted");
        return;
    };
    let Ok(mut a) = a else { nd::fail("a CAP message is refused") };
    nd::check(a.subcmd.into_arg() == *known && SubCmd::from_bytes(known.as_bytes()) == Some(a.subcmd), "the subcommand differs");
    nd::check(a.is_last != more, "the continuation marker is misread");
    nd::check(a.nick == "*", "the nick differs");
    let mut want = vec![];
    reference(&t, &mut want);
    check_map(&a, &want);
    if which == 0 && nd::param(2) > 0 {
        // a second line
        let sub2 = if nd::flip() { "LS" } else { "ACK" };
        let t2 = text(nd::param(2));
        let l2 = [b"CAP * ", sub2.as_bytes(), b" :", &t2].concat();
        let Ok(m2) = ServerMsg::parse(raw::line(&l2).owning()) else { nd::fail("a CAP message does not parse") };
        let Ok(a2) = ServerMsgArgs::parse(&m2.args) else { nd::fail("a CAP message is refused") };
        let r = a.combine(a2);
        if more && sub2 == "LS" {
            nd::check(r.is_none() && a.is_last, "the lines of one reply are not combined");
            reference(&t2, &mut want);
        } else {
            nd::check(r.is_some() && a.is_last != more, "unrelated lines are combined");
        }
        check_map(&a, &want);
    }
}
/// Replies of several lines: later values of a capability replace earlier ones, and only the
/// lines of one reply combine.
pub fn h_cap_combine() {
    let list = || {
        let mut t: Vec<u8> = vec![];
        for i in 0..nd::choose(nd::param(1) + 1) {
            if i > 0 {
                t.push(b' ');
            }
            let k = nd::u8_();
            nd::assume(spec::key(k) & (k != b':') & (k != 9) & (k != 12));
            t.push(k);
            if nd::flip() {
                t.push(b'=');
                let v = nd::u8_();
                nd::assume(spec::word(v) & (v != 9) & (v != 12));
                t.push(v);
            }
        }
        t
    };
    let line = |nick: usize, sub: usize, more: bool, t: &[u8]| {
        let l = [&b"CAP "[..], [&b"*"[..], b"N", b"n"][nick], b" ", [&b"LS"[..], b"LIST", b"NEW"][sub], if more { &b" * :"[..] } else { b" :" }, t].concat();
        let Ok(m) = ServerMsg::parse(raw::line(&l).owning()) else { nd::fail("a CAP message does not parse") };
        let Ok(a) = ServerMsgArgs::parse(&m.args.clone().owning()) else { nd::fail("a CAP message is refused") };
        a
    };
    let (nick, sub) = (nd::choose(3), nd::choose(3));
    let mut more = nd::flip();
    let t = list();
    let mut a = line(nick, sub, more, &t);
    let mut want = vec![];
    reference(&t, &mut want);
    for _ in 0..nd::param(0) {
        let (nick2, sub2) = if nd::flip() { (nick, sub) } else { (nd::choose(3), nd::choose(3)) };
        let more2 = nd::flip();
        let t2 = list();
        let b = line(nick2, sub2, more2, &t2);
        let r = a.combine(b);
        if more && nick == nick2 && sub == sub2 {
            nd::check(r.is_none(), "the lines of one reply are not combined");
            more = more2;
            reference(&t2, &mut want);
        } else {
            let Some(r) = r else { nd::fail("unrelated lines are combined") };
            let mut w2 = vec![];
            reference(&t2, &mut w2);
            check_map(&r, &w2);
            nd::check(r.is_last != more2, "the continuation marker is misread");
        }
        nd::check(a.is_last != more, "the continuation marker is misread");
        check_map(&a, &want);
    }
}
/// Requests: every capability once, in lines that can be acknowledged in one line.
pub fn h_cap_req() {
    let lens = [1, 2, 30, 100, 240, 440];
    let n = 1 + nd::choose(nd::param(0));
    let mut caps: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let l = lens[nd::choose(nd::param(1))];
        let mut v = vec![b'a' + i as u8; l];
        let b = nd::u8_();
        nd::assume(spec::key(b));
        v[l / 2] = b;
        if l == 1 {
            nd::assume(b != b':');
        }
        caps.push(v);
    }
    // pad so that limits are hit exactly
    if nd::param(2) > 0 {
        let extra = nd::choose(nd::param(2));
        caps[0].extend(vec![b'x'; extra]);
    }
    let nick = nd::flip().then(|| vec![b'n'; [1, 9, 30][nd::choose(3)]]);
    let host = nd::flip().then(|| vec![b'h'; [1, 40][nd::choose(2)]]);
    let src = host.as_ref().map(|h| Source::parse(raw::word(h).owning()).unwrap());
    let mut out: Vec<Vec<u8>> = vec![];
    req(caps.iter().map(|c| raw::key(c).owning()), nick.as_ref().map(|n| raw::arg(n).owning()), src.as_ref(), |m: ClientMsg<'static>| {
        let mut v = vec![];
        m.write_to(&mut v).unwrap();
        out.push(v);
    });
    let mut i = 0;
    for l in &out {
        nd::check(l.len() > 8 && &l[..8] == b"CAP REQ ", "something else than CAP REQ is sent");
        let t = if l[8] == b':' { &l[9..] } else { &l[8..] };
        let mut at = 0;
        let mut words = 0;
        while at < t.len() {
            nd::check(i < n, "more capabilities are requested than given");
            let c = &caps[i];
            nd::check(at + c.len() <= t.len() && nd::same(&t[at..at + c.len()], c), "a requested capability differs");
            at += c.len();
            i += 1;
            words += 1;
            if at < t.len() {
                nd::check(t[at] == b' ' && at + 1 < t.len(), "capabilities are not separated by one space");
                at += 1;
            }
        }
        nd::check(words > 0, "an empty request is sent");
        // the reply is ":source CAP nick ACK :list" CR LF
        let reply = host.as_ref().map_or(0, |h| h.len() + 2) + 4 + nick.as_ref().map_or(1, |n| n.len()) + 6 + t.len() + 2;
        nd::check(words == 1 || reply <= 512, "a request cannot be acknowledged in one line");
    }
    nd::check(i == n, "a capability is not requested");
    nd::cover(out.len() as u32);
}
fn _unused(_: Arg, _: Key, _: Line) {}
