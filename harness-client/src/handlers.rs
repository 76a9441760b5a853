//! The handlers that come with the library.
use crate::clock::{self, Time};
use crate::nd;
use crate::register::client;
use crate::spec::{self, raw, Ty};
use crate::world::{self, Conn};
use std::num::NonZeroUsize;
use std::ops::ControlFlow;
use std::time::Duration;
use vinezombie::client::channel::{Sender, Sent, SyncChannels};
use vinezombie::client::handlers::{AutoPong, CtcpVersion, Ping, TrackClientSource};
use vinezombie::client::state::{ClientSource, ISupport};
use vinezombie::client::{Client, ClientState};
use vinezombie::ircmsg::{Source, UserHost};
use vinezombie::names::NameMap;
use vinezombie::string::{Key, Word};

/// Feeds a line, runs the client, and says whether a handler finished and what was sent.
fn say(c: &mut Client<Conn, SyncChannels>, line: &[u8]) -> (bool, Vec<Vec<u8>>) {
    world::feed(line);
    let fin = match c.run() {
        Ok(Some((_, f))) => !f.is_empty(),
        Ok(None) => false,
        Err(_) => nd::fail("an I/O error out of nothing"),
    };
    (fin, world::lines())
}
/// Whether `l` is `head` and one argument `arg`.
fn is_msg(l: &[u8], head: &[u8], arg: &[u8]) -> bool {
    let n = head.len();
    if l.len() < n + 1 || !nd::same(&l[..n], head) || l[n] != b' ' {
        return false;
    }
    if l.len() > n + 1 && l[n + 1] == b':' {
        return nd::same(&l[n + 2..], arg);
    }
    spec::member(Ty::Arg, arg) && nd::same(&l[n + 1..], arg)
}
fn upper(v: &[u8]) -> Vec<u8> {
    v.iter().map(|b| b.to_ascii_uppercase()).collect()
}

/// AutoPong answers pings, and nothing else, with their last argument.
pub fn h_autopong() {
    let mut c = client();
    let Ok((_, ())) = c.add((), AutoPong);
    nd::check(world::lines().is_empty(), "a message out of nothing");
    for _ in 0..nd::param(2) {
        let mut line = vec![];
        if nd::flip() {
            line.extend_from_slice(b":a ");
        }
        let kind = match nd::choose(4) {
            0 => b"PING".to_vec(),
            1 => b"PONG".to_vec(),
            2 => b"001".to_vec(),
            _ => {
                let v = nd::bytes(4);
                for b in &v {
                    nd::assume(b.is_ascii_alphabetic());
                }
                v
            }
        };
        let isping = nd::same(&upper(&kind), b"PING");
        line.extend_from_slice(&kind);
        let words = nd::choose(nd::param(0) + 1);
        let mut last = None;
        for _ in 0..words {
            let w = spec::any_member(Ty::Arg, 1, nd::param(1));
            line.push(b' ');
            line.extend_from_slice(&w);
            last = Some(w);
        }
        if nd::flip() {
            let w = spec::any_member(Ty::Line, 0, nd::param(1));
            line.extend_from_slice(b" :");
            line.extend_from_slice(&w);
            last = Some(w);
        }
        let (fin, l) = say(&mut c, &line);
        nd::check(!fin, "the handler finished");
        if isping {
            nd::check(l.len() == 1, "a ping is not answered exactly once");
            match last {
                None => nd::check(l[0] == b"PONG", "the answer to a ping differs"),
                Some(a) => nd::check(is_msg(&l[0], b"PONG", &a), "the answer to a ping differs"),
            }
        } else {
            nd::check(l.is_empty(), "something else than a ping is answered");
        }
    }
}

static mut GOT: Vec<(Option<Vec<u8>>, Duration)> = vec![];
#[allow(static_mut_refs)]
fn got() -> &'static mut Vec<(Option<Vec<u8>>, Duration)> {
    unsafe { &mut GOT }
}
struct Slot;
impl Sender for Slot {
    type Value = (Option<Source<'static>>, Duration);
    fn send(&mut self, v: Self::Value) -> ControlFlow<Sent> {
        got().push((v.0.map(|s| s.nick.as_bytes().to_vec()), v.1));
        ControlFlow::Break(Sent::Ok)
    }
}
/// Ping yields the time from its creation to the reply that carries its token, and takes nothing
/// else for that reply.
pub fn h_ping() {
    // the time of creation is concrete, as it is hashed
    let created = clock::now();
    let mut c = client();
    let Ok(_) = c.add_with_sender(Box::new(Slot), (), Ping::default());
    let mut token = vec![];
    let mut first = true;
    for _ in 0..nd::param(0) {
        clock::advance();
        let mut line = vec![];
        let src = nd::flip().then(|| spec::any_member(Ty::Nick, 1, nd::param(1)));
        if let Some(s) = &src {
            line.push(b':');
            line.extend_from_slice(s);
            line.push(b' ');
        }
        if first {
            // the first run sends the ping
            world::feed(b"X");
            let _ = c.run();
            let l = world::lines();
            nd::check(l.len() == 1 && l[0].len() > 5 && &l[0][..5] == b"PING ", "no ping is sent");
            token = l[0][5..].to_vec();
            nd::check(!token.contains(&b' '), "the token is not one word");
            first = false;
        }
        let pong = nd::flip();
        line.extend_from_slice(if pong { b"PONG" } else { b"PING" });
        if nd::flip() {
            line.extend_from_slice(b" srv");
        }
        let mut t = token.clone();
        let mut right = true;
        match nd::choose(5) {
            0 => (),
            1 => {
                // another byte somewhere
                let i = 1 + nd::choose(t.len() - 1);
                let b = nd::u8_();
                nd::assume(spec::byte_ok(Ty::Arg)(b) & (b != t[i]));
                t[i] = b;
                right = false;
            }
            2 => {
                t.pop();
                right = false;
            }
            3 => {
                t = spec::any_member(Ty::Arg, 1, 2);
                right = false;
            }
            _ => {
                t = vec![];
                right = false;
            }
        }
        if !t.is_empty() {
            line.push(b' ');
            line.extend_from_slice(&t);
        }
        let (fin, l) = say(&mut c, &line);
        nd::check(l.is_empty(), "a message out of nothing");
        if pong && right {
            nd::check(fin && got().len() == 1, "the reply is not recognized");
            let (s, d) = &got()[0];
            nd::check(Time::of(*d).plus(created).eq(clock::now()), "the duration differs");
            match (s, &src) {
                (None, None) => (),
                (Some(a), Some(b)) => nd::check(nd::same(a, b), "the source of the reply differs"),
                _ => nd::fail("the source of the reply differs"),
            }
            nd::cover(1);
            return;
        }
        nd::check(!fin && got().is_empty(), "something else is taken for the reply");
    }
}

/// CTCP VERSION and SOURCE are answered in a NOTICE to whoever asked, if there is an answer.
pub fn h_ctcp_version() {
    let ver = spec::any_member(Ty::Line, 0, nd::param(0));
    let srcs = spec::any_member(Ty::Line, 0, nd::param(0));
    let mut c = client();
    let h = CtcpVersion { version: raw::line(&ver).owning(), source: raw::line(&srcs).owning() };
    let Ok((_, ())) = c.add((), h);
    let mut line = vec![];
    let nick = nd::flip().then(|| spec::any_member(Ty::Nick, 1, nd::param(1)));
    if let Some(s) = &nick {
        line.push(b':');
        line.extend_from_slice(s);
        if nd::flip() {
            line.extend_from_slice(b"!u@h");
        }
        line.push(b' ');
    }
    let msg = nd::choose(3);
    line.extend_from_slice([&b"PRIVMSG me :"[..], b"NOTICE me :", b"TOPIC me :"][msg]);
    let mut text = if nd::flip() { vec![1] } else { vec![] };
    let ctcp = !text.is_empty();
    let mut cmd = vec![];
    match nd::choose(3) {
        0 => cmd.extend_from_slice(b"VERSION"),
        1 => cmd.extend_from_slice(b"SOURCE"),
        _ => {
            // any casing, and one letter off
            let want = [&b"VERSION"[..], b"SOURCE"][nd::choose(2)];
            for b in want {
                cmd.push(*b | (nd::below(2) << 5));
            }
            let i = nd::choose(cmd.len());
            let b = nd::u8_();
            nd::assume(b.is_ascii_alphabetic());
            cmd[i] = b;
        }
    }
    text.extend_from_slice(&cmd);
    match nd::choose(3) {
        0 => (),
        1 => text.push(1),
        _ => {
            let more = spec::any_member(Ty::Line, 0, 2);
            text.push(b' ');
            text.extend_from_slice(&more);
            text.push(1);
        }
    }
    line.extend_from_slice(&text);
    let (fin, l) = say(&mut c, &line);
    nd::check(!fin, "the handler finished");
    let up = upper(&cmd);
    let isver = nd::same(&up, b"VERSION");
    let (name, answer) = if isver { (&b"VERSION"[..], &ver) } else { (&b"SOURCE"[..], &srcs) };
    if msg == 0 && ctcp && nick.is_some() && (isver || nd::same(&up, b"SOURCE")) && !answer.is_empty() {
        nd::check(l.len() == 1, "a query is not answered exactly once");
        let want = [b"\x01", name, b" ", answer, b"\x01"].concat();
        let head = [b"NOTICE ", &nick.unwrap()[..]].concat();
        nd::check(is_msg(&l[0], &head, &want), "the answer differs");
        nd::cover(1);
    } else {
        nd::check(l.is_empty(), "something else than a query is answered, or a query without answer");
    }
}

// ------------------------------------------------------------------ own source

struct Src {
    nick: Vec<u8>,
    user: Option<Vec<u8>>,
    host: Option<Vec<u8>>,
}
fn any_src(n: usize) -> Src {
    let nick = spec::any_member(Ty::Nick, 1, n);
    let host = nd::flip().then(|| spec::any_member(Ty::Word, 1, n));
    let user = (host.is_some() && nd::flip()).then(|| spec::any_member(Ty::User, 1, n));
    Src { nick, user, host }
}
fn real(s: &Src) -> Source<'static> {
    let mut r = Source::new_server(raw::nick(&s.nick).owning());
    r.userhost = s.host.as_ref().map(|h| UserHost { user: s.user.as_ref().map(|u| raw::user(u).owning()), host: raw::word(h).owning() });
    r
}
fn tilde(u: &[u8]) -> usize {
    u.len() + if u.first() == Some(&b'~') { 0 } else { 1 }
}
fn check_src(st: &ClientState, want: &Src) {
    let Some(s) = st.get::<ClientSource>() else { nd::fail("the client's source is lost") };
    nd::check(nd::same(s.nick.as_bytes(), &want.nick), "the client's nick differs");
    match (&s.userhost, &want.host) {
        (None, None) => (),
        (Some(uh), Some(h)) => {
            nd::check(nd::same(uh.host.as_bytes(), h), "the client's host differs");
            match (&uh.user, &want.user) {
                (None, None) => (),
                (Some(a), Some(b)) => nd::check(nd::same(a.as_bytes(), b), "the client's user differs"),
                _ => nd::fail("the client's user differs"),
            }
        }
        _ => nd::fail("the client's host differs"),
    }
}
/// The client's own source follows what the server says about the client, and about nobody else.
pub fn h_track() {
    let n = nd::param(1);
    let mut c = client();
    let mut s = any_src(n);
    let known = nd::below(4) != 0;
    if known {
        c.state_mut().insert::<ClientSource>(real(&s));
    }
    let Ok((_, ())) = c.add((), TrackClientSource::new());
    let l = { world::feed(b"X"); let _ = c.run(); world::lines() };
    if known {
        nd::check(l.len() == 1 && is_msg(&l[0], b"USERHOST", &s.nick), "the client does not ask for its host");
    } else {
        nd::check(l.is_empty(), "the client asks for an unknown host");
    }
    let mut changed = false;
    for _ in 0..nd::param(0) {
        let mut line = vec![];
        let who = nd::flip().then(|| spec::any_member(Ty::Nick, 1, n));
        if let Some(w) = &who {
            line.push(b':');
            line.extend_from_slice(w);
            line.extend_from_slice(if nd::flip() { b"!u@h " } else { b" " });
        }
        let own = known && who.as_ref().map_or(false, |w| nd::same(w, &s.nick));
        match nd::choose(4) {
            0 => {
                let new = spec::any_member(Ty::Nick, 1, n);
                line.extend_from_slice(b"NICK ");
                line.extend_from_slice(&new);
                if own {
                    s.nick = new;
                    changed = true;
                }
            }
            1 => {
                let u = spec::any_member(Ty::User, 1, n);
                let h = spec::any_member(Ty::Arg, 1, n);
                line.extend_from_slice(&[b"CHGHOST ", &u[..], b" ", &h[..]].concat());
                if own {
                    s.user = Some(u);
                    s.host = Some(h);
                    changed = true;
                }
            }
            2 => {
                let me = spec::any_member(Ty::Nick, 1, n);
                nd::assume(nd::all(&me, |b| (b != b'*') & (b != b'=')));
                let u = spec::any_member(Ty::User, 1, n);
                let h = spec::any_member(Ty::Arg, 1, n);
                nd::assume(nd::all(&h, |b| (b != b'@') & (b != b'!')));
                let oper: &[u8] = if nd::flip() { b"*=" } else { b"=" };
                let away: &[u8] = if nd::flip() { b"+" } else { b"-" };
                line.extend_from_slice(b"302 x ");
                let other = nd::flip();
                if other {
                    // somebody else before
                    line.extend_from_slice(b"somebody=+o@o ");
                }
                line.extend_from_slice(&[b":", &me[..], oper, away, &u[..], b"@", &h[..]].concat());
                if known && nd::same(&me, &s.nick) {
                    s.user = Some(u);
                    s.host = Some(h);
                    changed = true;
                    nd::cover(3);
                }
            }
            _ => {
                line.extend_from_slice([&b"QUIT :x"[..], b"NICK", b"CHGHOST a", b"302 x"][nd::choose(4)]);
            }
        }
        let (fin, l) = say(&mut c, &line);
        nd::check(l.is_empty(), "a message out of nothing");
        nd::check(!fin, "the handler finished");
        if known {
            check_src(c.state(), &s);
            if changed && s.user.is_some() {
                let (u, h) = (s.user.as_ref().unwrap(), s.host.as_ref().unwrap());
                let len = c.state().source_len().get();
                nd::check(len == s.nick.len() + tilde(u) + h.len() + 2, "the assumed length of the source differs");
            }
        } else {
            nd::check(c.state().get::<ClientSource>().is_none(), "a source out of nothing");
        }
    }
    if !known {
        // a source that becomes known later is tracked
        c.state_mut().insert::<ClientSource>(real(&s));
        let new = spec::any_member(Ty::Nick, 1, n);
        let (fin, _) = say(&mut c, &[b":", &s.nick[..], b" NICK ", &new[..]].concat());
        nd::check(!fin, "the handler finished");
        s.nick = new;
        check_src(c.state(), &s);
    }
}

fn limit(m: &mut NameMap<vinezombie::names::ISupport>, k: &'static str, n: usize) -> Option<usize> {
    if !nd::flip() {
        return None;
    }
    let v = spec::any_member(Ty::Word, 0, n);
    m.edit().insert((Key::from_str(k), raw::word(&v).owning()), ());
    number(&v, 65535)
}
/// The positive number up to `max` that a text is, if it is one.
pub fn number(v: &[u8], max: usize) -> Option<usize> {
    let d = if v.first() == Some(&b'+') { &v[1..] } else { v };
    if d.is_empty() || !nd::all(d, |b| b.is_ascii_digit()) {
        return None;
    }
    let mut r = 0usize;
    for b in d {
        r = r * 10 + (*b - b'0') as usize;
    }
    (r > 0 && r <= max).then_some(r)
}
/// The assumed length of the client's source.
pub fn h_source_len() {
    let (n, d) = (nd::param(0), nd::param(1));
    let mut c = client();
    nd::check(c.state().source_len().get() == 85, "the default length differs");
    let s = any_src(n);
    let known = nd::flip();
    if known {
        c.state_mut().insert::<ClientSource>(real(&s));
    }
    let sup = nd::flip();
    let mut lims = [None; 3];
    if sup {
        let mut m = NameMap::new();
        for (i, k) in ["NICKLEN", "USERLEN", "HOSTLEN"].into_iter().enumerate() {
            lims[i] = limit(&mut m, k, d);
        }
        c.state_mut().insert::<ISupport>(m);
    }
    let nick = if known { Some(s.nick.len()) } else { None };
    let host = if known { s.host.as_ref().map(|h| h.len()) } else { None };
    let want = |user: Option<usize>| {
        if let (Some(n), Some(u), Some(h)) = (nick, user, host) {
            Some(n + u + h + 2)
        } else if sup {
            Some(nick.or(lims[0]).unwrap_or(9) + user.or(lims[1]).unwrap_or(10) + host.or(lims[2]).unwrap_or(64) + 2)
        } else if known {
            None
        } else {
            Some(85)
        }
    };
    let user = |t: bool| if known { s.user.as_ref().map(|u| if t { tilde(u) } else { u.len() }) } else { None };
    let same = |got: NonZeroUsize, want: Option<usize>| match want {
        Some(w) => nd::check(got.get() == w, "the assumed length of the source differs"),
        None => (),
    };
    let got = c.state_mut().update_source_len();
    nd::check(c.state().source_len() == got, "the assumed length is not stored");
    same(got, want(user(true)));
    let add = nd::flip();
    let src = real(&s);
    let got = c.state_mut().update_source_len_from(known.then_some(&src), add);
    nd::check(c.state().source_len() == got, "the assumed length is not stored");
    same(got, want(user(add)));
    c.reset();
    nd::check(c.state().source_len().get() == 85, "reset() keeps the length of the source");
    let _ = Word::default();
}
