//! Names, maps of names, typed values and typed messages.
use crate::handlers::number;
use crate::nd;
use crate::register::client;
use crate::spec::{self, raw, Ty};
use crate::world;
use vinezombie::client::handlers::YieldParsed;
use vinezombie::ircmsg::{ClientMsg, ServerMsg, SharedSource, Source, TargetedMsg};
use vinezombie::names::{cap, cmd::*, isupport as i, Cap, ISupport, NameMap, NameValued};
use vinezombie::string::{Arg, Cmd, Key, Line, Word};

fn text(n: usize, digits: bool) -> Vec<u8> {
    if digits {
        let v = nd::upto(n);
        for b in &v {
            nd::assume(b.is_ascii_digit());
        }
        v
    } else {
        spec::any_member(Ty::Word, 0, n)
    }
}
/// Values of ISUPPORT tokens.
pub fn h_isupport() {
    let v = text(nd::param(0), nd::param(1) > 0);
    let mut m: NameMap<ISupport> = NameMap::new();
    macro_rules! put {
        ($k:ident) => {{
            m.edit().insert((Key::from_str(stringify!($k)), raw::word(&v).owning()), ());
            let Some(r) = m.get_parsed(i::$k) else { nd::fail("a token is not found") };
            nd::check(m.get_union(i::$k).is_some_and(|u| nd::same(u.1.as_bytes(), &v)), "a token is not found");
            r.ok()
        }};
    }
    macro_rules! num {
        ($k:ident) => {{
            nd::check(put!($k).map(|n| n.get() as usize) == number(&v, 65535), "a number in a token is misread")
        }};
    }
    macro_rules! big {
        ($k:ident) => {{
            match put!($k) {
                Some(None) => nd::check(v.is_empty(), "a number in a token is misread"),
                Some(Some(n)) => nd::check(number(&v, u32::MAX as usize) == Some(n.get() as usize), "a number in a token is misread"),
                None => nd::check(!v.is_empty() && number(&v, u32::MAX as usize).is_none(), "a number in a token is misread"),
            }
        }};
    }
    macro_rules! mode {
        ($k:ident, $d:expr) => {{
            let want: Option<u8> = match v.first() {
                Some(b) => b.is_ascii_alphabetic().then_some(*b),
                None => $d,
            };
            nd::check(put!($k).map(u8::from) == want, "a mode in a token is misread")
        }};
    }
    let n = if nd::param(1) > 0 { 10 } else { 16 };
    match nd::choose(n) {
        0 => num!(AWAYLEN),
        1 => num!(CHANNELLEN),
        2 => num!(HOSTLEN),
        3 => num!(KICKLEN),
        4 => num!(MODES),
        5 => num!(NICKLEN),
        6 => num!(TOPICLEN),
        7 => num!(USERLEN),
        8 => big!(MONITOR),
        9 => big!(SILENCE),
        10 => mode!(BOT, None),
        11 => mode!(CALLERID, Some(b'g')),
        12 => mode!(EXCEPTS, Some(b'e')),
        13 => mode!(INVEX, Some(b'I')),
        14 => nd::check(put!(NETWORK).is_some_and(|w| nd::same(w.as_bytes(), &v)), "a word in a token is misread"),
        _ => nd::check(put!(UTF8ONLY).is_some() && put!(WHOX).is_some() && put!(SAFELIST).is_some(), "a token is misread"),
    }
}
/// The list of mechanisms in the sasl capability.
pub fn h_sasl_cap() {
    let v = spec::any_member(Ty::Word, 0, nd::param(0));
    let mut m: NameMap<Cap, bool> = NameMap::new();
    let extra = nd::flip();
    m.edit().insert((Key::from_str("sasl"), raw::word(&v).owning()), extra);
    nd::check(m.get_extra(cap::SASL) == Some(&extra), "the extra value differs");
    let Some((Ok(got), e)) = m.get_both(cap::SASL) else { nd::fail("the mechanisms are not found") };
    nd::check(*e == extra, "the extra value differs");
    let mut want: Vec<Vec<u8>> = vec![];
    for w in v.split(|b| *b == b',') {
        if w.is_empty() {
            continue;
        }
        let u: Vec<u8> = w.iter().map(|b| b.to_ascii_uppercase()).collect();
        if !want.iter().any(|x| nd::same(x, &u)) {
            want.push(u);
        }
    }
    nd::check(got.len() == want.len(), "the number of mechanisms differs");
    for w in &want {
        nd::check(got.iter().any(|g| nd::same(g.as_bytes(), w)), "a mechanism is missing");
    }
}

type Model = Vec<(Vec<u8>, Vec<u8>, u8)>;
fn find(m: &Model, k: &[u8]) -> Option<usize> {
    (0..m.len()).find(|i| nd::same(&m[*i].0, k))
}
fn check_map(m: &NameMap<Cap, u8>, want: &Model, probe: &[u8]) {
    nd::check(m.len() == want.len() && m.is_empty() == want.is_empty(), "the size of the map differs");
    let k = raw::key(probe).owning();
    match find(want, probe) {
        None => nd::check(m.get_union_raw(&k).is_none() && m.get_extra_raw(&k).is_none(), "a key out of nothing"),
        Some(i) => {
            let Some(u) = m.get_union_raw(&k) else { nd::fail("a key is missing") };
            nd::check(nd::same(u.0.as_bytes(), probe) && nd::same(u.1.as_bytes(), &want[i].1), "a value differs");
            nd::check(m.get_extra_raw(&k) == Some(&want[i].2), "an extra value differs");
        }
    }
    let mut n = 0;
    let mut prev: Option<Vec<u8>> = None;
    for k in m.keys() {
        if let Some(p) = &prev {
            nd::check(p.as_slice() < k.as_bytes(), "keys are not sorted");
        }
        nd::check(find(want, k.as_bytes()).is_some(), "a key out of nothing");
        prev = Some(k.as_bytes().to_vec());
        n += 1;
    }
    nd::check(n == want.len(), "the number of keys differs");
    let mut it = m.keys();
    nd::check(it.len() == n, "the number of keys differs");
    match it.next_back() {
        None => nd::check(n == 0, "reverse iteration differs"),
        Some(k) => {
            nd::check(prev.is_some_and(|p| nd::same(&p, k.as_bytes())), "reverse iteration differs");
            nd::check(it.count() == n - 1, "the number of keys differs");
        }
    }
}
/// Maps of names behave as maps, whatever is done to them.
pub fn h_namemap() {
    let mut m: NameMap<Cap, u8> = NameMap::new();
    let mut want: Model = vec![];
    let kl = nd::param(1);
    let mut left = nd::param(0);
    while left > 0 {
        let n = 1 + nd::choose(left);
        left -= n;
        let mut e = m.edit();
        for _ in 0..n {
            let k = spec::any_member(Ty::Key, 1, kl);
            let at = find(&want, &k);
            let v = spec::any_member(Ty::Word, 0, 1);
            let x = nd::u8_();
            let u = (raw::key(&k).owning(), raw::word(&v).owning());
            match nd::choose(6) {
                0 => {
                    let old = e.insert(u, x);
                    match (old, at) {
                        (None, None) => want.push((k, v, x)),
                        (Some((o, ox)), Some(i)) => {
                            nd::check(nd::same(o.1.as_bytes(), &want[i].1) && ox == want[i].2, "the replaced value differs");
                            want[i] = (k, v, x);
                        }
                        _ => nd::fail("the replaced value differs"),
                    }
                }
                1 => {
                    let r = e.insert_or_update(u, x);
                    nd::check(r.is_some() == at.is_some(), "insert_or_update() reports the wrong change");
                    match at {
                        None => want.push((k, v, x)),
                        Some(i) => want[i].2 = x,
                    }
                }
                2 => {
                    let r = e.try_insert(u, x);
                    nd::check(r.is_some() == at.is_some(), "try_insert() reports the wrong change");
                    if at.is_none() {
                        want.push((k, v, x));
                    }
                }
                3 => {
                    let r = e.remove_raw(&u.0);
                    match (r, at) {
                        (None, None) => (),
                        (Some((o, ox)), Some(i)) => {
                            nd::check(nd::same(o.1.as_bytes(), &want[i].1) && ox == want[i].2, "the removed value differs");
                            want.remove(i);
                        }
                        _ => nd::fail("the removed value differs"),
                    }
                }
                4 => {
                    match (e.get_extra_raw_mut(&u.0), at) {
                        (None, None) => (),
                        (Some(p), Some(i)) => {
                            nd::check(*p == want[i].2, "an extra value differs");
                            *p = x;
                            want[i].2 = x;
                        }
                        _ => nd::fail("an extra value differs"),
                    }
                }
                _ => {
                    e.clear();
                    want.clear();
                }
            }
            nd::check(e.len() == want.len() && e.is_empty() == want.is_empty(), "the size of the map differs");
        }
        drop(e);
    }
    let probe = spec::any_member(Ty::Key, 1, kl);
    check_map(&m, &want, &probe);
}

struct Parts {
    tag: Option<Vec<u8>>,
    src: Option<Vec<u8>>,
    words: Vec<Vec<u8>>,
    last: Option<Vec<u8>>,
}
fn any_parts(n: usize) -> Parts {
    let tag = nd::flip().then(|| spec::any_member(Ty::NoNul, 0, n));
    let src = nd::flip().then(|| spec::any_member(Ty::Nick, 1, n));
    let k = nd::choose(3);
    let words = (0..k).map(|_| spec::any_member(Ty::Arg, 1, n)).collect();
    let last = nd::flip().then(|| spec::any_member(Ty::Line, 0, n));
    Parts { tag, src, words, last }
}
impl Parts {
    fn args(&self) -> (Vec<Vec<u8>>, bool) {
        let mut a = self.words.clone();
        let mut simple = true;
        if let Some(l) = &self.last {
            simple = spec::member(Ty::Arg, l);
            a.push(l.clone());
        }
        (a, simple)
    }
    fn server(&self, kind: &'static str) -> ServerMsg<'static> {
        let Ok(mut m) = ServerMsg::parse(Line::from_str(kind)) else { nd::fail("a command does not parse") };
        if let Some(t) = &self.tag {
            m.tags.edit().insert_pair(Key::from_str("k"), raw::nonul(t).owning());
        }
        m.source = self.src.as_ref().map(|s| SharedSource::new(Source::new_server(raw::nick(s).owning())));
        for w in &self.words {
            m.args.edit().add_word(raw::arg(w).owning());
        }
        if let Some(l) = &self.last {
            m.args.edit().add(raw::line(l).owning());
        }
        m
    }
    fn client(&self, kind: &'static str) -> ClientMsg<'static> {
        let mut m = ClientMsg::new_cmd(Cmd::from_str(kind));
        if let Some(t) = &self.tag {
            m.tags.edit().insert_pair(Key::from_str("k"), raw::nonul(t).owning());
        }
        for w in &self.words {
            m.args.edit().add_word(raw::arg(w).owning());
        }
        if let Some(l) = &self.last {
            m.args.edit().add(raw::line(l).owning());
        }
        m
    }
}
fn check_common<T>(m: &TargetedMsg<'_, T>, p: &Parts, server: bool, target: &[u8]) {
    match &p.tag {
        None => nd::check(m.tags.is_empty(), "tags out of nothing"),
        Some(t) => nd::check(m.tags.len() == 1 && m.tags.get("k").is_some_and(|v| nd::same(v.as_bytes(), t)), "a tag differs"),
    }
    match (&m.source, &p.src) {
        (None, None) => (),
        (None, Some(_)) => nd::check(!server, "the source is lost"),
        (Some(a), Some(b)) => nd::check(server && nd::same(a.nick.as_bytes(), b), "the source differs"),
        (Some(_), None) => nd::fail("a source out of nothing"),
    }
    nd::check(nd::same(m.target.as_bytes(), target), "the target differs");
}
fn check_line<E>(r: Result<TargetedMsg<'_, Line<'_>>, E>, p: &Parts, server: bool, targeted: bool) {
    let (a, _) = p.args();
    let need = if targeted { 2 } else { 1 };
    let Ok(m) = r else {
        nd::check(a.len() != need, "a message with the right arguments is refused");
        return;
    };
    nd::check(a.len() == need, "a message with the wrong arguments is accepted");
    check_common(&m, p, server, if targeted { &a[0] } else { b"*" });
    nd::check(nd::same(m.value.as_bytes(), &a[need - 1]), "the text differs");
    // mapping changes nothing but the text
    let len = a[need - 1].len();
    match nd::choose(4) {
        0 => {
            let m = m.map(|l| l.len());
            check_common(&m, p, server, if targeted { &a[0] } else { b"*" });
            nd::check(m.value == len, "the mapped value differs");
        }
        1 => {
            let Ok(m) = m.map_result(|l| if true { Ok(l.len()) } else { Err(()) }) else { nd::fail("a mapping fails") };
            check_common(&m, p, server, if targeted { &a[0] } else { b"*" });
            nd::check(m.value == len, "the mapped value differs");
        }
        2 => {
            nd::check(m.map_result(|_| Err::<(), u8>(7)).is_err_and(|e| e == 7), "a failed mapping succeeds");
        }
        _ => {
            let mut i = 0;
            for m in m.map_iter(|l| [l.len(), 0, 1]) {
                check_common(&m, p, server, if targeted { &a[0] } else { b"*" });
                nd::check(m.value == [len, 0, 1][i], "the mapped value differs");
                i += 1;
            }
            nd::check(i == 3, "the number of mapped messages differs");
        }
    }
}
/// Typed messages: exactly the parts of the message they are made from.
pub fn h_typed() {
    let p = any_parts(nd::param(0));
    macro_rules! both {
        ($k:ident, $t:expr) => {{
            let name = stringify!($k);
            if nd::flip() {
                let m = p.server(name);
                nd::check(m.kind == $k, "the kind differs");
                check_line(m.parse_as($k), &p, true, $t)
            } else {
                let m = p.client(name);
                nd::check(m.cmd == $k, "the command differs");
                check_line(m.parse_as($k), &p, false, $t)
            }
        }};
    }
    match nd::choose(7) {
        0 => both!(NOTICE, true),
        1 => both!(PART, true),
        2 => both!(PRIVMSG, true),
        3 => both!(TOPIC, true),
        4 => both!(QUIT, false),
        5 => both!(WALLOPS, false),
        _ => {
            let m = p.server("JOIN");
            let (a, simple) = p.args();
            match JOIN::from_union(&m) {
                Ok(m) => {
                    nd::check(a.len() == 1 && simple, "a JOIN with the wrong arguments is accepted");
                    check_common(&m, &p, true, &a[0]);
                }
                Err(_) => nd::check(a.len() != 1 || !simple, "a JOIN with the right arguments is refused"),
            }
        }
    }
}
/// Handlers that yield parsed messages yield every message of their kinds once, in order, and
/// finish when nobody listens.
pub fn h_yield_parsed() {
    let mut c = client();
    let flat = nd::flip();
    let h = if flat {
        YieldParsed::just_flat_map(PRIVMSG, |m: TargetedMsg<'static, Line<'static>>| vec![(1u8, m.value.clone()), (2, m.value)])
            .with_flat_map(NOTICE, |m: TargetedMsg<'static, Line<'static>>| Some((3, m.value)))
    } else {
        YieldParsed::new()
            .with_flat_map(NOTICE, |m: TargetedMsg<'static, Line<'static>>| Some((3, m.value)))
            .with_flat_map(PRIVMSG, |m: TargetedMsg<'static, Line<'static>>| Some((1, m.value)))
    };
    let Ok((id, r)) = c.add((), h);
    let mut r = Some(r);
    for _ in 0..nd::param(0) {
        if nd::flip() {
            r = None;
        }
        let kind = nd::choose(4);
        let text = spec::any_member(Ty::Line, 0, nd::param(1));
        let bad = nd::flip();
        let head: &[u8] = match kind {
            0 => b"PRIVMSG",
            1 => b"NOTICE",
            2 => b"TOPIC",
            _ => b"notice",
        };
        let mut line = head.to_vec();
        line.extend_from_slice(if bad { b" a b :" } else { b" a :" });
        line.extend_from_slice(&text);
        world::feed(&line);
        let (y, f) = match c.run() {
            Ok(Some((y, f))) => (y.to_vec(), f.to_vec()),
            Ok(None) => (vec![], vec![]),
            Err(_) => nd::fail("an I/O error out of nothing"),
        };
        let is = kind != 2 && !bad;
        if !is {
            nd::check(y.is_empty() && f.is_empty(), "something else is yielded");
            continue;
        }
        let Some(r) = &r else {
            nd::check(y.is_empty() && f.len() == 1 && f[0] == id, "the handler goes on although nobody listens");
            nd::cover(9);
            return;
        };
        nd::check(y.len() == 1 && y[0] == id && f.is_empty(), "a message is not yielded");
        let want: &[u8] = if kind != 0 {
            &[3]
        } else if flat {
            &[1, 2]
        } else {
            &[1]
        };
        for w in want {
            let Ok((k, t)) = r.try_recv() else { nd::fail("a message is not yielded") };
            nd::check(k == *w && nd::same(t.as_bytes(), &text), "another message is yielded");
        }
        nd::check(r.try_recv().is_err(), "a message is yielded twice");
    }
}
/// The same for handlers that yield messages as they are parsed, added in any order.
pub fn h_yield_just() {
    let mut c = client();
    let how = nd::choose(4);
    let h = match how {
        0 => YieldParsed::just(PRIVMSG),
        1 => YieldParsed::just(PRIVMSG).with(NOTICE),
        2 => YieldParsed::just(NOTICE).with(PRIVMSG).with(TOPIC),
        _ => YieldParsed::new().with(TOPIC).with(NOTICE),
    };
    let has = |k: usize| [[true, false, false], [true, true, false], [true, true, true], [false, true, true]][how][k];
    let Ok((id, r)) = c.add((), h);
    let mut r = Some(r);
    for _ in 0..nd::param(0) {
        if nd::flip() {
            r = None;
        }
        let kind = nd::choose(4);
        let text = spec::any_member(Ty::Line, 0, nd::param(1));
        let bad = nd::flip();
        let head: &[u8] = [&b"PRIVMSG"[..], b"NOTICE", b"TOPIC", b"PART"][kind];
        let mut line = head.to_vec();
        line.extend_from_slice(if bad { b" a b :" } else { b" a :" });
        line.extend_from_slice(&text);
        world::feed(&line);
        let (y, f) = match c.run() {
            Ok(Some((y, f))) => (y.to_vec(), f.to_vec()),
            Ok(None) => (vec![], vec![]),
            Err(_) => nd::fail("an I/O error out of nothing"),
        };
        if kind == 3 || bad || !has(kind) {
            nd::check(y.is_empty() && f.is_empty(), "something else is yielded");
            continue;
        }
        let Some(r) = &r else {
            nd::check(y.is_empty() && f.len() == 1 && f[0] == id, "the handler goes on although nobody listens");
            nd::cover(9);
            return;
        };
        nd::check(y.len() == 1 && y[0] == id && f.is_empty(), "a message is not yielded");
        let Ok(m) = r.try_recv() else { nd::fail("a message is not yielded") };
        nd::check(nd::same(m.value.as_bytes(), &text) && m.target == "a", "another message is yielded");
        nd::check(r.try_recv().is_err(), "a message is yielded twice");
    }
    nd::cover(1);
}
fn _unused(_: Arg, _: Word) {}
