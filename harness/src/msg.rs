//! Messages: wire format, round trips, parser totality, lengths, containers.
use crate::nd;
use crate::spec::{self, raw, Ty};
use vinezombie::ircmsg::*;
use vinezombie::string::*;

/// A list of (key, value) pairs, as generated.
pub type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

pub struct Gen {
    pub tags: Pairs,
    pub words: Vec<Vec<u8>>,
    pub last: Option<Vec<u8>>,
}

pub fn gen_tags(n: usize, klen: usize, vlen: usize) -> Pairs {
    let mut p = Vec::new();
    for _ in 0..n {
        let k = spec::any_member(Ty::Key, 1, klen);
        let v = spec::any_member(Ty::NoNul, 0, vlen);
        p.push((k, v));
    }
    p
}
pub fn gen_words(n: usize, len: usize) -> Vec<Vec<u8>> {
    let mut w = Vec::new();
    for _ in 0..n {
        w.push(spec::any_member(Ty::Arg, 1, len));
    }
    w
}
/// What the map must say for `k` after the pairs were inserted in order.
pub fn lookup<'a>(p: &'a Pairs, k: &[u8]) -> Option<&'a [u8]> {
    let mut i = p.len();
    while i > 0 {
        i -= 1;
        if nd::same(&p[i].0, k) {
            return Some(&p[i].1);
        }
    }
    None
}
pub fn distinct(p: &Pairs) -> usize {
    let mut c = 0;
    for i in 0..p.len() {
        let mut dup = false;
        for j in 0..i {
            dup |= nd::same(&p[i].0, &p[j].0);
        }
        if !dup {
            c += 1;
        }
    }
    c
}
pub fn check_tags(t: &Tags<'_>, p: &Pairs) {
    nd::check(t.len() == distinct(p), "number of tags differs");
    for (k, _) in p.iter() {
        let want = lookup(p, k).unwrap();
        match t.get(raw::key(k).owning()) {
            Some(v) => nd::check(nd::same(v.as_ref(), want), "tag value differs"),
            None => nd::fail("tag missing"),
        }
    }
}
pub fn check_args(a: &Args<'_>, words: &[Vec<u8>], last: &Option<Vec<u8>>) {
    let mut exp: Vec<&[u8]> = words.iter().map(|w| w.as_slice()).collect();
    if let Some(l) = last {
        exp.push(l);
    }
    nd::check(a.len() == exp.len(), "number of arguments differs");
    nd::check(a.is_empty() == exp.is_empty(), "argument emptiness differs");
    let (rest, l) = a.split_last();
    match l {
        None => nd::check(exp.is_empty(), "last argument missing"),
        Some(l) => {
            nd::check(!exp.is_empty() && nd::same(l.as_ref(), exp[exp.len() - 1]), "last argument differs");
            nd::check(rest.len() + 1 == exp.len(), "number of arguments differs");
            for (i, w) in rest.iter().enumerate() {
                nd::check(nd::same(w.as_ref(), exp[i]), "argument differs");
            }
            let long = !spec::member(Ty::Arg, exp[exp.len() - 1]);
            nd::check(a.is_last_long() == long, "long flag differs");
            nd::check(a.all().is_some() != long, "all() disagrees with the long flag");
        }
    }
}
/// Reference escaping from the IRCv3 message-tags specification.
fn ref_escape(out: &mut Vec<u8>, v: &[u8]) {
    for &b in v {
        match b {
            b';' => out.extend_from_slice(b"\\:"),
            b' ' => out.extend_from_slice(b"\\s"),
            b'\\' => out.extend_from_slice(b"\\\\"),
            b'\r' => out.extend_from_slice(b"\\r"),
            b'\n' => out.extend_from_slice(b"\\n"),
            b => out.push(b),
        }
    }
}
fn build_tags<'a>(p: &'a Pairs) -> Tags<'a> {
    let mut t = Tags::new();
    {
        let mut g = t.edit();
        for (k, v) in p {
            g.insert_pair(raw::key(k), raw::nonul(v));
        }
    }
    t
}
fn build_args<'a>(a: &mut Args<'a>, words: &'a [Vec<u8>], last: &'a Option<Vec<u8>>) {
    match nd::choose(3) {
        0 => {
            let mut g = a.edit();
            for w in words {
                g.add_word(raw::arg(w));
            }
            if let Some(l) = last {
                g.add(raw::line(l));
            }
        }
        1 => {
            a.set(words.iter().map(|w| raw::arg(w)), last.as_ref().map(|l| raw::line(l)));
        }
        _ => {
            let v: Vec<Arg<'a>> = words.iter().map(|w| raw::arg(w)).collect();
            *a = Args::new(v, last.as_ref().map(|l| raw::line(l)));
        }
    }
}
fn gen_last(len: usize) -> Option<Vec<u8>> {
    if nd::flip() {
        Some(spec::any_member(Ty::Line, 0, len))
    } else {
        None
    }
}
/// Reference serialization of everything after the tags and the source.
fn ref_rest(out: &mut Vec<u8>, kind: &[u8], words: &[Vec<u8>], last: &Option<Vec<u8>>) {
    out.extend_from_slice(kind);
    for w in words {
        out.push(b' ');
        out.extend_from_slice(w);
    }
    if let Some(l) = last {
        out.push(b' ');
        if !spec::member(Ty::Arg, l) {
            out.push(b':');
        }
        out.extend_from_slice(l);
    }
}
fn ref_tags(out: &mut Vec<u8>, p: &Pairs) {
    let mut first = true;
    for (k, v) in p {
        out.push(if first { b'@' } else { b';' });
        first = false;
        out.extend_from_slice(k);
        if !v.is_empty() {
            out.push(b'=');
            ref_escape(out, v);
        }
    }
    if !first {
        out.push(b' ');
    }
}

/// params: tags, key length, value length, words, word length, last length
pub fn h_client_roundtrip() {
    let tags = gen_tags(nd::param(0), nd::param(1), nd::param(2));
    let cmd = spec::any_member(Ty::Cmd, 1, 2);
    let nw = nd::choose(nd::param(3) + 1);
    let words = gen_words(nw, nd::param(4));
    let last = gen_last(nd::param(5));
    let mut m = ClientMsg::new_cmd(raw::cmd(&cmd));
    m.tags = build_tags(&tags);
    build_args(&mut m.args, &words, &last);
    let mut out = Vec::new();
    nd::check(ClientCodec::write_to(&m, &mut out).is_ok(), "writing failed");
    nd::check(nd::all(&out, spec::line), "a written message contains a line terminator or NUL");
    if tags.len() < 2 {
        let mut exp = Vec::new();
        ref_tags(&mut exp, &tags);
        ref_rest(&mut exp, &cmd, &words, &last);
        nd::check(nd::same(&out, &exp), "written message is not the wire format");
    }
    match ClientMsg::parse(raw::line(&out)) {
        Ok(p) => {
            nd::check(nd::same(p.cmd.as_ref(), &cmd), "command differs");
            check_tags(&p.tags, &tags);
            check_args(&p.args, &words, &last);
            nd::check(p == m, "parsed message is not equal to the written one");
        }
        Err(_) => nd::fail("a written message cannot be parsed"),
    }
    let (mut sink, mut buf) = (Vec::new(), Vec::new());
    nd::check(ClientCodec::send_to(&m, &mut sink, &mut buf).is_ok(), "sending failed");
    let mut exp = out.clone();
    exp.extend_from_slice(b"\r\n");
    nd::check(nd::same(&sink, &exp), "sent message is not the written message and CRLF");
    nd::check(buf.is_empty(), "buffer was not cleared after sending");
    nd::cover(1);
}

pub struct Src {
    pub nick: Vec<u8>,
    pub user: Option<Vec<u8>>,
    pub host: Option<Vec<u8>>,
}
pub fn gen_source(len: usize) -> Src {
    let nick = spec::any_member(Ty::Nick, 1, len);
    let (user, host) = match nd::choose(3) {
        0 => (None, None),
        1 => (None, Some(spec::any_member(Ty::Word, 1, len))),
        _ => (Some(spec::any_member(Ty::User, 1, len)), Some(spec::any_member(Ty::Word, 1, len))),
    };
    Src { nick, user, host }
}
pub fn build_source<'a>(s: &'a Src) -> Source<'a> {
    match (&s.user, &s.host) {
        (Some(u), Some(h)) => Source::new_user(raw::nick(&s.nick), raw::user(u), raw::word(h)),
        (None, Some(h)) => Source { nick: raw::nick(&s.nick), userhost: Some(UserHost { user: None, host: raw::word(h) }) },
        _ => Source::new_server(raw::nick(&s.nick)),
    }
}
fn ref_source(out: &mut Vec<u8>, s: &Src) {
    out.extend_from_slice(&s.nick);
    if let Some(u) = &s.user {
        out.push(b'!');
        out.extend_from_slice(u);
    }
    if let Some(h) = &s.host {
        out.push(b'@');
        out.extend_from_slice(h);
    }
}
fn opt_same<T: AsRef<[u8]>>(a: Option<&T>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => nd::same(a.as_ref(), b),
        _ => false,
    }
}
pub fn check_source(p: &Source<'_>, s: &Src) {
    nd::check(nd::same(p.nick.as_ref(), &s.nick), "nickname of the source differs");
    nd::check(opt_same(p.user(), &s.user), "username of the source differs");
    nd::check(opt_same(p.host(), &s.host), "hostname of the source differs");
}

/// params: tags, key length, value length, source length (0 = none), words, word length, last length
pub fn h_server_roundtrip() {
    let tags = gen_tags(nd::param(0), nd::param(1), nd::param(2));
    let sl = nd::param(3);
    let src = if sl > 0 && nd::flip() { Some(gen_source(sl)) } else { None };
    let num = nd::flip();
    let kind = if num {
        let v = nd::bytes(3);
        nd::assume(nd::all(&v, |b| b.is_ascii_digit()));
        v
    } else {
        spec::any_member(Ty::Cmd, 1, 2)
    };
    let nw = nd::choose(nd::param(4) + 1);
    let words = gen_words(nw, nd::param(5));
    let last = gen_last(nd::param(6));
    let mut m = ServerMsg::new_cmd(raw::cmd(b"X"));
    m.kind = if num {
        ServerMsgKindRaw::Numeric(Numeric::from_bytes(&kind).unwrap())
    } else {
        ServerMsgKindRaw::Cmd(raw::cmd(&kind))
    };
    m.tags = build_tags(&tags);
    m.source = src.as_ref().map(|s| SharedSource::new(build_source(s)));
    build_args(&mut m.args, &words, &last);
    let mut out = Vec::new();
    nd::check(ServerCodec::write_to(&m, &mut out).is_ok(), "writing failed");
    nd::check(nd::all(&out, spec::line), "a written message contains a line terminator or NUL");
    if tags.len() < 2 {
        let mut exp = Vec::new();
        ref_tags(&mut exp, &tags);
        if let Some(s) = &src {
            exp.push(b':');
            ref_source(&mut exp, s);
            exp.push(b' ');
        }
        ref_rest(&mut exp, &kind, &words, &last);
        nd::check(nd::same(&out, &exp), "written message is not the wire format");
    }
    match ServerMsg::parse(raw::line(&out)) {
        Ok(p) => {
            match &p.kind {
                ServerMsgKindRaw::Numeric(n) => {
                    nd::check(num && nd::same(n.as_bytes(), &kind), "numeric differs");
                    nd::cover(2);
                }
                ServerMsgKindRaw::Cmd(c) => nd::check(!num && nd::same(c.as_ref(), &kind), "command differs"),
            }
            match (&p.source, &src) {
                (None, None) => (),
                (Some(p), Some(s)) => {
                    check_source(p, s);
                    nd::cover(3);
                }
                _ => nd::fail("source appeared or disappeared"),
            }
            check_tags(&p.tags, &tags);
            check_args(&p.args, &words, &last);
            nd::check(p == m, "parsed message is not equal to the written one");
        }
        Err(_) => nd::fail("a written message cannot be parsed"),
    }
    let (mut sink, mut buf) = (Vec::new(), Vec::new());
    nd::check(ServerCodec::send_to(&m, &mut sink, &mut buf).is_ok(), "sending failed");
    let mut exp = out.clone();
    exp.extend_from_slice(b"\r\n");
    nd::check(nd::same(&sink, &exp), "sent message is not the written message and CRLF");
    nd::check(buf.is_empty(), "buffer was not cleared after sending");
    nd::cover(1);
}

fn spaces(out: &mut Vec<u8>, n: usize) {
    let k = 1 + nd::choose(n);
    for _ in 0..k {
        out.push(b' ');
    }
}
/// Any well-formed text: repeated spaces, optional colon before a one-word last argument,
/// any letter case of the command, tags with or without `=`.
/// params: tags, source length, words, length
pub fn h_parse_grammar() {
    let n = nd::param(3);
    let mut text = Vec::new();
    let mut tags: Pairs = Vec::new();
    let nt = nd::param(0);
    for i in 0..nt {
        let k = spec::any_member(Ty::Key, 1, n);
        let v = spec::any_member(Ty::NoNul, 0, n);
        text.push(if i == 0 { b'@' } else { b';' });
        text.extend_from_slice(&k);
        if !v.is_empty() || nd::flip() {
            text.push(b'=');
        }
        ref_escape(&mut text, &v);
        tags.push((k, v));
    }
    if nt > 0 {
        spaces(&mut text, 2);
    }
    let src = if nd::param(1) > 0 { Some(gen_source(nd::param(1))) } else { None };
    if let Some(s) = &src {
        text.push(b':');
        ref_source(&mut text, s);
        spaces(&mut text, 2);
    }
    let cmd = nd::from(1, 2);
    nd::assume(nd::all(&cmd, |b| b.is_ascii_alphabetic()));
    text.extend_from_slice(&cmd);
    let up = cmd.to_ascii_uppercase();
    let nw = nd::choose(nd::param(2) + 1);
    let words = gen_words(nw, n);
    for w in &words {
        spaces(&mut text, 2);
        text.extend_from_slice(w);
    }
    let last = gen_last(n);
    if let Some(l) = &last {
        spaces(&mut text, 2);
        text.push(b':');
        text.extend_from_slice(l);
        nd::cover(2);
    } else if nd::flip() {
        text.push(b' ');
    }
    match ServerMsg::parse(raw::line(&text)) {
        Ok(p) => {
            nd::check(nd::same(p.kind.as_str().as_bytes(), &up), "command differs");
            match (&p.source, &src) {
                (None, None) => (),
                (Some(p), Some(s)) => check_source(p, s),
                _ => nd::fail("source appeared or disappeared"),
            }
            check_tags(&p.tags, &tags);
            check_args(&p.args, &words, &last);
        }
        Err(_) => nd::fail("a well-formed message was refused"),
    }
    match ClientMsg::parse(raw::line(&text)) {
        Ok(p) => {
            nd::check(nd::same(p.cmd.as_ref(), &up), "command differs");
            check_tags(&p.tags, &tags);
            check_args(&p.args, &words, &last);
        }
        Err(_) => nd::fail("a well-formed message was refused"),
    }
    nd::cover(1);
}

fn wf_args(a: &Args<'_>) {
    for w in a.words() {
        nd::check(spec::member(Ty::Arg, w.as_ref()), "parsed argument is not an argument");
    }
    if let (_, Some(l)) = a.split_last() {
        nd::check(spec::member(Ty::Line, l.as_ref()), "parsed last argument is not a line");
        nd::check(a.is_last_long() == !spec::member(Ty::Arg, l.as_ref()), "long flag is wrong");
    }
}

/// Arbitrary text: params: prefix template, bytes
fn any_text() -> Vec<u8> {
    let mut t = Vec::new();
    let n = nd::param(1);
    let mid = nd::bytes(n);
    nd::assume(nd::all(&mid, spec::line));
    match nd::param(0) {
        0 => t = mid,
        1 => {
            t.push(b'@');
            t.extend_from_slice(&mid);
            t.extend_from_slice(b" A");
        }
        2 => {
            t.push(b':');
            t.extend_from_slice(&mid);
            t.extend_from_slice(b" A");
        }
        3 => {
            t.extend_from_slice(b"A ");
            t.extend_from_slice(&mid);
        }
        _ => {
            t.extend_from_slice(b"@a=b;");
            t.extend_from_slice(&mid);
            t.extend_from_slice(b";a=c A");
        }
    }
    t
}

pub fn h_parse_client() {
    let t = any_text();
    match ClientMsg::parse(raw::line(&t)) {
        Ok(m) => {
            nd::check(spec::member(Ty::Cmd, m.cmd.as_ref()), "parsed command is not a command");
            wf_args(&m.args);
            let mut out = Vec::new();
            nd::check(ClientCodec::write_to(&m, &mut out).is_ok(), "writing failed");
            nd::check(nd::all(&out, spec::line), "a written message contains a line terminator or NUL");
            match ClientMsg::parse(raw::line(&out)) {
                Ok(p) => nd::check(p == m, "writing and parsing a parsed message changes it"),
                Err(_) => nd::fail("a parsed message does not survive writing"),
            }
            nd::cover(1);
        }
        Err(_) => nd::cover(2),
    }
}
pub fn h_parse_server() {
    let t = any_text();
    match ServerMsg::parse(raw::line(&t)) {
        Ok(m) => {
            match &m.kind {
                ServerMsgKindRaw::Numeric(n) => nd::check(nd::all(n.as_bytes(), |b| b.is_ascii_digit()), "parsed numeric is not a numeric"),
                ServerMsgKindRaw::Cmd(c) => nd::check(spec::member(Ty::Cmd, c.as_ref()), "parsed command is not a command"),
            }
            if let Some(s) = &m.source {
                nd::check(spec::member(Ty::Nick, s.nick.as_ref()), "parsed nickname is not a nickname");
                if let Some(u) = s.user() {
                    nd::check(spec::member(Ty::User, u.as_ref()), "parsed username is not a username");
                }
                if let Some(h) = s.host() {
                    nd::check(spec::member(Ty::Word, h.as_ref()), "parsed hostname is not a word");
                }
            }
            wf_args(&m.args);
            let mut out = Vec::new();
            nd::check(ServerCodec::write_to(&m, &mut out).is_ok(), "writing failed");
            nd::check(nd::all(&out, spec::line), "a written message contains a line terminator or NUL");
            match ServerMsg::parse(raw::line(&out)) {
                Ok(p) => nd::check(p == m, "writing and parsing a parsed message changes it"),
                Err(_) => nd::fail("a parsed message does not survive writing"),
            }
            nd::cover(1);
        }
        Err(_) => nd::cover(2),
    }
}

/// Tag map against an association-list model; params: operations, value length
pub fn h_tags_model() {
    let mut t = Tags::new();
    let mut model: Pairs = Vec::new();
    // keys are single bytes, any of them
    let ops = nd::param(0);
    let mut i = 0;
    while i < ops {
        let mut g = t.edit();
        while i < ops {
            i += 1;
            match nd::choose(5) {
                0 => {
                    let (k, v) = (spec::any_member(Ty::Key, 1, 1), spec::any_member(Ty::NoNul, 0, nd::param(1)));
                    let old = lookup(&model, &k).map(|v| v.to_vec());
                    let r = if v.is_empty() && nd::flip() {
                        g.insert_key(raw::key(&k).owning())
                    } else {
                        g.insert_pair(raw::key(&k).owning(), raw::nonul(&v).owning())
                    };
                    nd::check(opt_same(r.as_ref(), &old), "insertion returned another old value");
                    model.push((k, v));
                }
                1 => {
                    let k = spec::any_member(Ty::Key, 1, 1);
                    let old = lookup(&model, &k).map(|v| v.to_vec());
                    let r = g.remove(raw::key(&k).owning());
                    nd::check(opt_same(r.as_ref(), &old), "removal returned another value");
                    let mut m2 = Vec::new();
                    for p in model.drain(..) {
                        if !nd::same(&p.0, &k) {
                            m2.push(p);
                        }
                    }
                    model = m2;
                }
                2 => {
                    let k = spec::any_member(Ty::Key, 1, 1);
                    let want = lookup(&model, &k).map(|v| v.to_vec());
                    nd::check(opt_same(g.get(raw::key(&k).owning()), &want), "lookup in the guard differs");
                    nd::check(g.len() == distinct(&model), "length of the guard differs");
                    nd::check(g.is_empty() == model.is_empty(), "emptiness of the guard differs");
                    if let Some(v) = g.get_mut(raw::key(&k).owning()) {
                        *v = raw::nonul(b"M").owning();
                        model.push((k, b"M".to_vec()));
                    }
                }
                3 => break,
                _ => {
                    g.clear();
                    model.clear();
                }
            }
        }
        drop(g);
        nd::check(t.is_empty() == model.is_empty(), "emptiness of the map differs");
        check_tags(&t, &model);
    }
    check_tags(&t, &model);
    // the written form has every key once, in an order that does not depend on the history
    let mut out = Vec::new();
    nd::check(t.write_to(&mut out).is_ok(), "writing failed");
    let body: &[u8] = if out.is_empty() { &out } else { &out[1..] };
    let p = Tags::parse(raw::word(body));
    nd::check(p == t, "parsing written tags gives other tags");
    let k = spec::any_member(Ty::Key, 1, 1);
    let want = lookup(&model, &k).map(|v| v.to_vec());
    nd::check(opt_same(t.get(raw::key(&k).owning()), &want), "lookup differs");
    nd::cover(1);
}

/// One editing session of insertions only: a lookup, length and old value at any point; params: insertions, value length
pub fn h_tags_session() {
    let mut t = Tags::new();
    let mut model: Pairs = Vec::new();
    let mut g = t.edit();
    for _ in 0..nd::param(0) {
        let (k, v) = (spec::any_member(Ty::Key, 1, 1), spec::any_member(Ty::NoNul, nd::param(1), nd::param(1)));
        let old = lookup(&model, &k).map(|v| v.to_vec());
        let r = g.insert_pair(raw::key(&k).owning(), raw::nonul(&v).owning());
        nd::check(opt_same(r.as_ref(), &old), "insertion returned another old value");
        model.push((k, v));
    }
    nd::check(g.len() == distinct(&model), "length of the guard differs");
    if nd::flip() {
        let k = spec::any_member(Ty::Key, 1, 1);
        let old = lookup(&model, &k).map(|v| v.to_vec());
        nd::check(opt_same(g.get(raw::key(&k).owning()), &old), "lookup in the guard differs");
        if nd::flip() {
            let r = g.remove(raw::key(&k).owning());
            nd::check(opt_same(r.as_ref(), &old), "removal returned another value");
            let mut m2 = Vec::new();
            for p in model.drain(..) {
                if !nd::same(&p.0, &k) {
                    m2.push(p);
                }
            }
            model = m2;
        }
    }
    drop(g);
    check_tags(&t, &model);
    nd::cover(1);
}

/// Many tags, some of them given twice, in any of several orders; params: tags
pub fn h_tags_many() {
    let n = nd::param(0);
    let (i, j) = (nd::choose(n), nd::choose(n));
    let order = nd::choose(3);
    let x = spec::any_member(Ty::NoNul, 1, 1);
    let mut tags: Pairs = (0..n)
        .map(|p| {
            let k = match order {
                0 => p,
                1 => n - 1 - p,
                _ => (p * 7 + 3) % n,
            };
            (vec![b'a' + (k / 16) as u8, b'a' + (k % 16) as u8], vec![b'A' + p as u8])
        })
        .collect();
    tags[i].0 = tags[j].0.clone();
    tags[i].1 = x;
    let t: Tags = match nd::choose(3) {
        0 => tags.iter().map(|(k, v)| (raw::key(k), raw::nonul(v))).collect(),
        1 => {
            let mut t = Tags::new();
            let mut g = t.edit();
            for (k, v) in tags.iter() {
                g.insert_pair(raw::key(k).owning(), raw::nonul(v).owning());
            }
            drop(g);
            t
        }
        _ => {
            let mut text = Vec::new();
            ref_tags(&mut text, &tags);
            Tags::parse(raw::word(&text[1..text.len() - 1])).owning()
        }
    };
    check_tags(&t, &tags);
    nd::cover(1);
}

/// Building from a sequence of pairs and from text: the last occurrence of a key wins.
pub fn h_tags_dup() {
    let n = nd::param(0);
    let tags = gen_tags(n, 1, nd::param(1));
    let t: Tags = tags.iter().map(|(k, v)| (raw::key(k), raw::nonul(v))).collect();
    check_tags(&t, &tags);
    let mut text = Vec::new();
    ref_tags(&mut text, &tags);
    if text.is_empty() {
        return;
    }
    let t2 = Tags::parse(raw::word(&text[1..text.len() - 1]));
    check_tags(&t2, &tags);
    nd::check(t2 == t, "the same tags compare different");
    let o = t2.clone().owning();
    check_tags(&o, &tags);
    nd::cover(1);
}

/// Argument lists against a list model; params: operations, length
pub fn h_args_model() {
    let n = nd::param(1);
    let mut a = Args::empty();
    let mut words: Vec<Vec<u8>> = Vec::new();
    let mut last: Option<Vec<u8>> = None; // only when long
    for _ in 0..nd::param(0) {
        match nd::choose(9) {
            0 => {
                let w = spec::any_member(Ty::Arg, 1, n);
                a.edit().add_word(raw::arg(&w).owning());
                words.push(w);
            }
            1 => {
                let w = spec::any_member(Ty::Arg, 1, n);
                a.edit().add_before_last(raw::arg(&w).owning());
                if last.is_some() || words.is_empty() {
                    words.push(w);
                } else {
                    let i = words.len() - 1;
                    words.insert(i, w);
                }
            }
            2 => {
                let l = spec::any_member(Ty::Line, 0, n);
                let long = !spec::member(Ty::Arg, &l);
                let r = a.edit().add(raw::line(&l).owning());
                nd::check(opt_same(r.as_ref(), &last), "adding returned another replaced argument");
                if long {
                    last = Some(l);
                } else {
                    last = None;
                    words.push(l);
                }
            }
            3 => {
                if nd::flip() {
                    a.edit().clear()
                } else {
                    a.clear()
                }
                words.clear();
                last = None;
            }
            4 => {
                let mut g = a.edit();
                let cnt = words.len() + last.is_some() as usize;
                nd::check(g.args_left() == 15 - cnt as isize, "arguments left differs");
                nd::check(g.all().is_some() == last.is_none(), "all() of the guard differs");
                nd::check(g.words().len() == words.len(), "words of the guard differ");
                let (rest, l) = g.split_last();
                let r = rest.len();
                nd::check(l.is_some() == (cnt > 0), "last of the guard differs");
                nd::check(r == cnt - (cnt > 0) as usize, "rest of the guard differs");
            }
            5 => {
                let mut g = a.edit();
                if !words.is_empty() {
                    let i = nd::choose(words.len());
                    let w = spec::any_member(Ty::Arg, 1, n);
                    g.words()[i] = raw::arg(&w).owning();
                    words[i] = w;
                }
            }
            6 => {
                let k = nd::choose(3);
                let nw = gen_words(k, n);
                let l = gen_last(n);
                a.set(nw.iter().map(|w| raw::arg(w).owning()), l.as_ref().map(|l| raw::line(l).owning()));
                words = nw;
                last = None;
                if let Some(l) = l {
                    if spec::member(Ty::Arg, &l) {
                        words.push(l);
                    } else {
                        last = Some(l);
                    }
                }
            }
            7 => a = a.clone().owning(),
            _ => {
                let before = a.clone();
                let t = a.to_string();
                // Display is only byte-exact for UTF-8 content
                let mut ascii = true;
                for w in words.iter().chain(last.iter()) {
                    ascii &= nd::all(w, |b| b < 0x80);
                }
                if ascii {
                    let p = Args::parse(Line::from_bytes(t.into_bytes()).unwrap());
                    nd::check(p == before, "displayed arguments parse to other arguments");
                }
            }
        }
        let mut exp = words.clone();
        let l = last.clone();
        if l.is_none() {
            check_args(&a, &exp, &None);
        } else {
            check_args(&a, &exp, &l);
        }
        let mut bytes = 0;
        if let Some(l) = l {
            exp.push(l);
        }
        for w in &exp {
            bytes += w.len() + 1;
        }
        nd::check(a.len_bytes() == bytes, "length in bytes differs");
    }
    nd::cover(1);
}

/// Sources: parse, write, lengths, owning_merged; params: length
pub fn h_source() {
    let s = gen_source(nd::param(0));
    let src = build_source(&s);
    let mut exp = Vec::new();
    ref_source(&mut exp, &s);
    let mut out = Vec::new();
    nd::check(src.write_to(&mut out).is_ok() && nd::same(&out, &exp), "written source differs");
    nd::check(src.len() == exp.len() && src.len_nonzero().get() == exp.len(), "length of the source differs");
    match Source::parse(raw::word(&exp)) {
        Ok(p) => {
            check_source(&p, &s);
            nd::check(p == src, "parsed source is not equal to the written one");
        }
        Err(_) => nd::fail("a written source cannot be parsed"),
    }
    let o = match nd::choose(4) {
        0 => src.clone().owning(),
        1 => src.clone().owning_merged(),
        2 => SharedSource::new(src.clone()).owning_merged(),
        _ => {
            let a = SharedSource::new(src.clone());
            let b = a.clone();
            let o = a.owning_merged();
            check_source(&b, &s);
            o
        }
    };
    check_source(&o, &s);
    if let Some(uh) = &src.userhost {
        let mut out = Vec::new();
        nd::check(uh.write_to(&mut out).is_ok(), "writing failed");
        let skip = s.nick.len() + 1;
        nd::check(nd::same(&out, &exp[skip..]), "written userhost differs");
        nd::check(uh.len() == out.len(), "length of the userhost differs");
        let tilde = match &s.user {
            Some(u) => u[0] == b'~',
            None => false,
        };
        nd::check(uh.has_ident() == !tilde, "ident flag differs");
        if s.user.is_some() {
            match UserHost::parse(raw::word(&out)) {
                Ok(p) => nd::check(p == *uh, "parsed userhost differs"),
                Err(_) => nd::fail("a written userhost cannot be parsed"),
            }
        }
        nd::cover(2);
    }
    nd::cover(1);
}
/// Arbitrary words: parsing a source never panics, and what it yields can be written and parsed again.
pub fn h_source_parse() {
    let v = spec::any_member(Ty::Word, 0, nd::param(0));
    if let Ok(p) = Source::parse(raw::word(&v)) {
        nd::check(spec::member(Ty::Nick, p.nick.as_ref()), "parsed nickname is not a nickname");
        nd::check(v.len() >= p.nick.len() && nd::same(&v[..p.nick.len()], p.nick.as_ref()), "parsed nickname is not a prefix");
        let mut out = Vec::new();
        nd::check(p.write_to(&mut out).is_ok(), "writing failed");
        if p.userhost.is_some() {
            nd::check(nd::same(&out, &v), "parsed source is not the text it was parsed from");
        }
        match Source::parse(raw::word(&out)) {
            Ok(q) => nd::check(q == p, "writing and parsing changes a source"),
            Err(_) => nd::fail("a parsed source does not survive writing"),
        }
        nd::cover(1);
    }
}

/// Long sources. params: maximum length of a part
pub fn h_source_long() {
    let max = nd::param(0);
    let k = 1 + nd::choose(max);
    let which = nd::choose(3);
    let part = |i: usize| -> Vec<u8> {
        let mut p = vec![b'a' + i as u8; if i == which { k } else { 2 }];
        let n = p.len();
        p[n - 1] = nd::u8_();
        nd::assume((p[n - 1] >= b'0') & (p[n - 1] <= b'9'));
        p
    };
    let nick = part(0);
    let (user, host) = match nd::choose(3) {
        0 => (None, None),
        1 => (None, Some(part(2))),
        _ => (Some(part(1)), Some(part(2))),
    };
    let s = Src { nick, user, host };
    let src = build_source(&s);
    let mut exp = Vec::new();
    ref_source(&mut exp, &s);
    let mut out = Vec::new();
    nd::check(src.write_to(&mut out).is_ok() && nd::same(&out, &exp), "written source differs");
    nd::check(src.len() == exp.len(), "length of the source differs");
    match Source::parse(raw::word(&exp)) {
        Ok(p) => check_source(&p, &s),
        Err(_) => nd::fail("a written source cannot be parsed"),
    }
    let o = if nd::flip() { src.owning_merged() } else { SharedSource::new(src).owning_merged() };
    check_source(&o, &s);
    nd::cover(1);
}

/// Length accounting and Display; params: source length, words, length
pub fn h_lengths() {
    let src = if nd::param(0) > 0 && nd::flip() { Some(gen_source(nd::param(0))) } else { None };
    let nw = nd::choose(nd::param(1) + 1);
    let words = gen_words(nw, nd::param(2));
    let last = gen_last(nd::param(2));
    let cmd = spec::any_member(Ty::Cmd, 1, 3);
    let mut sm = ServerMsg::new_cmd(raw::cmd(&cmd));
    sm.source = src.as_ref().map(|s| SharedSource::new(build_source(s)));
    build_args(&mut sm.args, &words, &last);
    let mut out = Vec::new();
    let _ = ServerCodec::write_to(&sm, &mut out);
    let mut colon = 0;
    if !sm.args.is_empty() && !sm.args.is_last_long() {
        colon = 1; // the last argument always counts as having a colon
    }
    nd::check(sm.bytes_left() == 510 - (out.len() + colon) as isize, "bytes left of a server message");
    nd::check(sm.kind.len() == cmd.len(), "length of the kind");
    let mut cm = ClientMsg::new_cmd(raw::cmd(&cmd));
    cm.args = sm.args.clone();
    nd::check(cm.bytes_left(sm.source.as_deref()) == sm.bytes_left(), "bytes left with a source");
    let mut out2 = Vec::new();
    let _ = ClientCodec::write_to(&cm, &mut out2);
    nd::check(cm.bytes_left(None) == 510 - (out2.len() + colon) as isize, "bytes left of a client message");
    nd::cover(1);
}
/// Display of a message is its written form; params: tags, source length, words, length
pub fn h_display() {
    let n = nd::param(3);
    let tags = gen_tags(nd::param(0), n, n);
    let src = if nd::param(1) > 0 && nd::flip() { Some(gen_source(nd::param(1))) } else { None };
    let nw = nd::choose(nd::param(2) + 1);
    let words = gen_words(nw, n);
    let last = gen_last(n);
    let cmd = spec::any_member(Ty::Cmd, 1, 1);
    let mut sm = ServerMsg::new_cmd(raw::cmd(&cmd));
    sm.tags = build_tags(&tags);
    sm.source = src.as_ref().map(|s| SharedSource::new(build_source(s)));
    sm.args = Args::new(words.iter().map(|w| raw::arg(w)).collect::<Vec<_>>(), last.as_ref().map(|l| raw::line(l)));
    let mut cm = ClientMsg::new_cmd(raw::cmd(&cmd));
    cm.tags = sm.tags.clone();
    cm.args = sm.args.clone();
    let (mut so, mut co) = (Vec::new(), Vec::new());
    let _ = ServerCodec::write_to(&sm, &mut so);
    let _ = ClientCodec::write_to(&cm, &mut co);
    nd::assume(nd::all(&so, |b| b < 0x80));
    let (a, b) = (sm.to_string(), cm.to_string());
    nd::check(nd::same(a.as_bytes(), &so), "displayed server message differs from the written one");
    nd::check(nd::same(b.as_bytes(), &co), "displayed client message differs from the written one");
    nd::cover(1);
}

/// Numerics
pub fn h_numeric() {
    match nd::choose(3) {
        0 => {
            let i = nd::u16_();
            match Numeric::from_int(i) {
                Some(n) => {
                    nd::check(i < 1000, "numeric from a large integer");
                    nd::check(n.into_int() == i && u16::from(n) == i, "numeric does not convert back");
                    nd::check(nd::all(n.as_bytes(), |b| b.is_ascii_digit()), "numeric is not digits");
                    nd::check(Numeric::from_bytes(n.as_bytes()) == Some(n), "numeric does not parse back");
                    nd::check(nd::same(n.as_str().as_bytes(), n.as_bytes()), "numeric text differs");
                    let e = n.is_error();
                    if i < 400 {
                        nd::check(e == Some(false), "numeric below 400 is not a non-error");
                    } else if i < 569 {
                        nd::check(e == Some(true), "numeric in 400..569 is not an error");
                    }
                    nd::check(ServerMsgKindRaw::Numeric(n).is_error() == e, "kind disagrees on errors");
                    nd::cover(1);
                }
                None => nd::check(i >= 1000, "numeric refused"),
            }
            nd::check(Numeric::try_from(i).is_ok() == (i < 1000), "try_from differs");
        }
        1 => {
            let v = nd::upto(4);
            let ok = v.len() == 3 && nd::all(&v, |b| b.is_ascii_digit());
            match Numeric::from_bytes(&v) {
                Some(n) => {
                    nd::check(ok && nd::same(n.as_bytes(), &v), "numeric accepted from other text");
                    let i = n.into_int();
                    nd::check(Numeric::from_int(i) == Some(n), "numeric does not convert back");
                    let mut out = Vec::new();
                    let _ = n.write_to(&mut out);
                    nd::check(nd::same(&out, &v), "written numeric differs");
                    nd::cover(2);
                }
                None => nd::check(!ok, "numeric refused"),
            }
        }
        _ => {
            let (a, b) = (nd::u16_(), nd::u16_());
            nd::assume(a < 1000 && b < 1000);
            let (x, y) = (Numeric::from_int(a).unwrap(), Numeric::from_int(b).unwrap());
            nd::check((x == y) == (a == b), "numeric equality differs from integer equality");
            nd::check(x.cmp(&y) == a.cmp(&b), "numeric order differs from integer order");
            nd::cover(3);
        }
    }
}

/// A hasher that records what it is fed.
#[derive(Default)]
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn rec<T: std::hash::Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}
/// Kinds and strings agree with their borrowed bytes on equality, order and hash.
pub fn h_borrow_laws() {
    use std::borrow::Borrow;
    let n = nd::param(0);
    let gen = || -> (bool, Vec<u8>) {
        let num = nd::flip();
        let v = if num {
            let v = nd::bytes(3);
            nd::assume(nd::all(&v, |b| b.is_ascii_digit()));
            v
        } else {
            spec::any_member(Ty::Cmd, 1, n)
        };
        (num, v)
    };
    let mk = |g: &(bool, Vec<u8>)| -> ServerMsgKindRaw<'static> {
        if g.0 {
            Numeric::from_bytes(&g.1).unwrap().into()
        } else {
            raw::cmd(&g.1).owning().into()
        }
    };
    let (a, b) = (gen(), gen());
    let (x, y) = (mk(&a), mk(&b));
    let bx: &[u8] = x.borrow();
    let by: &[u8] = y.borrow();
    nd::check(nd::same(bx, &a.1), "borrowed kind differs");
    nd::check((x == y) == nd::same(bx, by), "kinds and their bytes disagree on equality");
    nd::check(x.cmp(&y) == bx.cmp(by), "kinds and their bytes disagree on order");
    nd::check(rec(&x) == rec(bx), "kinds and their bytes disagree on the hash");
    nd::check(x == *by || !nd::same(&a.1, &b.1), "kind differs from equal bytes");
    nd::check((x == *y.as_str()) == nd::same(bx, by), "kind compares wrongly to a str");
    nd::check((x == y.as_str()) == nd::same(bx, by) && (x == *by) == nd::same(bx, by) && (x == by) == nd::same(bx, by), "kind compares wrongly to a slice");
    match &y {
        ServerMsgKindRaw::Numeric(n) => nd::check((x == *n) == (a.0 && nd::same(bx, by)), "kind compares wrongly to a numeric"),
        ServerMsgKindRaw::Cmd(c) => nd::check((x == *c) == (!a.0 && nd::same(bx, by)), "kind compares wrongly to a command"),
    }
    nd::check(x.len() == a.1.len() && nd::same(x.as_arg().as_ref(), &a.1), "kind has another text");
    if !a.0 {
        let e = nd::same(&a.1, b"FAIL") || nd::same(&a.1, b"ERROR");
        nd::check(x.is_error() == Some(e), "command is taken for an error, or the reverse");
    }
    let o = x.clone().owning();
    nd::check(o == x && rec(&o) == rec(&x), "an owning kind differs");
    nd::cover(1);
}

/// CTCP; params: command length, body length
pub fn h_ctcp() {
    if nd::flip() {
        let cmd = spec::any_member(Ty::Word, 0, nd::param(0));
        let body = spec::any_member(Ty::Line, 0, nd::param(1));
        nd::assume(nd::all(&cmd, |b| (b != 1) & !b.is_ascii_lowercase()));
        if cmd.is_empty() {
            nd::assume(body.is_empty() || body[0] != 1);
        } else {
            nd::assume(nd::all(&body, |b| b != 1));
        }
        let m = MaybeCtcp { cmd: raw::word(&cmd), body: raw::line(&body) };
        nd::check(m.is_ctcp() == !cmd.is_empty(), "CTCP flag");
        nd::check(m.is_empty() == (cmd.is_empty() && body.is_empty()), "CTCP emptiness");
        let len = m.len();
        let l = m.clone().into_line();
        nd::check(l.len() == len, "length of a CTCP line");
        nd::check(spec::member(Ty::Line, l.as_ref()), "a CTCP line is not a line");
        if !cmd.is_empty() {
            let mut exp = vec![1u8];
            exp.extend_from_slice(&cmd);
            exp.push(b' ');
            exp.extend_from_slice(&body);
            exp.push(1);
            nd::check(nd::same(l.as_ref(), &exp), "written CTCP differs");
        }
        let p = MaybeCtcp::parse(l);
        nd::check(nd::same(p.cmd.as_ref(), &cmd), "CTCP command differs");
        nd::check(nd::same(p.body.as_ref(), &body), "CTCP body differs");
        nd::cover(1);
    } else {
        // arbitrary lines
        let v = spec::any_member(Ty::Line, 0, nd::param(0) + nd::param(1));
        let p = MaybeCtcp::parse(raw::line(&v));
        nd::check(spec::member(Ty::Word, p.cmd.as_ref()), "CTCP command is not a word");
        if v.is_empty() || v[0] != 1 {
            nd::check(!p.is_ctcp() && nd::same(p.body.as_ref(), &v), "a plain message was changed");
        } else {
            nd::check(nd::all(p.cmd.as_ref(), |b| (b != 1) & !b.is_ascii_lowercase()), "CTCP command is not normalized");
            nd::check(nd::all(p.body.as_ref(), |b| b != 1), "CTCP body contains a delimiter");
            // command and body are where they were
            let c = p.cmd.len();
            nd::check(v.len() > c && nd::same(&v[1..1 + c].to_ascii_uppercase(), p.cmd.as_ref()), "CTCP command is not a prefix");
            let end = v[1..].iter().position(|b| *b == 1).map(|i| i + 1).unwrap_or(v.len());
            let start = (c + 2).min(end);
            nd::check(nd::same(&v[start..end], p.body.as_ref()), "CTCP body is not the rest");
        }
        nd::cover(2);
    }
}

/// Words that look like tags, a source or a command, in any order.
pub fn h_parse_order() {
    let n = nd::choose(nd::param(0) + 1);
    let mut kinds = vec![];
    let mut text = vec![];
    let c = nd::u8_();
    nd::assume((c >= b'A') & (c <= b'Z'));
    for i in 0..n {
        let k = nd::choose(3);
        if i > 0 {
            spaces(&mut text, 2);
        }
        text.extend_from_slice([b"@t" as &[u8], b":s", b""][k]);
        text.push(c);
        kinds.push(k);
    }
    let mut i = 0;
    let tags = i < n && kinds[i] == 0;
    i += tags as usize;
    let source = i < n && kinds[i] == 1;
    i += source as usize;
    let good = i < n && kinds[i] == 2;
    i += 1;
    // the arguments end with the one that has a colon
    let mut args = 0;
    let mut long = false;
    while i < n && !long {
        args += 1;
        long = kinds[i] == 1;
        i += 1;
    }
    let key = [b't', c];
    match ServerMsg::parse(text.clone()) {
        Ok(m) => {
            nd::check(good, "a message with tags or a source out of place was accepted");
            nd::check(m.tags.len() == tags as usize && (!tags || m.tags.get(Key::from_bytes(key.to_vec()).unwrap()).is_some()), "tags differ");
            nd::check(m.source.is_some() == source, "source differs");
            nd::check(nd::same(m.kind.as_arg().as_bytes(), &[c]), "command differs");
            nd::check(m.args.len() == args, "number of arguments differs");
        }
        Err(_) => nd::check(!good, "a message was refused"),
    }
    match ClientMsg::parse(text) {
        Ok(m) => {
            nd::check(good, "a message with tags or a source out of place was accepted");
            nd::check(m.tags.len() == tags as usize && (!tags || m.tags.get(Key::from_bytes(key.to_vec()).unwrap()).is_some()), "tags differ");
            nd::check(nd::same(m.cmd.as_bytes(), &[c]), "command differs");
            nd::check(m.args.len() == args, "number of arguments differs");
        }
        Err(_) => nd::check(!good, "a message was refused"),
    }
}
