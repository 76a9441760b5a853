//! Splitter, builder and transformation models.
use crate::nd;
use crate::spec::{self, Ty};
use vinezombie::error::InvalidString;
use vinezombie::string::*;

/// Every string handed out says it is UTF-8 exactly when it is.
pub fn utf8_sound(b: &Bytes<'_>) {
    if let Some(f) = b.is_utf8_lazy() {
        nd::check(f == spec::utf8(b.as_ref()), "cached UTF-8 validity is wrong");
    }
    match b.to_utf8() {
        Some(s) => nd::check(spec::utf8(b.as_ref()) && nd::same(s.as_bytes(), b.as_ref()), "a string that is not UTF-8 was returned as str"),
        None => nd::check(!spec::utf8(b.as_ref()), "a UTF-8 string was refused as str"),
    }
}

#[derive(Clone, Copy)]
struct Model {
    s: usize,
    e: usize,
}

struct Cfg {
    utf8: bool,
    secret: bool,
}

macro_rules! do_string {
    ($sp:expr, $v:expr, $m:expr, $cfg:expr, $t:expr, $U:ident, $how:expr) => {{
        let cur = &$v[$m.s..$m.e];
        let f = spec::byte_ok($t);
        let how = $how;
        let req = nd::flip();
        let mut n = 0;
        while n < cur.len() && f(cur[n]) {
            n += 1;
        }
        let part = &cur[..n];
        let mut ok = !(req && n < cur.len());
        if spec::is_arglike($t) && ok {
            if n == 0 || part[0] == b':' {
                ok = false;
            }
        }
        let r = if how == 0 { $sp.string::<$U>(req) } else { $sp.peek_string::<$U>(req) };
        match r {
            Ok(x) => {
                nd::check(ok, "splitter returned a string where none is valid");
                nd::check(nd::same(x.as_ref(), part), "splitter returned another string than the next one");
                nd::check(spec::member($t, x.as_ref()), "splitter built a string outside its type");
                nd::check(x.is_secret() == $cfg.secret, "splitter changed secrecy");
                if $cfg.utf8 {
                    utf8_sound(&x.into_bytes());
                }
                if how == 0 {
                    $m.s += n;
                }
            }
            Err(e) => {
                nd::check(!ok, "splitter refused a valid next string");
                let right = match e {
                    InvalidString::Byte(b) => req && n < cur.len() && b == cur[n],
                    InvalidString::Empty => spec::is_arglike($t) && n == 0,
                    InvalidString::Colon => spec::is_arglike($t) && n > 0 && part[0] == b':',
                };
                nd::check(right, "splitter gave a wrong reason for refusing a string");
            }
        }
    }};
}
macro_rules! do_default {
    ($sp:expr, $v:expr, $m:expr, $cfg:expr, $t:expr, $U:ident) => {{
        let cur = &$v[$m.s..$m.e];
        let f = spec::byte_ok($t);
        let req = nd::flip();
        let mut n = 0;
        while n < cur.len() && f(cur[n]) {
            n += 1;
        }
        if req && n < cur.len() {
            n = 0;
        }
        let x = $sp.string_or_default::<$U>(req);
        nd::check(nd::same(x.as_ref(), &cur[..n]), "splitter returned another string than the next one");
        if $cfg.utf8 {
            utf8_sound(&x.into_bytes());
        }
        $m.s += n;
    }};
}

fn step(sp: &mut Splitter<Line<'_>>, v: &[u8], m: &mut Model, cfg: &Cfg, depth: usize) {
    nd::check(sp.len() == m.e - m.s, "splitter length");
    nd::check(sp.is_empty() == (m.e == m.s), "splitter emptiness");
    match nd::choose(if depth > 0 { 19 } else { 18 }) {
        0 => {
            let r = sp.next_byte();
            if m.s < m.e {
                nd::check(r == Some(v[m.s]), "next byte");
                m.s += 1;
            } else {
                nd::check(r.is_none(), "byte past the end");
            }
        }
        1 => {
            let r = sp.rnext_byte();
            if m.s < m.e {
                nd::check(r == Some(v[m.e - 1]), "last byte");
                m.e -= 1;
            } else {
                nd::check(r.is_none(), "byte past the start");
            }
        }
        2 => {
            let (a, b) = (sp.peek_byte(), sp.rpeek_byte());
            if m.s < m.e {
                nd::check(a == Some(v[m.s]) && b == Some(v[m.e - 1]), "peeked byte");
            } else {
                nd::check(a.is_none() && b.is_none(), "peeked byte past the end");
            }
            nd::check(nd::same(sp.as_slice(), &v[m.s..m.e]), "splitter slice");
        }
        3 => {
            let k = nd::choose(v.len() + 2);
            sp.until_count(k);
            m.e = m.s + k.min(m.e - m.s);
        }
        4 => {
            let b = nd::u8_();
            sp.until_byte_eq(b);
            let mut i = m.s;
            while i < m.e && v[i] != b {
                i += 1;
            }
            m.e = i;
        }
        5 => {
            sp.until_byte(|x| *x >= 0x80);
            let mut i = m.s;
            while i < m.e && v[i] < 0x80 {
                i += 1;
            }
            m.e = i;
        }
        6 => {
            sp.consume_whitespace();
            while m.s < m.e && v[m.s].is_ascii_whitespace() {
                m.s += 1;
            }
        }
        7 => {
            sp.consume_invalid::<Key>();
            while m.s < m.e && !spec::key(v[m.s]) {
                m.s += 1;
            }
        }
        8 => {
            sp.consume_invalid::<Cmd>();
            while m.s < m.e && !spec::cmd(v[m.s]) {
                m.s += 1;
            }
        }
        9 => {
            let r = sp.check_encoding();
            nd::check(r.is_ok() == spec::utf8(&v[m.s..m.e]), "encoding check is wrong");
        }
        10 => do_string!(sp, v, m, cfg, Ty::Arg, Arg, nd::choose(2)),
        11 => do_string!(sp, v, m, cfg, Ty::Key, Key, nd::choose(2)),
        12 => do_string!(sp, v, m, cfg, Ty::Nick, Nick, nd::choose(2)),
        13 => do_string!(sp, v, m, cfg, Ty::Cmd, Cmd, nd::choose(2)),
        14 => do_string!(sp, v, m, cfg, Ty::User, User, nd::choose(2)),
        15 => do_default!(sp, v, m, cfg, Ty::Word, Word),
        16 => {
            let x = if nd::flip() {
                match sp.rest::<NoNul>() {
                    Ok(x) => x,
                    Err(_) => nd::fail("rest refused"),
                }
            } else {
                sp.rest_or_default::<NoNul>()
            };
            nd::check(nd::same(x.as_ref(), &v[m.s..m.e]), "rest is not the rest");
            nd::check(x.is_secret() == cfg.secret || x.is_empty(), "splitter changed secrecy");
            if cfg.utf8 {
                utf8_sound(&x.into_bytes());
            }
            m.s = m.e;
        }
        17 => {
            if sp.is_utf8_lazy() && cfg.utf8 {
                nd::check(spec::utf8(&v[m.s..m.e]), "splitter claims UTF-8 for bytes that are not");
            }
        }
        _ => {
            let (a, b) = (nd::flip(), nd::flip());
            let save = *m;
            {
                let mut g = sp.save(a, b);
                step(&mut g, v, m, cfg, depth - 1);
                if depth > 1 {
                    step(&mut g, v, m, cfg, depth - 1);
                }
            }
            if a {
                m.s = save.s;
            }
            if b {
                m.e = save.e;
            }
            if m.s > m.e {
                // the documentation leaves crossed indices undefined; not reachable with these operations
                nd::assume(false);
            }
        }
    }
}

/// Arbitrary operation sequences on a splitter against an index model (ASCII content).
pub fn h_split_model() {
    let v = spec::any_member(Ty::Line, 0, nd::param(0));
    let secret = nd::flip();
    let mut l = spec::raw::line(&v);
    if secret {
        l = l.secret();
    }
    if nd::flip() {
        l = l.owning();
    }
    let mut sp = Splitter::new(l);
    let mut m = Model { s: 0, e: v.len() };
    let cfg = Cfg { utf8: false, secret };
    for _ in 0..nd::param(1) {
        step(&mut sp, &v, &mut m, &cfg, 1);
    }
    nd::check(nd::same(sp.as_slice(), &v[m.s..m.e]), "splitter slice");
    nd::cover(1);
}

/// UTF-8 bookkeeping of splitters: strings handed out are marked UTF-8 only if they are.
pub fn h_split_utf8() {
    let n = nd::param(0);
    let v = nd::bytes(n);
    nd::assume(nd::all(&v, spec::line));
    let l = spec::raw::line(&v);
    // the string may or may not know its validity beforehand
    if nd::flip() {
        let _ = l.to_utf8();
    }
    let mut sp = Splitter::new(l);
    let mut m = Model { s: 0, e: v.len() };
    let cfg = Cfg { utf8: true, secret: false };
    for _ in 0..nd::param(1) {
        ustep(&mut sp, &v, &mut m, &cfg, 1);
    }
    if sp.is_utf8_lazy() {
        nd::check(spec::utf8(&v[m.s..m.e]), "splitter claims UTF-8 for bytes that are not");
    }
    let x = sp.rest_or_default::<Line>();
    nd::check(nd::same(x.as_ref(), &v[m.s..m.e]), "rest is not the rest");
    utf8_sound(&x.into_bytes());
    nd::cover(1);
}

/// The same with one guard and more operations inside of it.
pub fn h_split_utf8_guard() {
    let n = nd::param(0);
    let v = nd::bytes(n);
    nd::assume(nd::all(&v, spec::line));
    let l = spec::raw::line(&v);
    if nd::flip() {
        let _ = l.to_utf8();
    }
    let mut sp = Splitter::new(l);
    let mut m = Model { s: 0, e: v.len() };
    let cfg = Cfg { utf8: true, secret: false };
    let (a, b) = (nd::flip(), nd::flip());
    {
        let mut g = sp.save(a, b);
        for _ in 0..nd::param(1) {
            ustep(&mut g, &v, &mut m, &cfg, 0);
        }
    }
    if a {
        m.s = 0;
    }
    if b {
        m.e = v.len();
    }
    if sp.is_utf8_lazy() {
        nd::check(spec::utf8(&v[m.s..m.e]), "splitter claims UTF-8 for bytes that are not");
    }
    let x = sp.rest_or_default::<Line>();
    nd::check(nd::same(x.as_ref(), &v[m.s..m.e]), "rest is not the rest");
    utf8_sound(&x.into_bytes());
    nd::cover(1);
}

/// The operations that matter for encodings, fewer so that sequences can be longer.
fn ustep(sp: &mut Splitter<Line<'_>>, v: &[u8], m: &mut Model, cfg: &Cfg, depth: usize) {
    match nd::choose(if depth > 0 { 8 } else { 7 }) {
        0 => {
            if sp.next_byte().is_some() {
                m.s += 1;
            }
        }
        1 => {
            if sp.rnext_byte().is_some() {
                m.e -= 1;
            }
        }
        2 => {
            let k = nd::choose(v.len() + 1);
            sp.until_count(k);
            m.e = m.s + k.min(m.e - m.s);
        }
        3 => {
            let b = nd::u8_();
            sp.until_byte_eq(b);
            let mut i = m.s;
            while i < m.e && v[i] != b {
                i += 1;
            }
            m.e = i;
        }
        4 => {
            let r = sp.check_encoding();
            nd::check(r.is_ok() == spec::utf8(&v[m.s..m.e]), "encoding check is wrong");
        }
        5 => {
            let x = sp.string_or_default::<Word>(false);
            m.s += x.len();
            utf8_sound(&x.into_bytes());
        }
        6 => {
            let c = nd::u8_();
            sp.until_byte(|x| *x == c);
            let mut i = m.s;
            while i < m.e && v[i] != c {
                i += 1;
            }
            m.e = i;
        }
        _ => {
            let (a, b) = (nd::flip(), nd::flip());
            let save = *m;
            {
                let mut g = sp.save(a, b);
                ustep(&mut g, v, m, cfg, depth - 1);
                ustep(&mut g, v, m, cfg, depth - 1);
            }
            if a {
                m.s = save.s;
            }
            if b {
                m.e = save.e;
            }
        }
    }
}

fn any_char() -> char {
    let c = nd::u32_();
    match char::from_u32(c) {
        Some(c) => c,
        None => {
            nd::assume(false);
            'a'
        }
    }
}

macro_rules! builder_model {
    ($T:ident, $t:expr, $raw:ident, $n:expr, $k:expr, $m:expr, $utf8:expr) => {{
        let init = spec::any_member($t, spec::is_arglike($t) as usize, $n);
        let f = spec::byte_ok($t);
        let i = spec::raw::$raw(&init);
        if $utf8 && nd::flip() {
            let _ = i.to_utf8();
        }
        let mut b = Builder::<$T>::new(i);
        let mut model = init.clone();
        for _ in 0..$k {
            match nd::choose(7) {
                0 => {
                    let x = nd::u8_();
                    let r = b.try_push(x);
                    nd::check(r.is_ok() == f(x), "builder accepts exactly the valid bytes");
                    if f(x) {
                        model.push(x);
                    }
                }
                1 => {
                    let x = nd::upto($m);
                    let ok = nd::all(&x, f);
                    let r = b.try_append(&x);
                    nd::check(r.is_ok() == ok, "builder accepts exactly the valid strings");
                    if ok {
                        model.extend_from_slice(&x);
                    }
                }
                2 => {
                    let x = nd::upto($m);
                    if let Ok(s) = std::str::from_utf8(&x) {
                        let ok = nd::all(&x, f);
                        let r = b.try_append_str(s);
                        nd::check(r.is_ok() == ok, "builder accepts exactly the valid strings");
                        if ok {
                            model.extend_from_slice(&x);
                        }
                    }
                }
                3 => {
                    let c = any_char();
                    let mut buf = [0u8; 4];
                    let enc = c.encode_utf8(&mut buf).as_bytes();
                    let ok = nd::all(enc, f);
                    let r = b.try_push_char(c);
                    nd::check(r.is_ok() == ok, "builder accepts exactly the valid characters");
                    if ok {
                        model.extend_from_slice(enc);
                    }
                }
                4 => {
                    let x = spec::any_member($t, spec::is_arglike($t) as usize, $m);
                    let s = spec::raw::$raw(&x);
                    if $utf8 && nd::flip() {
                        let _ = s.to_utf8();
                    }
                    b.append(s);
                    model.extend_from_slice(&x);
                }
                5 => {
                    if $utf8 {
                        let r = b.check_utf8();
                        nd::check(r.is_ok() == spec::utf8(&model), "builder's UTF-8 check is wrong");
                    }
                    b.reserve(nd::choose(3));
                }
                _ => {
                    nd::check(nd::same(b.as_ref(), &model), "builder content");
                    b.shrink_to_fit();
                }
            }
        }
        let s = b.build();
        nd::check(nd::same(s.as_ref(), &model), "built string differs from what was appended");
        nd::check(spec::member($t, s.as_ref()), "built string is outside its type");
        if $utf8 {
            utf8_sound(&s.into_bytes());
        }
        nd::cover(1);
    }};
}

pub fn h_builder_model() {
    let (n, k, m) = (nd::param(0), nd::param(1), nd::param(2));
    match nd::choose(6) {
        0 => builder_model!(Line, Ty::Line, line, n, k, m, false),
        1 => builder_model!(Word, Ty::Word, word, n, k, m, false),
        2 => builder_model!(Arg, Ty::Arg, arg, n, k, m, false),
        3 => builder_model!(Nick, Ty::Nick, nick, n, k, m, false),
        4 => builder_model!(User, Ty::User, user, n, k, m, false),
        _ => builder_model!(Cmd, Ty::Cmd, cmd, n, k, m, false),
    }
}
pub fn h_builder_utf8() {
    let (n, k, m) = (nd::param(0), nd::param(1), nd::param(2));
    builder_model!(Line, Ty::Line, line, n, k, m, true)
}
