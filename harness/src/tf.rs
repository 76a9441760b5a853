use crate::nd;
use crate::spec::{self, Ty};
use crate::split::utf8_sound;
use vinezombie::string::tf::*;
use vinezombie::string::*;

/// Reference casemaps (RFC 1459 section 2.2, as documented).
fn lower(b: u8, m: usize) -> u8 {
    if (b >= b'A') & (b <= b'Z') {
        return b + 32;
    }
    if m >= 1 {
        match b {
            b'[' => return b'{',
            b'\\' => return b'|',
            b']' => return b'}',
            _ => (),
        }
    }
    if m == 2 && b == b'~' {
        return b'^';
    }
    b
}

/// A symbolic string in one of the ownership states; its UTF-8 cache filled or not.
pub fn any_bytes<'a>(v: &'a [u8]) -> (Bytes<'a>, bool) {
    let mut secret = false;
    let b = match nd::choose(4) {
        0 => Bytes::from_bytes(v),
        1 => Bytes::from(v.to_vec()),
        2 => {
            secret = true;
            Bytes::from_secret(v.to_vec())
        }
        _ => {
            secret = true;
            Bytes::from_bytes(v).secret()
        }
    };
    if nd::flip() {
        let _ = b.to_utf8();
    }
    (b, secret)
}

fn after(b: &Bytes<'_>, secret: bool, want: &[u8], utf8: bool) {
    nd::check(nd::same(b.as_ref(), want), "transformed string differs from the reference");
    nd::check(b.len() == want.len(), "length");
    nd::check(b.is_secret() == secret, "transformation changed secrecy");
    if utf8 {
        utf8_sound(b);
    }
}

fn casemaps(v: &[u8], utf8: bool) {
    let (mut b, secret) = any_bytes(v);
    let keep = b.clone();
    let m = nd::choose(5);
    let want: Vec<u8> = match m {
        0..=2 => v.iter().map(|x| lower(*x, m)).collect(),
        3 => v.iter().map(|x| x.to_ascii_uppercase()).collect(),
        _ => v.iter().map(|x| lower(*x, 0)).collect(),
    };
    match m {
        0 => b.transform(IrcCasemap::Ascii),
        1 => b.transform(IrcCasemap::Rfc1459Strict),
        2 => b.transform(IrcCasemap::Rfc1459),
        3 => b.transform(AsciiCasemap::<true>),
        _ => b.transform(AsciiCasemap::<false>),
    }
    after(&b, secret, &want, utf8);
    nd::check(nd::same(keep.as_ref(), v), "transformation changed a clone");
    nd::cover(1);
}
/// Casemapping equals the documented byte map on every string; idempotent by construction of the reference.
pub fn h_tf_casemap() {
    let v = nd::upto(nd::param(0));
    casemaps(&v, true);
}
pub fn h_tf_casemap_long() {
    let l = nd::choose(nd::param(0)) + 1;
    let p = nd::choose(l);
    let mut v = vec![b'x'; l];
    v[p] = nd::u8_();
    casemaps(&v, false);
}
/// Casemapping a typed string leaves it in its type.
pub fn h_tf_typed() {
    let n = nd::param(0);
    let cm = match nd::choose(3) {
        0 => IrcCasemap::Ascii,
        1 => IrcCasemap::Rfc1459Strict,
        _ => IrcCasemap::Rfc1459,
    };
    macro_rules! go {
        ($t:expr, $raw:ident, $tf:expr) => {{
            let v = spec::any_member($t, spec::is_arglike($t) as usize, n);
            let mut s = spec::raw::$raw(&v);
            s.transform($tf);
            nd::check(spec::member($t, s.as_ref()), "casemapping left the string type");
        }};
    }
    match nd::choose(11) {
        0 => go!(Ty::NoNul, nonul, cm),
        1 => go!(Ty::Line, line, cm),
        2 => go!(Ty::Word, word, cm),
        3 => go!(Ty::Arg, arg, cm),
        4 => go!(Ty::Key, key, cm),
        5 => go!(Ty::Target, target, cm),
        6 => go!(Ty::Nick, nick, cm),
        7 => go!(Ty::User, user, cm),
        8 => go!(Ty::Cmd, cmd, AsciiCasemap::<true>),
        9 => go!(Ty::Key, key, AsciiCasemap::<true>),
        _ => go!(Ty::Line, line, TrimAscii::default()),
    }
    nd::cover(1);
}
/// Trimming removes exactly the ASCII whitespace at the requested side(s).
pub fn h_tf_trim() {
    let v = nd::upto(nd::param(0));
    let (mut b, secret) = any_bytes(&v);
    let side = match nd::choose(4) {
        0 => StringSide::Start,
        1 => StringSide::End,
        2 => StringSide::StartFirst,
        _ => StringSide::EndFirst,
    };
    let (mut s, mut e) = (0, v.len());
    if side != StringSide::End {
        while s < e && v[s].is_ascii_whitespace() {
            s += 1;
        }
    }
    if side != StringSide::Start {
        while e > s && v[e - 1].is_ascii_whitespace() {
            e -= 1;
        }
    }
    b.transform(TrimAscii(side));
    after(&b, secret, &v[s..e], true);
    nd::cover(1);
}

fn ref_escape(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for b in v {
        match b {
            b';' => o.extend_from_slice(b"\\:"),
            b' ' => o.extend_from_slice(b"\\s"),
            b'\\' => o.extend_from_slice(b"\\\\"),
            b'\r' => o.extend_from_slice(b"\\r"),
            b'\n' => o.extend_from_slice(b"\\n"),
            b => o.push(*b),
        }
    }
    o
}
fn ref_unescape(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'\\' {
            i += 1;
            if i < v.len() {
                o.push(match v[i] {
                    b':' => b';',
                    b's' => b' ',
                    b'r' => b'\r',
                    b'n' => b'\n',
                    b => b,
                });
            }
        } else {
            o.push(v[i]);
        }
        i += 1;
    }
    o
}
/// escape / unescape against the IRCv3 table; unescape . escape = id.
pub fn h_tag_escape() {
    let v = spec::any_member(Ty::NoNul, 0, nd::param(0));
    let secret = nd::flip();
    let mk = || {
        let x = spec::raw::nonul(&v);
        if secret {
            x.secret()
        } else {
            x
        }
    };
    let e = escape(mk());
    nd::check(nd::same(e.as_ref(), &ref_escape(&v)), "escaped tag value differs from the IRCv3 table");
    nd::check(spec::member(Ty::Word, e.as_ref()) & nd::all(e.as_ref(), |b| b != b';'), "escaped tag value is not a tag-value word");
    nd::check(e.is_secret() == secret, "escaping changed secrecy");
    let u = unescape(e);
    nd::check(nd::same(u.as_ref(), &v), "unescape(escape(v)) != v");
    nd::check(u.is_secret() == secret, "unescaping changed secrecy");
    let w = unescape(mk());
    nd::check(nd::same(w.as_ref(), &ref_unescape(&v)), "unescaped tag value differs from the IRCv3 rules");
    nd::check(spec::member(Ty::NoNul, w.as_ref()), "unescaped tag value contains NUL");
    utf8_sound(&w.into_bytes());
    nd::cover(1);
}

/// A user-defined transformation of each policy; all keep the promise of their policy.
struct Custom(usize);
unsafe impl Transform for Custom {
    type Value = usize;
    fn transform<'a>(self, bytes: &Bytes<'a>) -> Transformation<'a, usize> {
        use std::borrow::Cow;
        let all: &'a [u8] = unsafe { bytes.as_bytes_unsafe() };
        let (transformed, utf8) = match self.0 {
            // the ASCII prefix: what was valid stays valid, and what was not becomes so
            0 => (Cow::Borrowed(&all[..all.iter().position(|b| *b >= 128).unwrap_or(all.len())]), Utf8Policy::Preserve),
            // all ASCII characters
            1 => (Cow::Owned(all.iter().copied().filter(|b| *b < 128).collect()), Utf8Policy::Preserve),
            2 => (Cow::Borrowed(all), Utf8Policy::Preserve),
            3 => (Cow::Owned(all.to_vec()), Utf8Policy::PreserveStrict),
            4 => (Cow::Borrowed(if all.is_empty() { all } else { &all[1..] }), Utf8Policy::Recheck),
            5 => (Cow::Owned(all.iter().rev().copied().collect()), Utf8Policy::Recheck),
            6 => (Cow::Owned(String::from_utf8_lossy(all).into_owned().into_bytes()), Utf8Policy::Valid),
            _ => (Cow::Owned(std::iter::once(255).chain(all.iter().copied()).collect()), Utf8Policy::Invalid),
        };
        Transformation { value: self.0, transformed, utf8 }
    }
}
/// Transformations that keep the promise of their policy keep the UTF-8 claims right. params: length, transformations
pub fn h_tf_policy() {
    let v = nd::upto(nd::param(0));
    let (mut b, secret) = any_bytes(&v);
    for _ in 0..nd::param(1) {
        let how = nd::choose(8);
        let Transformation { transformed, .. } = Custom(how).transform(&b);
        let want = transformed.to_vec();
        nd::check(b.transform(Custom(how)) == how, "transforming yielded another value");
        nd::check(nd::same(b.as_ref(), &want), "transforming gave another string");
        nd::check(b.is_secret() == secret, "transforming changed secrecy");
        if nd::flip() {
            utf8_sound(&b);
        }
    }
    utf8_sound(&b);
    nd::cover(1);
}
