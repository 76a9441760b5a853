use crate::nd;
use crate::spec::{self, Ty};
use vinezombie::error::InvalidString;
use vinezombie::string::*;

fn check_err(t: Ty, v: &[u8], e: InvalidString) {
    let f = spec::byte_ok(t);
    match e {
        InvalidString::Empty => nd::check(v.is_empty() && spec::is_arglike(t), "error Empty for a string that may be empty or is not"),
        InvalidString::Colon => nd::check(!v.is_empty() && v[0] == b':' && spec::is_arglike(t), "error Colon without a leading colon"),
        InvalidString::Byte(b) => {
            // the first offending byte
            let mut found = false;
            for &x in v {
                if !f(x) {
                    nd::check(x == b, "error names a byte other than the first invalid one");
                    found = true;
                    break;
                }
            }
            nd::check(found, "error Byte without an invalid byte");
        }
    }
}

macro_rules! ctor_checks {
    ($v:expr, $t:expr, $T:ident) => {{
        let v: &[u8] = $v;
        let ok = spec::member($t, v);
        match nd::choose(5) {
            0 => match $T::from_bytes(v) {
                Ok(x) => {
                    nd::check(ok, concat!(stringify!($T), "::from_bytes accepted an invalid string"));
                    nd::check(nd::same(x.as_ref(), v), "constructor changed the content");
                    nd::check(!x.is_secret(), "non-secret constructor made a secret");
                    let nz = x.as_bytes_nonzero();
                    nd::check(nz.len() == v.len(), "nonzero view has another length");
                    let c = x.into_cstring();
                    nd::check(nd::same(c.as_bytes(), v), "C string has another content");
                }
                Err(e) => {
                    nd::check(!ok, concat!(stringify!($T), "::from_bytes rejected a valid string"));
                    check_err($t, v, e);
                }
            },
            1 => match $T::try_from(v.to_vec()) {
                Ok(x) => {
                    nd::check(ok, concat!(stringify!($T), "::try_from(Vec) accepted an invalid string"));
                    nd::check(nd::same(x.as_ref(), v), "constructor changed the content");
                }
                Err(_) => nd::check(!ok, concat!(stringify!($T), "::try_from(Vec) rejected a valid string")),
            },
            2 => match $T::from_secret(v.to_vec()) {
                Ok(x) => {
                    nd::check(ok, concat!(stringify!($T), "::from_secret accepted an invalid string"));
                    nd::check(nd::same(x.as_ref(), v), "constructor changed the content");
                    nd::check(x.is_secret(), "secret constructor made a non-secret");
                }
                Err(_) => nd::check(!ok, concat!(stringify!($T), "::from_secret rejected a valid string")),
            },
            3 => match $T::try_from(v) {
                Ok(x) => {
                    nd::check(ok, concat!(stringify!($T), "::try_from(&[u8]) accepted an invalid string"));
                    nd::check(nd::same(x.as_ref(), v), "constructor changed the content");
                    let b: Bytes = x.into();
                    nd::check(nd::same(b.as_ref(), v), "upcast changed the content");
                }
                Err(_) => nd::check(!ok, concat!(stringify!($T), "::try_from(&[u8]) rejected a valid string")),
            },
            _ => {
                // find_invalid and is_invalid agree with the language
                let r = $T::find_invalid(v);
                nd::check(r.is_none() == ok, concat!(stringify!($T), "::find_invalid disagrees"));
                for b in v {
                    nd::check($T::is_invalid(b) == !spec::byte_ok($t)(*b), concat!(stringify!($T), "::is_invalid disagrees"));
                }
            }
        }
    }};
}

fn ctors(v: &[u8]) {
    match nd::choose(9) {
        0 => ctor_checks!(v, Ty::NoNul, NoNul),
        1 => ctor_checks!(v, Ty::Line, Line),
        2 => ctor_checks!(v, Ty::Word, Word),
        3 => ctor_checks!(v, Ty::Arg, Arg),
        4 => ctor_checks!(v, Ty::Key, Key),
        5 => ctor_checks!(v, Ty::Target, Target),
        6 => ctor_checks!(v, Ty::Nick, Nick),
        7 => ctor_checks!(v, Ty::User, User),
        _ => ctor_checks!(v, Ty::Cmd, Cmd),
    }
    nd::cover(1);
}

/// Every constructor of every string type, on every short byte string.
pub fn h_str_ctor() {
    let v = nd::upto(nd::param(0));
    ctors(&v);
}
/// One arbitrary byte anywhere in a longer string.
pub fn h_str_ctor_long() {
    let n = nd::param(0);
    let l = nd::choose(n) + 1;
    let p = nd::choose(l);
    let mut v = vec![b'A'; l];
    v[p] = nd::u8_();
    ctors(&v);
}

macro_rules! down {
    ($v:expr, $S:ident $sraw:ident => $T:ident) => {{
        nd::assume(spec::member(Ty::$S, $v));
        let s = spec::raw::$sraw($v);
        match $T::try_from(s) {
            Ok(x) => {
                nd::check(spec::member(Ty::$T, $v), concat!(stringify!($T), " from ", stringify!($S), " accepted an invalid string"));
                nd::check(nd::same(x.as_ref(), $v), "conversion changed the content");
                let back: $S = x.into();
                nd::check(nd::same(back.as_ref(), $v), "conversion changed the content");
            }
            Err(_) => nd::check(!spec::member(Ty::$T, $v), concat!(stringify!($T), " from ", stringify!($S), " rejected a valid string")),
        }
    }};
}
macro_rules! from_super {
    ($v:expr, $S:ident $sraw:ident => $T:ident) => {{
        nd::assume(spec::member(Ty::$S, $v));
        match $T::from_super(spec::raw::$sraw($v)) {
            Ok(x) => {
                nd::check(spec::member(Ty::$T, $v), concat!(stringify!($T), "::from_super accepted an invalid string"));
                nd::check(nd::same(x.as_ref(), $v), "conversion changed the content");
            }
            Err(_) => nd::check(!spec::member(Ty::$T, $v), concat!(stringify!($T), "::from_super rejected a valid string")),
        }
    }};
}

/// Narrowing conversions between string types.
pub fn h_str_conv() {
    let v = nd::upto(nd::param(0));
    let v = &v[..];
    match nd::choose(36) {
        0 => down!(v, NoNul nonul => Line),
        1 => down!(v, NoNul nonul => Word),
        2 => down!(v, Line line => Word),
        3 => down!(v, NoNul nonul => Arg),
        4 => down!(v, Line line => Arg),
        5 => down!(v, Word word => Arg),
        6 => down!(v, NoNul nonul => Key),
        7 => down!(v, Line line => Key),
        8 => down!(v, Word word => Key),
        9 => down!(v, Arg arg => Key),
        10 => down!(v, NoNul nonul => Target),
        11 => down!(v, Line line => Target),
        12 => down!(v, Word word => Target),
        13 => down!(v, Arg arg => Target),
        14 => down!(v, NoNul nonul => Nick),
        15 => down!(v, Line line => Nick),
        16 => down!(v, Word word => Nick),
        17 => down!(v, Arg arg => Nick),
        18 => down!(v, Target target => Nick),
        19 => down!(v, NoNul nonul => User),
        20 => down!(v, Line line => User),
        21 => down!(v, Word word => User),
        22 => down!(v, Arg arg => User),
        23 => down!(v, NoNul nonul => Cmd),
        24 => down!(v, Line line => Cmd),
        25 => down!(v, Word word => Cmd),
        26 => down!(v, Arg arg => Cmd),
        27 => from_super!(v, NoNul nonul => Line),
        28 => from_super!(v, Line line => Word),
        29 => from_super!(v, Word word => Arg),
        30 => from_super!(v, Arg arg => Key),
        31 => from_super!(v, Arg arg => Target),
        32 => from_super!(v, Target target => Nick),
        33 => from_super!(v, Arg arg => User),
        34 => from_super!(v, Arg arg => Cmd),
        _ => {
            if nd::flip() {
                nd::assume(spec::member(Ty::Arg, v));
                match vinezombie::string::Nick::from_arg(spec::raw::arg(v)) {
                    Ok(x) => {
                        nd::check(spec::member(Ty::Nick, v), "Nick::from_arg accepted an invalid nickname");
                        nd::check(nd::same(x.as_ref(), v), "conversion changed the content");
                    }
                    Err(_) => nd::check(!spec::member(Ty::Nick, v), "Nick::from_arg rejected a valid nickname"),
                }
            } else {
                nd::assume(spec::member(Ty::Word, v));
                let alpha = !v.is_empty() & nd::all(v, |b| b.is_ascii_alphabetic());
                match vinezombie::string::Cmd::from_word(spec::raw::word(v)) {
                    Ok(x) => {
                        nd::check(alpha, "Cmd::from_word accepted an invalid command");
                        nd::check(spec::member(Ty::Cmd, x.as_ref()), "Cmd::from_word built an invalid command");
                        nd::check(nd::same(x.as_ref(), &v.to_ascii_uppercase()), "Cmd::from_word changed the content");
                    }
                    Err(_) => nd::check(!alpha, "Cmd::from_word rejected a valid command"),
                }
            }
        }
    }
    nd::cover(1);
}

/// Generated usernames are usernames and distinguish their ids.
pub fn h_str_userid() {
    if nd::flip() {
        let a = nd::u16_();
        let u = User::from_id_short(a);
        nd::check(spec::member(Ty::User, u.as_ref()), "generated username is not a username");
        nd::check(u.len() == 6 && u[0] == b'i', "generated username has another shape");
        let mut n = 0u32;
        for b in &u[1..] {
            nd::check(b.is_ascii_digit(), "generated username has a non-digit");
            n = n * 10 + (b - b'0') as u32;
        }
        nd::check(n == a as u32, "generated username does not determine its id");
    } else {
        let a = nd::u32_();
        let u = User::from_id(a);
        nd::check(spec::member(Ty::User, u.as_ref()), "generated username is not a username");
        nd::check(u.len() == 9 && u[0] == b'i', "generated username has another shape");
        let mut n = 0u32;
        for b in &u[1..] {
            let d = if b.is_ascii_digit() { b - b'0' } else { b.wrapping_sub(b'a').wrapping_add(10) };
            nd::check(d < 16, "generated username has a non-digit");
            n = (n << 4) | d as u32;
        }
        nd::check(n == a, "generated username does not determine its id");
    }
}

/// Records what is fed to a hasher.
#[derive(Default)]
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hash_of<T: std::hash::Hash + ?Sized>(x: &T) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}
fn first_diff(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return if a[i] < b[i] { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
        }
        i += 1;
    }
    a.len().cmp(&b.len())
}
/// Equality, order and hash are those of the content, whatever the representation. params: length
pub fn h_string_laws() {
    let v = nd::upto(nd::param(0));
    let w = nd::upto(nd::param(0));
    let (a, _) = crate::tf::any_bytes(&v);
    let (b, _) = crate::tf::any_bytes(&w);
    let eq = nd::same(&v, &w);
    match nd::choose(5) {
        0 => {
            nd::check((a == b) == eq && (b == a) == eq, "equality of strings is not that of their contents");
            nd::check((a == w[..]) == eq && (a == &w[..]) == eq, "equality with a slice is not that of the contents");
        }
        1 => {
            let o = first_diff(&v, &w);
            nd::check(a.cmp(&b) == o && a.partial_cmp(&b) == Some(o) && b.cmp(&a) == o.reverse(), "order of strings is not that of their contents");
        }
        2 => {
            if let Ok(s) = std::str::from_utf8(&w) {
                nd::check((a == *s) == eq && (a == s) == eq, "equality with a str is not that of the contents");
                let t = Bytes::from_str(s);
                nd::check((a == t) == eq, "equality with text is not that of the contents");
                nd::check(t.to_utf8().map(|x| nd::same(x.as_bytes(), &w)) == Some(true), "text is not its own text");
            }
        }
        3 => {
            let h = hash_of(&a);
            nd::check(nd::same(&h, &hash_of(&v[..])), "hash of a string is not that of its content");
            let s: &[u8] = std::borrow::Borrow::borrow(&a);
            nd::check(nd::same(s, &v) && nd::same(&a, &v), "borrowed content differs");
        }
        _ => {
            macro_rules! arr {
                ($($n:literal)*) => { match w.len() {
                    $($n => {
                        let mut x = [0u8; $n];
                        x.copy_from_slice(&w);
                        nd::check((a == x) == eq && (a == &x) == eq, "equality with an array is not that of the contents");
                    })*
                    _ => (),
                } };
            }
            arr!(0 1 2 3);
        }
    }
    nd::check(a.len() == v.len() && a.is_empty() == v.is_empty(), "length");
    nd::cover(1);
}
/// The text forms of a string. params: length
pub fn h_string_text() {
    let v = nd::upto(nd::param(0));
    let (a, secret) = crate::tf::any_bytes(&v);
    let valid = spec::utf8(&v);
    let lossy = String::from_utf8_lossy(&v).into_owned();
    match nd::choose(4) {
        0 => {
            let l = a.to_utf8_lossy();
            nd::check(nd::same(l.as_bytes(), lossy.as_bytes()), "lossy text differs");
        }
        1 => {
            let b = a.clone().into_utf8_lossy();
            nd::check(nd::same(&b, lossy.as_bytes()) && b.is_secret() == secret, "lossy string differs");
            nd::check(b.to_utf8().is_some(), "lossy string is not text");
        }
        2 => {
            let s = format!("{a}");
            if !secret && valid {
                nd::check(nd::same(s.as_bytes(), &v), "displayed string differs");
            }
        }
        _ => {
            nd::check(a.to_utf8().is_some() == valid && a.is_utf8_lazy() == Some(valid), "text exactly when valid");
        }
    }
    // asking for text changes nothing
    nd::check(nd::same(&a, &v) && a.is_secret() == secret, "a string changed by being looked at");
    nd::check(a.to_utf8().is_some() == valid, "a string changed its validity by being looked at");
    nd::cover(1);
}
/// The same for all types, and what single types can tell about themselves. params: length
pub fn h_typed_laws() {
    let n = nd::param(0);
    macro_rules! go {
        ($t:expr, $raw:ident) => {{
            let lo = spec::is_arglike($t) as usize;
            let v = spec::any_member($t, lo, n);
            let w = spec::any_member($t, lo, n);
            let (a, b) = (spec::raw::$raw(&v), spec::raw::$raw(&w));
            let b = if nd::flip() { b.secret().owning() } else { b };
            let eq = nd::same(&v, &w);
            nd::check((a == b) == eq && (b == a) == eq && (a == w[..]) == eq && (a == &w[..]) == eq, "equality of typed strings is not that of their contents");
            nd::check(a.cmp(&b) == first_diff(&v, &w), "order of typed strings is not that of their contents");
            nd::check(nd::same(&hash_of(&a), &hash_of(&v[..])), "hash of a typed string is not that of its content");
            if let Ok(s) = std::str::from_utf8(&w) {
                nd::check((a == *s) == eq && (a == s) == eq, "equality with a str is not that of the contents");
            }
        }};
    }
    match nd::choose(12) {
        0 => go!(Ty::NoNul, nonul),
        1 => go!(Ty::Line, line),
        2 => go!(Ty::Word, word),
        3 => go!(Ty::Arg, arg),
        4 => go!(Ty::Key, key),
        5 => go!(Ty::Target, target),
        6 => go!(Ty::Nick, nick),
        7 => go!(Ty::User, user),
        8 => go!(Ty::Cmd, cmd),
        9 => {
            let v = spec::any_member(Ty::Key, 1, n);
            nd::check(spec::raw::key(&v).is_client_tag() == (v[0] == b'+'), "client tags start with a plus sign");
        }
        10 => {
            let v = spec::any_member(Ty::User, 1, n);
            let u = spec::raw::user(&v);
            nd::check(u.no_tilde() == (v[0] != b'~'), "tilde of a username");
            nd::check(u.len_with_tilde() == v.len() + (v[0] != b'~') as usize, "length of a username with tilde");
        }
        _ => {
            let v = spec::any_member(Ty::Cmd, 1, n);
            let c = spec::raw::cmd(&v);
            nd::check(nd::same(c.as_str().as_bytes(), &v), "text of a command");
            let s = String::from_utf8(v.clone()).unwrap();
            nd::check(c == *s.as_str(), "a command is not equal to its text");
        }
    }
    nd::cover(1);
}
