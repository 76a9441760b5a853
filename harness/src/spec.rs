//! Reference definitions, written from the documentation, of the string languages.
use crate::nd;

pub fn nonul(b: u8) -> bool {
    b != 0
}
pub fn line(b: u8) -> bool {
    (b != 0) & (b != b'\r') & (b != b'\n')
}
pub fn word(b: u8) -> bool {
    line(b) & (b != b' ')
}
pub fn key(b: u8) -> bool {
    word(b) & (b != b'=') & (b != b';')
}
pub fn target(b: u8) -> bool {
    word(b) & (b != b',')
}
pub fn nick(b: u8) -> bool {
    target(b) & (b != b'!') & (b != b'@')
}
pub fn user(b: u8) -> bool {
    word(b) & (b != b'@') & (b != b'%')
}
pub fn cmd(b: u8) -> bool {
    (b >= b'A') & (b <= b'Z')
}
pub fn arglike(v: &[u8], f: fn(u8) -> bool) -> bool {
    if v.is_empty() {
        return false;
    }
    (v[0] != b':') & nd::all(v, f)
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ty {
    NoNul,
    Line,
    Word,
    Arg,
    Key,
    Target,
    Nick,
    User,
    Cmd,
}
pub const TYS: [Ty; 9] = [Ty::NoNul, Ty::Line, Ty::Word, Ty::Arg, Ty::Key, Ty::Target, Ty::Nick, Ty::User, Ty::Cmd];
pub fn byte_ok(t: Ty) -> fn(u8) -> bool {
    match t {
        Ty::NoNul => nonul,
        Ty::Line => line,
        Ty::Word | Ty::Arg => word,
        Ty::Key => key,
        Ty::Target => target,
        Ty::Nick => nick,
        Ty::User => user,
        Ty::Cmd => cmd,
    }
}
pub fn is_arglike(t: Ty) -> bool {
    !matches!(t, Ty::NoNul | Ty::Line | Ty::Word)
}
/// Membership, as one symbolic term.
pub fn member(t: Ty, v: &[u8]) -> bool {
    if is_arglike(t) {
        arglike(v, byte_ok(t))
    } else {
        nd::all(v, byte_ok(t))
    }
}
/// Reference UTF-8 decoder (RFC 3629), independent of core's.
pub fn utf8(v: &[u8]) -> bool {
    let mut i = 0;
    while i < v.len() {
        let b = v[i];
        if b < 0x80 {
            i += 1;
            continue;
        }
        let (n, lo, hi) = if (0xc2..=0xdf).contains(&b) {
            (1, 0x80, 0xbf)
        } else if b == 0xe0 {
            (2, 0xa0, 0xbf)
        } else if b == 0xed {
            (2, 0x80, 0x9f)
        } else if (0xe1..=0xef).contains(&b) {
            (2, 0x80, 0xbf)
        } else if b == 0xf0 {
            (3, 0x90, 0xbf)
        } else if b == 0xf4 {
            (3, 0x80, 0x8f)
        } else if (0xf1..=0xf3).contains(&b) {
            (3, 0x80, 0xbf)
        } else {
            return false;
        };
        if i + n >= v.len() {
            return false;
        }
        if v[i + 1] < lo || v[i + 1] > hi {
            return false;
        }
        let mut k = 2;
        while k <= n {
            if v[i + k] & 0xc0 != 0x80 {
                return false;
            }
            k += 1;
        }
        i += n + 1;
    }
    true
}
/// Wraps bytes as newtypes without going through the code under test's checks:
/// callers establish membership first.
pub mod raw {
    use vinezombie::string::*;
    macro_rules! mk {
        ($($f:ident $t:ident),*) => { $(pub fn $f<'a>(v: &'a [u8]) -> $t<'a> {
            unsafe { $t::from_unchecked(Bytes::from_bytes(v)) }
        })* };
    }
    mk!(nonul NoNul, line Line, word Word, arg Arg, key Key, target Target, nick Nick, user User, cmd Cmd);
}
/// A symbolic member of type `t` with a length in `lo..=hi`.
pub fn any_member(t: Ty, lo: usize, hi: usize) -> Vec<u8> {
    let v = nd::from(lo, hi);
    nd::assume(member(t, &v));
    v
}
