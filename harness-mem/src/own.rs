//! Ownership, secrecy, zeroing.
use crate::nd;
use crate::spec::{self, raw, Ty};
use vinezombie::ircmsg::*;
use vinezombie::owning::MakeOwning;
use vinezombie::string::base64::{ChunkDecoder, ChunkEncoder};
use vinezombie::string::*;

fn live() -> isize {
    unsafe { crate::LIVE }
}

struct Slot<'a> {
    b: Bytes<'a>,
    m: Vec<u8>,
    secret: bool,
}

fn verify(p: &[Slot<'_>]) {
    for s in p {
        nd::check(nd::same(s.b.as_ref(), &s.m), "a string changed");
        nd::check(s.b.is_secret() == s.secret, "secrecy changed");
    }
}

/// An arbitrary history of creating, sharing, splitting, transforming and releasing strings:
/// every string keeps the value it was given, nothing is freed twice or used after being freed,
/// and nothing is leaked. params: operations, length
pub fn h_bytes_machine() {
    let n = nd::param(1);
    let base = nd::bytes(n);
    let start = live();
    {
        let mut p: Vec<Slot<'_>> = Vec::new();
        // one borrowed and one owned string to begin with
        p.push(Slot { b: Bytes::from_bytes(&base), m: base.clone(), secret: false });
        let mut v = Vec::with_capacity(n + nd::choose(2));
        v.extend_from_slice(&base);
        let secret = nd::flip();
        let b = if secret { Bytes::from_secret(v) } else { Bytes::from(v) };
        p.push(Slot { b, m: base.clone(), secret });
        for _ in 0..nd::param(0) {
            if p.is_empty() {
                break;
            }
            let i = nd::choose(p.len());
            match nd::choose(12) {
                0 => {
                    let s = Slot { b: p[i].b.clone(), m: p[i].m.clone(), secret: p[i].secret };
                    p.push(s);
                }
                1 => {
                    let mut s = p.remove(i);
                    let b = match nd::choose(3) {
                        0 => s.b.owning(),
                        1 => {
                            s.b.make_owning();
                            s.b
                        }
                        _ => unsafe { NoNul::from_unchecked(s.b) }.owning().into_bytes(),
                    };
                    p.push(Slot { b, m: s.m, secret: s.secret });
                    nd::check(p[p.len() - 1].b.is_owning() || p[p.len() - 1].m.is_empty(), "owning string does not own");
                }
                2 => {
                    let s = p.remove(i);
                    p.push(Slot { b: s.b.secret(), m: s.m, secret: true });
                }
                3 => {
                    let s = p.remove(i);
                    let v = s.b.into_vec();
                    nd::check(nd::same(&v, &s.m), "conversion to a vector changed the content");
                    let mut v = v;
                    v.push(1); // the vector must be usable
                }
                4 => {
                    p.remove(i);
                }
                5 => {
                    // split in two parts that share the buffer
                    let s = p.remove(i);
                    let k = nd::choose(s.m.len() + 1);
                    let mut sp = Splitter::new(unsafe { NoNul::from_unchecked(s.b) });
                    let a = sp.save_end().until_count(k).rest_or_default::<NoNul>();
                    let c = sp.rest_or_default::<NoNul>();
                    p.push(Slot { b: a.into_bytes(), m: s.m[..k].to_vec(), secret: s.secret });
                    p.push(Slot { b: c.into_bytes(), m: s.m[k..].to_vec(), secret: s.secret });
                    drop(sp);
                }
                6 => {
                    let s = &mut p[i];
                    s.b.transform(tf::AsciiCasemap::<true>);
                    s.m = s.m.to_ascii_uppercase();
                }
                7 => {
                    let s = p.remove(i);
                    let m = String::from_utf8_lossy(&s.m).into_owned().into_bytes();
                    let b = s.b.into_utf8_lossy();
                    nd::check(b.is_utf8_lazy() == Some(true), "lossy string is not UTF-8");
                    p.push(Slot { b, m, secret: s.secret });
                }
                8 => {
                    let s = p.remove(i);
                    let c: std::borrow::Cow<'_, [u8]> = s.b.into();
                    nd::check(nd::same(&c, &s.m), "conversion to a Cow changed the content");
                    let mut v = c.into_owned();
                    v.push(1);
                }
                9 => {
                    let s = &mut p[i];
                    s.b.transform(tf::TrimAscii(tf::StringSide::End));
                    while let Some(l) = s.m.last() {
                        if l.is_ascii_whitespace() {
                            s.m.pop();
                        } else {
                            break;
                        }
                    }
                }
                10 => {
                    let s = &p[i];
                    let mut bld = Builder::<Bytes>::new(s.b.clone());
                    let r = bld.try_append(&s.m);
                    nd::check(r.is_ok(), "builder refused bytes");
                    let mut m = s.m.clone();
                    m.extend_from_slice(&s.m);
                    let b = bld.build();
                    nd::check(nd::same(b.as_ref(), &m), "built string differs");
                }
                _ => {
                    let k = nd::choose(p.len());
                    p.swap(i, k);
                    p.truncate(3);
                }
            }
            verify(&p);
        }
        // release in any order
        while !p.is_empty() {
            let i = if p.len() > 1 && nd::flip() { p.len() - 1 } else { 0 };
            p.remove(i);
            verify(&p);
        }
    }
    nd::check(live() == start, "memory was leaked or freed twice");
    nd::cover(1);
}

/// Deep sharing: parts of parts, dropped in any order, still readable. params: depth, length
pub fn h_bytes_nested() {
    let n = nd::param(1);
    let base = nd::bytes(n);
    nd::assume(nd::all(&base, spec::line));
    let start = live();
    {
        let secret = nd::flip();
        let b = if secret { Bytes::from_secret(base.clone()) } else { Bytes::from(base.clone()) };
        let mut cur = unsafe { Line::from_unchecked(b) };
        let (mut s, mut e) = (0, n);
        let mut kept: Vec<(Line<'_>, usize, usize)> = Vec::new();
        for _ in 0..nd::param(0) {
            if nd::flip() {
                kept.push((cur.clone(), s, e));
            }
            let (l, r) = (nd::choose(2).min(e - s), nd::choose(2));
            let mut sp = Splitter::new(cur);
            for _ in 0..l {
                sp.next_byte();
            }
            s += l;
            for _ in 0..r {
                if sp.rnext_byte().is_some() {
                    e -= 1;
                }
            }
            cur = sp.rest_or_default::<Line>();
            nd::check(nd::same(cur.as_ref(), &base[s..e]), "part differs");
        }
        if nd::flip() {
            kept.reverse();
        }
        if nd::flip() {
            let v = cur.into_bytes().into_vec();
            nd::check(nd::same(&v, &base[s..e]), "vector differs");
            for (k, s, e) in &kept {
                nd::check(nd::same(k.as_ref(), &base[*s..*e]), "a string changed when another was taken apart");
            }
        }
        while let Some((k, s, e)) = kept.pop() {
            nd::check(nd::same(k.as_ref(), &base[s..e]), "a shared string changed");
            if nd::flip() {
                let v = k.into_bytes().into_vec();
                nd::check(nd::same(&v, &base[s..e]), "vector differs");
            }
        }
    }
    nd::check(live() == start, "memory was leaked or freed twice");
    nd::cover(1);
}

/// Parsing, owning, sharing and dropping messages leaks nothing and survives the input buffer.
pub fn h_msg_leak() {
    let n = nd::param(1);
    let start = live();
    {
        let mut text: Vec<u8> = match nd::param(0) {
            0 => b"@".to_vec(),
            1 => b":".to_vec(),
            _ => Vec::new(),
        };
        let v = nd::bytes(n);
        nd::assume(nd::all(&v, spec::line));
        text.extend_from_slice(&v);
        text.extend_from_slice(b" A b :c d");
        let copy = text.clone();
        let owned = match nd::choose(3) {
            0 => {
                // borrows from `text`, made owning before `text` goes away
                match ServerMsg::parse(unsafe { Line::from_unchecked(Bytes::from_bytes(&text)) }) {
                    Ok(m) => Some(m.owning()),
                    Err(_) => None,
                }
            }
            1 => ServerMsg::parse(Line::from_bytes(text.clone()).unwrap()).ok(),
            _ => match ServerMsg::parse(Line::from_bytes(text.clone()).unwrap()) {
                Ok(m) => {
                    let c = m.clone();
                    let src = m.source.clone();
                    drop(m);
                    if let Some(s) = src {
                        let o = s.owning_merged();
                        nd::check(c.source.as_ref().map(|s| **s == o) == Some(true), "merged source differs");
                    }
                    Some(c)
                }
                Err(_) => None,
            },
        };
        for b in text.iter_mut() {
            *b = 0;
        }
        drop(text);
        if let Some(m) = owned {
            let again = ServerMsg::parse(Line::from_bytes(copy.clone()).unwrap());
            match again {
                Ok(a) => nd::check(a == m, "an owning message changed with the buffer it was parsed from"),
                Err(_) => nd::fail("parsing is not deterministic"),
            }
            nd::cover(1);
        }
    }
    nd::check(live() == start, "memory was leaked or freed twice");
    nd::cover(2);
}

struct Chunky<'a> {
    d: &'a [u8],
    fail: bool,
}
impl std::io::Read for Chunky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.fail && nd::flip() {
            return Err(std::io::ErrorKind::Other.into());
        }
        if self.d.is_empty() || buf.is_empty() {
            return Ok(0);
        }
        let m = self.d.len().min(buf.len());
        let k = 1 + nd::choose(m);
        buf[..k].copy_from_slice(&self.d[..k]);
        self.d = &self.d[k..];
        Ok(k)
    }
}

/// Secret buffers against a byte-vector model. params: operations, length
pub fn h_secretbuf() {
    let n = nd::param(1);
    let start = live();
    {
        let mut m: Vec<u8> = Vec::new();
        let mut s = match nd::choose(3) {
            0 => SecretBuf::with_capacity(nd::choose(n + 1)),
            1 => {
                let v = nd::upto(n);
                m.extend_from_slice(&v);
                let mut w = Vec::with_capacity(v.len() + nd::choose(2));
                w.extend_from_slice(&v);
                SecretBuf::from(w)
            }
            _ => {
                let v = nd::upto(n);
                m.extend_from_slice(&v);
                v.into_iter().collect()
            }
        };
        for _ in 0..nd::param(0) {
            match nd::choose(7) {
                0 => {
                    let b = nd::u8_();
                    s.push(b, nd::choose(2));
                    m.push(b);
                }
                1 => {
                    let v = nd::upto(n);
                    s.push_slice(&v);
                    m.extend_from_slice(&v);
                }
                2 => {
                    let v = nd::upto(n);
                    s.push_cstr(&v);
                    m.extend_from_slice(&v);
                    m.push(0);
                }
                3 => s.reserve(nd::choose(n + 2)),
                4 => {
                    let v = nd::upto(n);
                    let expect = nd::choose(n + 1);
                    let mut r = Chunky { d: &v, fail: nd::flip() };
                    match s.read_from(expect, &mut r) {
                        Ok(k) => {
                            nd::check(k == expect.min(v.len()), "read another number of bytes");
                            nd::check(v.len() - r.d.len() == k, "consumed another number of bytes");
                            m.extend_from_slice(&v[..k]);
                        }
                        Err(_) => nd::check(r.fail, "reading failed"),
                    }
                }
                5 => {
                    s.clear();
                    m.clear();
                }
                _ => {
                    let c = s.clone();
                    nd::check(nd::same(c.as_ref(), &m), "cloned secret differs");
                }
            }
            nd::check(nd::same(s.as_ref(), &m), "secret buffer content");
            nd::check(s.is_empty() == m.is_empty(), "secret buffer emptiness");
        }
        if nd::flip() {
            let b = s.as_bytes();
            nd::check(b.is_secret() && nd::same(b.as_ref(), &m), "borrowed secret differs");
        }
        if nd::flip() {
            let b = s.into_bytes();
            nd::check(nd::same(b.as_ref(), &m) && b.is_secret(), "secret string differs");
        }
    }
    nd::check(live() == start, "memory was leaked or freed twice");
    nd::cover(1);
}

static MARK: [u8; 12] = *b"ZZZZZZZZZZZZ";

fn watched(f: impl FnOnce()) {
    unsafe {
        crate::FOUND = false;
        crate::WATCH = true;
    }
    f();
    unsafe {
        crate::WATCH = false;
        nd::check(!crate::FOUND, "memory was released with a secret still in it");
    }
    nd::cover(1);
}

fn secret_buf() -> SecretBuf {
    let n = 2 + nd::choose(5);
    match nd::choose(3) {
        0 => {
            let mut b = SecretBuf::with_capacity(nd::choose(4));
            b.push_slice(&MARK[..n]);
            b
        }
        1 => MARK[..n].iter().copied().collect(),
        _ => {
            // an unknown length: the buffer grows while it is filled
            let mut i = 0;
            std::iter::from_fn(|| {
                i += 1;
                if i <= n {
                    Some(b'Z')
                } else {
                    None
                }
            })
            .collect()
        }
    }
}

/// No buffer that held a secret is released before being overwritten: secret buffers.
pub fn h_secret_zero_buf() {
    let ops = nd::param(0);
    watched(|| {
        let mut s = secret_buf();
        for _ in 0..ops {
            match nd::choose(8) {
                0 => s.push(b'Z', nd::choose(2)),
                1 => s.push_slice(&MARK[..2 + nd::choose(3)]),
                2 => s.push_cstr(&MARK[..2 + nd::choose(3)]),
                3 => s.reserve(nd::choose(12)),
                4 => {
                    let d = &MARK[..4];
                    let _ = s.read_from(nd::choose(6), &mut Chunky { d, fail: true });
                }
                5 => s.clear(),
                6 => {
                    let c = s.clone();
                    if nd::flip() {
                        s = c;
                    }
                }
                _ => {
                    let b = s.into_bytes();
                    let c = b.clone();
                    if nd::flip() {
                        drop(b);
                        drop(c);
                    } else {
                        drop(c);
                        drop(b);
                    }
                    s = secret_buf();
                }
            }
        }
    });
}
/// The same for secret strings and what is derived from them.
pub fn h_secret_zero_str() {
    let ops = nd::param(0);
    let first = match nd::choose(3) {
        0 => None,
        // made secret later; the buffer it had before is not secret
        1 => Some(Bytes::from(b"ZZ\\ZZ ;".to_vec()).secret()),
        _ => Some(Bytes::from_bytes(&MARK).secret().owning()),
    };
    watched(move || {
        let mut p: Vec<NoNul<'static>> = Vec::new();
        p.push(unsafe { NoNul::from_unchecked(first.unwrap_or_else(|| secret_buf().into_bytes())) });
        for _ in 0..ops {
            let i = nd::choose(p.len());
            match nd::choose(10) {
                0 => {
                    let c = p[i].clone();
                    p.push(c);
                }
                1 => {
                    let s = p[i].clone();
                    let k = nd::choose(s.len() + 1);
                    let mut sp = Splitter::new(s);
                    let a = sp.save_end().until_count(k).rest_or_default::<NoNul>();
                    p.push(a);
                    p.push(sp.rest_or_default());
                }
                2 => {
                    p[i].transform(tf::AsciiCasemap::<false>);
                }
                3 => {
                    let w = p[i].to_base64();
                    nd::check(w.is_secret(), "base64 of a secret is not secret");
                }
                4 => {
                    let e = ChunkEncoder::new(p[i].as_bytes(), 4, true);
                    for c in e {
                        nd::check(c.is_secret(), "chunk of a secret is not secret");
                    }
                }
                5 => {
                    let x = tf::escape(p[i].clone());
                    p.push(unsafe { NoNul::from_unchecked(x.into_bytes()) });
                }
                6 => {
                    let x = unsafe { NoNul::from_unchecked(p[i].clone().into_bytes().into_utf8_lossy()) };
                    p.push(x);
                }
                7 => {
                    let mut a = Args::empty();
                    a.edit().add(unsafe { Line::from_unchecked(p[i].clone().into_bytes()) });
                    a.edit().add_word(raw::arg(b"x"));
                    let a = a.owning();
                    drop(a);
                }
                8 => {
                    // the vector is the caller's to overwrite
                    let k = nd::choose(2);
                    let mut sp = Splitter::new(p.remove(i));
                    if k == 1 {
                        let _ = sp.next_byte();
                    }
                    let x = sp.rest_or_default::<NoNul>();
                    drop(sp);
                    let mut v = x.into_bytes().into_vec();
                    v.fill(0);
                    v.spare_capacity_mut().fill(std::mem::MaybeUninit::new(0));
                    if p.is_empty() {
                        break;
                    }
                }
                _ => {
                    if p.len() > 1 {
                        p.remove(i);
                    }
                }
            }
        }
    });
}

/// Everything derived from a secret string is secret. params: operations, length
pub fn h_secret_flow() {
    let v = nd::from(0, nd::param(1));
    nd::assume(nd::all(&v, spec::line));
    let mut s: Bytes<'_> = match nd::choose(3) {
        0 => Bytes::from_bytes(&v).secret(),
        1 => Bytes::from_secret(v.clone()),
        _ => Bytes::from(v.clone()).secret(),
    };
    for _ in 0..nd::param(0) {
        s = match nd::choose(12) {
            0 => s.clone(),
            1 => s.owning(),
            2 => s.into_utf8_lossy(),
            3 => {
                s.transform(tf::AsciiCasemap::<true>);
                s
            }
            4 => {
                s.transform(tf::TrimAscii(tf::StringSide::StartFirst));
                s
            }
            5 => s.to_base64().into_bytes(),
            6 => s.to_base64_plus().into_bytes(),
            7 => tf::escape(unsafe { NoNul::from_unchecked(s) }).into_bytes(),
            8 => tf::unescape(unsafe { NoNul::from_unchecked(s) }).into_bytes(),
            9 => {
                let mut sp = Splitter::new(unsafe { Line::from_unchecked(s) });
                let w = sp.string_or_default::<Word>(false);
                nd::check(w.is_secret() || w.is_empty(), "a part of a secret is not secret");
                let r = sp.rest_or_default::<Line>();
                nd::check(r.is_secret() || r.is_empty(), "a part of a secret is not secret");
                if w.is_empty() {
                    r.into_bytes().secret()
                } else {
                    w.into_bytes()
                }
            }
            10 => {
                let enc = ChunkEncoder::new(&s, 4, true);
                let mut last = None;
                for c in enc {
                    nd::check(c.is_secret(), "chunk of a secret is not secret");
                    last = Some(c);
                }
                last.unwrap().into_bytes()
            }
            _ => match Line::from_bytes(s) {
                Ok(l) => l.into_bytes(),
                Err(_) => return,
            },
        };
        nd::check(s.is_secret(), "a string derived from a secret is not secret");
    }
    nd::cover(1);
}

/// Formatting a secret string reveals nothing about it: two arbitrary secrets format alike.
pub fn h_secret_fmt() {
    let mk = |v: Vec<u8>, o: usize, chk: bool| -> Bytes<'static> {
        let b = if o == 0 { Bytes::from_bytes(v.leak()).secret() } else { Bytes::from_secret(v) };
        if chk {
            let _ = b.to_utf8();
        }
        b
    };
    let n = nd::param(0);
    let (o, c) = (nd::choose(2), nd::flip());
    let a = mk(nd::from(1, n), o, c);
    let b = mk(nd::from(1, n), o, c);
    match nd::choose(4) {
        0 => nd::check(nd::same(format!("{}", a).as_bytes(), format!("{}", b).as_bytes()), "displaying a secret reveals it"),
        1 => nd::check(nd::same(format!("{:?}", a).as_bytes(), format!("{:?}", b).as_bytes()), "debug-formatting a secret reveals it"),
        2 => nd::check(nd::same(format!("{:#?}", a).as_bytes(), format!("{:#?}", b).as_bytes()), "debug-formatting a secret reveals it"),
        _ => {
            let (x, y) = unsafe { (Line::from_unchecked(a), Line::from_unchecked(b)) };
            nd::check(nd::same(format!("{} {:?}", x, x).as_bytes(), format!("{} {:?}", y, y).as_bytes()), "formatting a secret reveals it");
        }
    }
    nd::cover(1);
}

/// Messages that carry a secret format alike whatever the secret is.
pub fn h_secret_msg_fmt() {
    let n = nd::param(0);
    let place = nd::choose(4);
    let owned = nd::flip();
    let mk = |v: Vec<u8>| -> String {
        let s = Bytes::from_secret(v);
        let mut m = ClientMsg::new_cmd(raw::cmd(b"X"));
        match place {
            0 => {
                m.args.edit().add_word(unsafe { Arg::from_unchecked(s) });
                m.args.edit().add_word(raw::arg(b"y"));
            }
            1 => {
                m.args.edit().add(unsafe { Line::from_unchecked(s) });
            }
            2 => {
                m.tags.edit().insert_pair(raw::key(b"k"), unsafe { NoNul::from_unchecked(s) });
            }
            _ => {
                m.args.set([raw::arg(b"a")], Some(unsafe { Line::from_unchecked(s) }));
            }
        }
        if owned {
            m = m.owning();
        }
        match nd::param(1) {
            0 => format!("{}", m),
            _ => format!("{:?}", m),
        }
    };
    let (a, b) = (nd::from(1, n), nd::from(1, n));
    nd::assume(spec::member(Ty::Arg, &a) & spec::member(Ty::Arg, &b));
    let (x, y) = (mk(a), mk(b));
    nd::check(nd::same(x.as_bytes(), y.as_bytes()), "formatting a message reveals its secret");
    nd::cover(1);
}

/// Reference base64 encoder.
fn b64(v: &[u8]) -> Vec<u8> {
    fn d(x: u8) -> u8 {
        if x < 26 {
            b'A' + x
        } else if x < 52 {
            b'a' + (x - 26)
        } else if x < 62 {
            b'0' + (x - 52)
        } else if x == 62 {
            b'+'
        } else {
            b'/'
        }
    }
    let mut o = Vec::new();
    for c in v.chunks(3) {
        let (a, b, e) = (c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0));
        o.push(d(a >> 2));
        o.push(d(((a & 3) << 4) | (b >> 4)));
        o.push(if c.len() > 1 { d(((b & 15) << 2) | (e >> 6)) } else { b'=' });
        o.push(if c.len() > 2 { d(e & 63) } else { b'=' });
    }
    o
}

/// Up to `n` bytes, of which `k` (at any positions) are arbitrary.
fn some_bytes(n: usize, k: usize) -> Vec<u8> {
    let l = nd::choose(n + 1);
    let mut v: Vec<u8> = (0..l).map(|i| (i as u8).wrapping_mul(77) ^ 0xa5).collect();
    if l <= k {
        for b in v.iter_mut() {
            *b = nd::u8_();
        }
    } else {
        for _ in 0..k {
            let i = nd::choose(l);
            v[i] = nd::u8_();
        }
    }
    v
}

/// Chunked base64: every chunk but the last has exactly the chunk length, the last is shorter,
/// an empty remainder is sent as `+`, and decoding gives the data back. params: length, chunk/4
pub fn h_base64_chunks() {
    let v = some_bytes(nd::param(0), nd::param(2));
    let max = 4 * (1 + nd::choose(nd::param(1)));
    let secret = nd::flip();
    let enc = ChunkEncoder::new(&v, max, secret);
    let want = enc.len();
    let full = b64(&v);
    let mut dec = ChunkDecoder::new(max);
    let mut joined = Vec::new();
    let mut n = 0;
    let mut done = false;
    for c in enc {
        nd::check(!done, "a chunk follows the last one");
        n += 1;
        nd::check(c.is_secret() == secret, "secrecy of a chunk");
        nd::check(spec::member(Ty::Arg, c.as_ref()), "a chunk is not an argument");
        nd::check(c.len() <= max, "a chunk is too long");
        if c.len() < max {
            done = true;
        }
        let plus = nd::same(c.as_ref(), b"+");
        if !plus {
            joined.extend_from_slice(&c);
        }
        match dec.add(c) {
            None => nd::check(!done, "the last chunk was not recognized"),
            Some(Ok(b)) => nd::check(done && nd::same(b.as_ref(), &v), "decoded data differs"),
            Some(Err(_)) => nd::fail("encoded data does not decode"),
        }
    }
    nd::check(done, "the last chunk is missing");
    nd::check(n == want, "number of chunks differs from the announced one");
    nd::check(nd::same(&joined, &full), "chunks are not the base64 encoding");
    let b = Bytes::from_bytes(&v);
    nd::check(nd::same(b.to_base64().as_ref(), &full), "base64 differs");
    let p = b.to_base64_plus();
    nd::check(if v.is_empty() { nd::same(p.as_ref(), b"+") } else { nd::same(p.as_ref(), &full) }, "base64 with a placeholder differs");
    nd::cover(1);
}
/// Arbitrary chunks from the other side: no panic, and decodes exactly when it is base64.
pub fn h_base64_decode() {
    let mut dec = ChunkDecoder::new(4);
    let mut all = Vec::new();
    for _ in 0..nd::param(0) {
        let l = nd::choose(5);
        let mut v = b"QUJD"[..l].to_vec();
        if l > 0 {
            let i = nd::choose(l);
            v[i] = nd::u8_();
        }
        let plus = v.len() == 1 && v[0] == b'+';
        if !plus {
            all.extend_from_slice(&v);
        }
        match dec.add(&v) {
            None => nd::check(v.len() >= 4, "a short chunk does not end the data"),
            Some(r) => {
                nd::check(v.len() < 4, "a full chunk ends the data");
                if let Ok(b) = r {
                    nd::check(nd::same(&b64(&b), &all), "data decoded from something that does not encode it");
                    nd::cover(1);
                }
                all.clear();
            }
        }
    }
    nd::cover(2);
}
