//! Serialized values deserialize to equal ones, and only valid values deserialize at all.
use crate::nd;
use crate::spec::{self, raw, Ty};
use crate::value::{self, V};
use vinezombie::ircmsg::*;
use vinezombie::string::*;

fn owned() {
    unsafe { value::OWNED = nd::flip() }
}
/// Strings of every type.
pub fn h_serde_str() {
    owned();
    let v = nd::upto(nd::param(0));
    macro_rules! ty {
        ($T:ident, $ty:expr) => {{
            let want = v.clone();
            let ok = spec::member($ty, &want);
            let val = match nd::choose(2) {
                0 => V::Bytes(v.clone()),
                _ => {
                    nd::assume(spec::utf8(&v));
                    V::Str(v.clone())
                }
            };
            match value::from::<$T<'static>>(val) {
                Ok(s) => {
                    nd::check(ok, "an invalid string was deserialized");
                    nd::check(nd::same(s.as_bytes(), &want), "a string changed when it was deserialized");
                    let back = value::to(&s);
                    let b = match &back {
                        V::Str(b) => {
                            nd::check(spec::utf8(b), "a string was serialized as text that is not UTF-8");
                            b
                        }
                        V::Bytes(b) => {
                            nd::check(!spec::utf8(b), "text was serialized as bytes");
                            b
                        }
                        _ => nd::fail("a string was serialized as something else"),
                    };
                    nd::check(nd::same(b, &want), "a string changed when it was serialized");
                    match value::from::<$T<'static>>(back) {
                        Ok(t) => nd::check(t == s, "a string does not survive serialization"),
                        Err(_) => nd::fail("a serialized string cannot be deserialized"),
                    }
                }
                Err(_) => nd::check(!ok, "a valid string was not deserialized"),
            }
        }};
    }
    match nd::choose(10) {
        0 => ty!(NoNul, Ty::NoNul),
        1 => ty!(Line, Ty::Line),
        2 => ty!(Word, Ty::Word),
        3 => ty!(Arg, Ty::Arg),
        4 => ty!(Key, Ty::Key),
        5 => ty!(Target, Ty::Target),
        6 => ty!(Nick, Ty::Nick),
        7 => ty!(User, Ty::User),
        8 => ty!(Cmd, Ty::Cmd),
        _ => {
            let s = Bytes::from_bytes(&v);
            match value::from::<Bytes<'static>>(value::to(&s)) {
                Ok(t) => nd::check(nd::same(t.as_bytes(), &v), "a string does not survive serialization"),
                Err(_) => nd::fail("a serialized string cannot be deserialized"),
            }
        }
    }
    nd::cover(1);
}
fn back<T: serde::Serialize + for<'d> serde::Deserialize<'d> + PartialEq>(t: &T) -> T {
    match value::from::<T>(value::to(t)) {
        Ok(u) => {
            nd::check(u == *t, "a value does not survive serialization");
            u
        }
        Err(_) => nd::fail("a serialized value cannot be deserialized"),
    }
}
/// Argument lists.
pub fn h_serde_args() {
    owned();
    let n = nd::choose(nd::param(0) + 1);
    let vals: Vec<Vec<u8>> = (0..n).map(|_| nd::upto(nd::param(1))).collect();
    let mut ok = true;
    for (i, v) in vals.iter().enumerate() {
        ok &= spec::member(if i + 1 == n { Ty::Line } else { Ty::Arg }, v);
    }
    let val = V::Seq(vals.iter().map(|v| V::Bytes(v.clone())).collect());
    match value::from::<Args<'static>>(val) {
        Ok(a) => {
            nd::check(ok, "an invalid argument list was deserialized");
            nd::check(a.len() == n, "arguments appear or vanish");
            let (words, last) = a.split_last();
            for i in 0..n {
                let got = if i + 1 == n { last.unwrap().as_bytes() } else { words[i].as_bytes() };
                nd::check(nd::same(got, &vals[i]), "an argument changed");
            }
            let b = back(&a);
            nd::check(b.is_last_long() == a.is_last_long(), "the last argument changes its form");
            // what was deserialized can be sent and is understood
            let mut m = ClientMsg::new_cmd(Cmd::from_str("A"));
            m.args = a;
            let mut out = vec![];
            let _ = ClientCodec::write_to(&m, &mut out);
            match ClientMsg::parse(raw::line(&out).owning()) {
                Ok(p) => nd::check(p == m, "a deserialized argument list cannot be written"),
                Err(_) => nd::fail("a deserialized argument list cannot be written"),
            }
            nd::cover(1);
        }
        Err(_) => nd::check(!ok, "a valid argument list was not deserialized"),
    }
}
/// A member of the type that is ASCII text (other strings have their own harness).
fn text(t: Ty, lo: usize, hi: usize) -> Vec<u8> {
    let v = spec::any_member(t, lo, hi);
    nd::assume(nd::all(&v, |b| b < 0x80));
    v
}
fn tags(n: usize, k: usize, v: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    (0..n).map(|_| (text(Ty::Key, 1, k), text(Ty::NoNul, 0, v))).collect()
}
/// Whole messages.
pub fn h_serde_msg() {
    owned();
    let ts = tags(nd::choose(nd::param(0) + 1), nd::param(1), nd::param(1));
    let word = text(Ty::Arg, 1, nd::param(1));
    let last = text(Ty::Line, 0, nd::param(1));
    let nargs = nd::choose(3);
    let put = |a: &mut Args<'_>| {
        // Safety: 'static is a lie here that ends with this function
        let a: &mut Args<'static> = unsafe { std::mem::transmute(a) };
        let mut e = a.edit();
        if nargs > 1 {
            e.add_word(raw::arg(&word).owning());
        }
        if nargs > 0 {
            e.add(raw::line(&last).owning());
        }
    };
    let put_tags = |t: &mut Tags<'static>| {
        let mut e = t.edit();
        for (k, v) in &ts {
            e.insert_pair(raw::key(k).owning(), raw::nonul(v).owning());
        }
    };
    if nd::flip() {
        let c = text(Ty::Cmd, 1, nd::param(1));
        let mut m = ClientMsg::new_cmd(raw::cmd(&c).owning());
        put(&mut m.args);
        put_tags(&mut m.tags);
        back(&m);
        nd::cover(1);
    } else {
        let mut m = if nd::flip() {
            let c = text(Ty::Cmd, 1, nd::param(1));
            ServerMsg::new_cmd(raw::cmd(&c).owning())
        } else {
            let d = [nd::below(10), nd::below(10), nd::below(10)];
            let Some(n) = Numeric::from_bytes(&[48 + d[0], 48 + d[1], 48 + d[2]]) else { nd::fail("three digits are a numeric") };
            {
                let mut m = ServerMsg::new_cmd(Cmd::from_str("X"));
                m.kind = ServerMsgKindRaw::Numeric(n);
                m
            }
        };
        if nd::flip() {
            let n = text(Ty::Nick, 1, 1);
            let mut s = Source::new_server(raw::nick(&n).owning());
            if nd::flip() {
                let h = text(Ty::Word, 0, 1);
                let user = if nd::flip() {
                    let u = text(Ty::User, 1, 1);
                    Some(raw::user(&u).owning())
                } else {
                    None
                };
                s.userhost = Some(UserHost { user, host: raw::word(&h).owning() });
            }
            m.source = Some(SharedSource::new(s));
        }
        put(&mut m.args);
        put_tags(&mut m.tags);
        back(&m);
        nd::cover(2);
    }
}
/// Numbers, kinds and addresses.
pub fn h_serde_small() {
    owned();
    match nd::choose(4) {
        0 => {
            let k = nd::u64_();
            match value::from::<Numeric>(V::U64(k)) {
                Ok(n) => {
                    nd::check(k < 1000, "a number beyond 999 became a numeric");
                    nd::check(n.into_int() as u64 == k, "a numeric changed");
                    nd::check(value::to(&n) == V::U64(k), "a numeric is serialized as something else");
                    nd::cover(1);
                }
                Err(_) => nd::check(k >= 1000, "a numeric was refused"),
            }
        }
        1 => {
            // anything deserialized as a kind is one, and is what it was
            let v = nd::from(1, nd::param(0));
            nd::assume(spec::utf8(&v));
            match value::from::<ServerMsgKindRaw<'static>>(V::Str(v.clone())) {
                Ok(ServerMsgKindRaw::Cmd(c)) => {
                    nd::check(nd::same(c.as_bytes(), &v) & spec::member(Ty::Cmd, &v), "an invalid command was deserialized");
                    nd::cover(2);
                }
                Ok(ServerMsgKindRaw::Numeric(_)) => nd::fail("text was deserialized as a numeric"),
                Err(_) => nd::check(!spec::member(Ty::Cmd, &v), "a command was refused"),
            }
        }
        2 => {
            let w = spec::any_member(Ty::Word, 0, nd::param(0));
            let p = nd::u16_();
            let a = vinezombie::client::conn::ServerAddr {
                address: raw::word(&w).owning(),
                tls: nd::flip(),
                port: if nd::flip() { Some(p) } else { None },
            };
            let b = back(&a);
            nd::check(b.port == a.port, "an address does not survive serialization");
            nd::cover(3);
        }
        _ => {
            // tags with duplicate keys: a map
            let k1 = spec::any_member(Ty::Key, 1, 1);
            let k2 = spec::any_member(Ty::Key, 1, 1);
            let v1 = spec::any_member(Ty::NoNul, 0, 1);
            let v2 = spec::any_member(Ty::NoNul, 0, 1);
            let m = V::Map(vec![(V::Bytes(k1.clone()), V::Bytes(v1.clone())), (V::Bytes(k2.clone()), V::Bytes(v2.clone()))]);
            let Ok(t) = value::from::<Tags<'static>>(m) else { nd::fail("tags are not deserialized") };
            let dup = nd::same(&k1, &k2);
            nd::check(t.len() == if dup { 1 } else { 2 }, "tags are counted twice");
            let Some(g2) = t.get(raw::key(&k2).owning()) else { nd::fail("a tag is lost") };
            nd::check(nd::same(g2.as_bytes(), &v2), "a tag has another value");
            if !dup {
                let Some(g1) = t.get(raw::key(&k1).owning()) else { nd::fail("a tag is lost") };
                nd::check(nd::same(g1.as_bytes(), &v1), "a tag has another value");
            }
            back(&t);
            nd::cover(4);
        }
    }
}
/// Secrets and other options read from a configuration.
pub fn h_serde_secret() {
    use vinezombie::client::auth::{Clear, LoadSecret, Secret};
    owned();
    struct Fixed(Vec<u8>, usize, bool);
    impl LoadSecret for Fixed {
        fn size_hint(&self) -> usize {
            self.1
        }
        fn load_secret(self, b: &mut SecretBuf) -> std::io::Result<()> {
            b.push_slice(&self.0);
            if self.2 {
                return Err(std::io::ErrorKind::Other.into());
            }
            Ok(())
        }
    }
    match nd::choose(3) {
        0 => {
            let v = nd::upto(nd::param(0));
            let hint = nd::choose(3) * 3;
            let bad = nd::flip();
            match Secret::<Line<'static>, Fixed>::load(Fixed(v.clone(), hint, bad)) {
                Ok(s) => {
                    nd::check(!bad & spec::member(Ty::Line, &v), "an invalid secret was loaded");
                    nd::check(nd::same(s.as_bytes(), &v), "a secret changed");
                    nd::check(s.is_secret(), "a loaded secret is not secret");
                    nd::check(Secret::into_inner(s).is_secret(), "a loaded secret is not secret");
                    nd::cover(1);
                }
                Err(_) => nd::check(bad | !spec::member(Ty::Line, &v), "a secret was refused"),
            }
        }
        1 => {
            let v = nd::upto(nd::param(0));
            let c = Clear(v.clone().into());
            match Secret::<NoNul<'static>, Clear>::load(c) {
                Ok(s) => {
                    nd::check(spec::member(Ty::NoNul, &v), "an invalid secret was loaded");
                    nd::check(nd::same(s.as_bytes(), &v) & s.is_secret(), "a secret changed");
                    nd::cover(2);
                }
                Err(_) => nd::check(!spec::member(Ty::NoNul, &v), "a secret was refused"),
            }
        }
        _ => {
            // base64 in the configuration
            const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let mut v = vec![b'a', 0x5f, 0xfe];
            v[nd::choose(3)] = nd::u8_();
            let text = vec![
                A[(v[0] >> 2) as usize],
                A[((v[0] << 4 | v[1] >> 4) & 63) as usize],
                A[((v[1] << 2 | v[2] >> 6) & 63) as usize],
                A[(v[2] & 63) as usize],
            ];
            match value::from::<Secret<NoNul<'static>, Clear>>(V::Str(text)) {
                Ok(s) => {
                    nd::check(spec::member(Ty::NoNul, &v), "an invalid secret was loaded");
                    nd::check(nd::same(s.as_bytes(), &v) & s.is_secret(), "a secret changed");
                    nd::cover(3);
                }
                Err(_) => nd::check(!spec::member(Ty::NoNul, &v), "a secret was refused"),
            }
        }
    }
}
