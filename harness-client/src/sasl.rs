//! SASL authentication exchanges.
use crate::nd;
use crate::register::{challenge, Mech};
use crate::spec::{self, raw, Ty};
use vinezombie::client::auth::sasl::{External, Password, Plain};
use vinezombie::client::auth::{Clear, Handler, HandlerError, Sasl, SaslQueue, Secret};
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::NoNul;

fn b64c(v: u8) -> u8 {
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[(v & 63) as usize]
}
/// Reference base64.
pub fn b64(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in d.chunks(3) {
        let (a, b, e) = (c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0));
        o.push(b64c(a >> 2));
        o.push(b64c(a << 4 | b >> 4));
        o.push(if c.len() > 1 { b64c(b << 2 | e >> 6) } else { b'=' });
        o.push(if c.len() > 2 { b64c(e) } else { b'=' });
    }
    o
}
/// The AUTHENTICATE messages that carry `d`.
fn carrying(d: &[u8]) -> Vec<Vec<u8>> {
    let e = b64(d);
    let mut v: Vec<Vec<u8>> = vec![];
    let mut chunks: Vec<&[u8]> = e.chunks(400).collect();
    if e.len() % 400 == 0 {
        chunks.push(b"+");
    }
    for c in chunks {
        let mut m = b"AUTHENTICATE ".to_vec();
        m.extend_from_slice(c);
        v.push(m);
    }
    v
}
fn drive(h: &mut Handler, line: &[u8]) -> (Result<bool, HandlerError>, Vec<Vec<u8>>) {
    let Ok(m) = ServerMsg::parse(vinezombie::string::Line::from_bytes(line.to_vec()).unwrap()) else { nd::fail("a message does not parse") };
    let mut out = vec![];
    let r = h.handle(&m, |m: ClientMsg<'static>| {
        let mut v = vec![];
        m.write_to(&mut v).unwrap();
        out.push(v);
    });
    (r, out)
}
fn same_lines(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| nd::same(a, b))
}
fn nonul(n: usize) -> (Vec<u8>, NoNul<'static>) {
    let v = spec::any_member(Ty::NoNul, 0, n);
    let s = raw::nonul(&v).owning();
    (v, s)
}
fn text(m: &ClientMsg<'_>) -> Vec<u8> {
    let mut v = vec![];
    m.write_to(&mut v).unwrap();
    v
}
/// PLAIN and EXTERNAL, short credentials: exactly the RFC 4616 and RFC 4422 messages, only to an
/// empty challenge, only once.
pub fn h_sasl_plain() {
    let n = nd::param(0);
    let kind = nd::choose(3);
    let mut want = vec![];
    let sasl: Box<dyn Sasl> = if kind == 2 {
        let (z, zs) = nonul(n);
        want.extend(z);
        Box::new(External(zs))
    } else {
        let (z, zs) = nonul(n);
        let (c, cs) = nonul(n);
        let (p, ps) = nonul(n);
        want.extend(z);
        want.push(0);
        want.extend(c);
        want.push(0);
        want.extend(p);
        let passwd: Secret<NoNul<'static>, Clear> = Secret::new(if nd::flip() { ps.secret() } else { ps });
        if kind == 0 {
            let mut s = Plain::new(cs, passwd);
            s.authzid = zs;
            Box::new(s)
        } else {
            let mut s = Password::new(cs, passwd);
            s.authzid = zs;
            Box::new(s)
        }
    };
    let mut q = SaslQueue::new();
    q.push(&*sasl);
    nd::check(q.len() == 1, "one mechanism gives one authenticator");
    let Some(mut h) = Handler::from_queue(q) else { nd::fail("no authenticator") };
    nd::check(text(&h.auth_msg()) == if kind == 2 { &b"AUTHENTICATE EXTERNAL"[..] } else { b"AUTHENTICATE PLAIN" }, "the mechanism's name differs");
    match nd::choose(3) {
        0 => {
            let (r, out) = drive(&mut h, b"AUTHENTICATE +");
            nd::check(r == Ok(false), "sending credentials completes or fails authentication");
            nd::check(same_lines(&out, &carrying(&want)), "the credentials sent differ");
            if kind < 2 {
                // a second request is out of order
                let (r, out) = drive(&mut h, b"AUTHENTICATE +");
                nd::check(matches!(r, Err(HandlerError::Broken(_))), "credentials are sent twice");
                nd::check(same_lines(&out, &[b"AUTHENTICATE *".to_vec()]), "a broken exchange is not aborted");
            }
        }
        1 => {
            // a challenge where none is expected
            let mut l = b"AUTHENTICATE ".to_vec();
            l.extend(b64(&nd::from(1, 2)));
            let (r, out) = drive(&mut h, &l);
            nd::check(matches!(r, Err(HandlerError::Broken(_))), "an unexpected challenge is answered");
            nd::check(same_lines(&out, &[b"AUTHENTICATE *".to_vec()]), "an unexpected challenge is not refused");
        }
        _ => {
            // not base64 at all
            let b = nd::u8_();
            nd::assume(spec::word(b) & (b != b'+') & (b != b':'));
            let (r, out) = drive(&mut h, &[b"AUTHENTICATE ", &[b][..]].concat());
            nd::check(matches!(r, Err(HandlerError::Broken(_))), "a malformed challenge is answered");
            nd::check(same_lines(&out, &[b"AUTHENTICATE *".to_vec()]), "a malformed challenge is not refused");
        }
    }
}
/// Long credentials are cut into 400-byte chunks.
pub fn h_sasl_long() {
    // lengths around one and two chunks
    let len = [296, 297, 298, 299, 597, 598][nd::choose(6)];
    let mut p = vec![b'p'; len];
    let at = [0, len / 2, len - 1][nd::choose(3)];
    p[at] = nd::u8_();
    nd::assume(p[at] != 0);
    let mut want = vec![0, b'u', 0];
    want.extend_from_slice(&p);
    let s: Plain<Clear> = Plain::new(NoNul::from_str("u"), Secret::new(raw::nonul(&p).owning()));
    let mut q = SaslQueue::new();
    q.push(&s);
    let Some(mut h) = Handler::from_queue(q) else { nd::fail("no authenticator") };
    let (r, out) = drive(&mut h, b"AUTHENTICATE +");
    nd::check(r == Ok(false), "sending credentials completes or fails authentication");
    nd::check(same_lines(&out, &carrying(&want)), "the credentials sent differ");
}
/// Challenges are put together from any number of chunks, and nothing of a failed attempt
/// reaches the next one.
pub fn h_sasl_challenge() {
    let n = nd::param(0);
    let m = |name: &'static str| Mech { name, fails: false, reply: b"hi" };
    let mut q = SaslQueue::new();
    q.push(&m("X"));
    q.push(&m("Y"));
    let Some(mut h) = Handler::from_queue(q) else { nd::fail("no authenticator") };
    let pre = if nd::flip() { 300 } else { 0 };
    let mut data = vec![b'd'; pre];
    if pre > 0 {
        // the attempt may fail in the middle of a challenge
        data[7] = nd::u8_();
        let e = carrying(&data);
        let (r, out) = drive(&mut h, &e[0]);
        nd::check(r == Ok(false) && out.is_empty(), "an incomplete challenge is answered");
        if nd::flip() {
            let (r, out) = drive(&mut h, b":s 904 Me :failed");
            nd::check(r == Ok(false) && same_lines(&out, &[b"AUTHENTICATE Y".to_vec()]), "the next mechanism is not tried");
            data.clear();
        }
    }
    let rest = nd::upto(n);
    data.extend_from_slice(&rest);
    let mut l = b"AUTHENTICATE ".to_vec();
    l.extend(if rest.is_empty() { b"+".to_vec() } else { b64(&rest) });
    let (r, out) = drive(&mut h, &l);
    nd::check(r == Ok(false) && same_lines(&out, &carrying(b"hi")), "the reply to a challenge differs");
    nd::check(nd::same(challenge(), &data), "the challenge reached the mechanism changed");
}
/// Order of mechanisms, whatever the server says; every mechanism at most once.
pub fn h_sasl_order() {
    let all = ["X", "Y", "Z"];
    let n = 1 + nd::choose(nd::param(1));
    let mut left: Vec<Mech> = (0..n).map(|i| Mech { name: all[i], fails: nd::flip(), reply: b"hi" }).collect();
    if n > 1 && nd::flip() {
        // the same mechanism for two accounts
        left[1].name = "X";
    }
    let q: SaslQueue = left.iter().collect();
    nd::check(q.len() == n, "the number of authenticators differs");
    let Some(mut h) = Handler::from_queue(q) else { nd::fail("no authenticator") };
    let name = |m: &Mech| [b"AUTHENTICATE ", m.name.as_bytes()].concat();
    nd::check(nd::same(&text(&h.auth_msg()), &name(&left[0])), "the first mechanism is not tried first");
    let mut aborting = false;
    for _ in 0..nd::param(0) {
        if aborting {
            let (r, out) = drive(&mut h, b":s 906 Me :aborted");
            nd::check(r == Ok(false) && same_lines(&out, &[name(&left[0])]), "after an abort, the next mechanism is not tried");
            aborting = false;
            continue;
        }
        // any numeric at all
        if nd::flip() {
            let cur = left[0].clone();
            let (r, out) = drive(&mut h, if nd::flip() { b"AUTHENTICATE +" } else { b"AUTHENTICATE" });
            if cur.fails {
                nd::check(same_lines(&out, &[b"AUTHENTICATE *".to_vec()]), "a broken exchange is not aborted");
                left.retain(|m| m.name != cur.name);
                if left.is_empty() {
                    nd::check(matches!(r, Err(HandlerError::Broken(_))), "authentication goes on without mechanisms");
                    return;
                }
                nd::check(r == Ok(false), "authentication ends before all mechanisms are tried");
                aborting = true;
            } else {
                nd::check(r == Ok(false) && same_lines(&out, &carrying(b"hi")), "the reply to a challenge differs");
            }
            continue;
        }
        if nd::flip() {
            // the mechanisms the server has
            let (list, has): (&[u8], [bool; 3]) = match nd::choose(5) {
                0 => (b"Me X,Y,Z", [true, true, true]),
                1 => (b"Me W,Z,x", [false, false, true]),
                2 => (b"Me Y", [false, true, false]),
                3 => (b"* XY", [false; 3]),
                _ => (b"", [false; 3]),
            };
            let (r, out) = drive(&mut h, &[b":s 908 ", list, b" :are available"].concat());
            nd::check(out.is_empty(), "a list of mechanisms is answered");
            let on = |m: &Mech| has[(m.name.as_bytes()[0] - b'X') as usize];
            // the current one fails on its own if it is not available
            let cur = left.remove(0);
            left.retain(|m| on(m));
            if left.is_empty() && !on(&cur) {
                nd::check(r.is_err(), "authentication goes on without mechanisms");
                return;
            }
            nd::check(r == Ok(false), "authentication ends before all mechanisms are tried");
            left.insert(0, cur);
            continue;
        }
        let d = [nd::below(10), nd::below(10), nd::below(10)];
        let num = d[0] as u16 * 100 + d[1] as u16 * 10 + d[2] as u16;
        nd::assume((num != 906) & (num != 908));
        let mut l = b":s ".to_vec();
        l.extend(d.map(|d| d + b'0'));
        l.extend_from_slice(b" Me :text");
        let (r, out) = drive(&mut h, &l);
        if (num == 900) | (num == 903) | (num == 907) {
            nd::check(r == Ok(true) && out.is_empty(), "a success is not taken as one");
            return;
        } else if (num == 902) | (num == 904) {
            left.remove(0);
            if left.is_empty() {
                nd::check(matches!(&r, Err(HandlerError::Fail(t)) if *t == "text") && out.is_empty(), "authentication goes on without mechanisms");
                return;
            }
            nd::check(r == Ok(false) && same_lines(&out, &[name(&left[0])]), "after a failure, the next mechanism is not tried");
        } else if num == 905 {
            nd::check(r.is_err() && out.is_empty(), "a too long message is not taken as failure");
            return;
        } else {
            nd::check(r == Ok(false) && out.is_empty(), "an unrelated message has an effect");
        }
    }
}
