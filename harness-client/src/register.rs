//! Connection registration, run over a connection, compared with a model after every message.
use crate::nd;
use crate::spec::{self, raw, Ty};
use crate::world::{self, Conn};
use std::collections::BTreeSet;
use std::ops::ControlFlow;
use std::time::Duration;
use vinezombie::client::auth::{Sasl, SaslLogic, SaslQueue};
use vinezombie::client::channel::{Sender, Sent, SyncChannels};
use vinezombie::client::nick::{from_iter, NickGen};
use vinezombie::client::register::{register_as_custom, HandlerError, Register};
use vinezombie::client::state::{Account, Caps, ClientSource, ISupport, ServerSource, ServerVersion};
use vinezombie::client::Client;
use vinezombie::string::{Arg, Key, Line, Nick, SecretBuf, User};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    Going,
    Done,
    NoAccess,
    NoNicks,
    NoLogin,
    Redirect,
    ServerError,
    Broken,
    Missing(u8),
}
static mut OUT: Out = Out::Going;
static mut SENT: usize = 0;
pub struct Slot;
impl Sender for Slot {
    type Value = Result<(), HandlerError>;
    fn send(&mut self, v: Self::Value) -> ControlFlow<Sent> {
        unsafe {
            SENT += 1;
            OUT = match v {
                Ok(()) => Out::Done,
                Err(HandlerError::NoAccess(_)) => Out::NoAccess,
                Err(HandlerError::NoNicks) => Out::NoNicks,
                Err(HandlerError::NoLogin) => Out::NoLogin,
                Err(HandlerError::Redirect(..)) => Out::Redirect,
                Err(HandlerError::ServerError(_)) => Out::ServerError,
                Err(HandlerError::Broken(_)) => Out::Broken,
                Err(HandlerError::MissingCaps(s)) => {
                    let mut m = 0;
                    for k in s.iter() {
                        m |= bit(k.as_bytes());
                    }
                    Out::Missing(m)
                }
                Err(_) => nd::fail("unknown outcome"),
            };
        }
        ControlFlow::Break(Sent::Ok)
    }
}
pub fn out() -> Out {
    unsafe { OUT }
}

/// The capabilities in play, as bits.
pub const CAPS: [&str; 5] = ["aa", "b/c", "sasl", "sts", "zz"];
pub const SASL: u8 = 4;
pub const STS: u8 = 8;
fn bit(k: &[u8]) -> u8 {
    for i in 0..5 {
        if k == CAPS[i].as_bytes() {
            return 1 << i;
        }
    }
    nd::fail("a capability nobody mentioned")
}
fn names(m: u8) -> Vec<&'static str> {
    (0..5).filter(|i| m >> i & 1 != 0).map(|i| CAPS[i]).collect()
}

/// An authentication mechanism that gives up or answers as told.
#[derive(Clone)]
pub struct Mech {
    pub name: &'static str,
    pub fails: bool,
    pub reply: &'static [u8],
}
struct MechLogic(Mech);
static mut CHALLENGE: Vec<u8> = vec![];
#[allow(static_mut_refs)]
pub fn challenge() -> &'static mut Vec<u8> {
    unsafe { &mut CHALLENGE }
}
impl Sasl for Mech {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        vec![Box::new(MechLogic(self.clone()))]
    }
}
impl SaslLogic for MechLogic {
    fn name(&self) -> Arg<'static> {
        Arg::from_str(self.0.name)
    }
    fn reply(&mut self, input: &[u8], out: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        *challenge() = input.to_vec();
        if self.0.fails {
            return Err("broken".into());
        }
        out.push_slice(self.0.reply);
        Ok(())
    }
}

pub struct Opts {
    pub pass: Option<Line<'static>>,
    pub user: User<'static>,
    pub real: Line<'static>,
    pub nicks: Vec<Nick<'static>>,
    pub want: u8,
    pub mechs: Vec<Mech>,
    pub need: bool,
}
impl Opts {
    pub fn new() -> Opts {
        Opts { pass: None, user: User::from_str("u"), real: Line::from_str("r"), nicks: vec![Nick::from_str("Me")], want: 0, mechs: vec![], need: false }
    }
}
pub fn reg() -> Register<Opts> {
    register_as_custom(
        |o: &Opts| o.pass.clone(),
        |o| o.user.clone(),
        |o| o.real.clone(),
        |o| match from_iter(o.nicks.clone()) {
            Some(g) => Box::new(g) as Box<dyn NickGen>,
            None => nd::fail("no nicks"),
        },
        |o| {
            let want = o.want;
            Box::new(move |_: &BTreeSet<Key<'_>>| names(want).into_iter().map(Key::from_str).collect::<BTreeSet<_>>())
        },
        |o| (o.mechs.iter().collect::<SaslQueue>(), o.need),
    )
}
pub fn client() -> Client<Conn, SyncChannels> {
    let mut c = Client::new(Conn, SyncChannels);
    c.queue_mut().set_rate_limit(Duration::ZERO, 0);
    c
}
/// Lets the client handle everything there is to read, and returns the lines it sends.
pub fn turn(c: &mut Client<Conn, SyncChannels>) -> Vec<Vec<u8>> {
    let was = out();
    match c.run() {
        Ok(None) => nd::check(out() == was, "a result without a report of it"),
        Ok(Some(_)) => nd::check(out() != Out::Going, "a report without a result"),
        Err(_) => nd::fail("an I/O error out of nothing"),
    }
    world::lines()
}
pub fn say(c: &mut Client<Conn, SyncChannels>, line: &[u8]) -> Vec<Vec<u8>> {
    world::feed(line);
    turn(c)
}
fn is(l: &[Vec<u8>], want: &[&[u8]]) -> bool {
    l.len() == want.len() && l.iter().zip(want).all(|(a, b)| nd::same(a, b))
}

/// The first messages: PASS, CAP LS, USER, NICK, in order and with the given contents.
pub fn h_reg_burst() {
    let n = nd::param(0);
    let mut o = Opts::new();
    let pass = nd::flip().then(|| spec::any_member(Ty::Line, 0, n));
    o.pass = pass.as_ref().map(|p| raw::line(p).owning());
    let user = spec::any_member(Ty::User, 1, n);
    o.user = raw::user(&user).owning();
    let real = spec::any_member(Ty::Line, 0, n);
    o.real = raw::line(&real).owning();
    let nick = spec::any_member(Ty::Nick, 1, n);
    o.nicks = vec![raw::nick(&nick).owning()];
    let mut c = client();
    let r = reg();
    let Ok(_) = c.add_with_sender(Box::new(Slot), &r, &o);
    let l = turn(&mut c);
    let mut i = 0;
    let mut next = || {
        i += 1;
        if i > l.len() {
            nd::fail("a message of the initial burst is missing")
        }
        &l[i - 1]
    };
    // the last argument may or may not be written with a colon
    let tail = |got: &[u8], head: &[u8], last: &[u8]| {
        got.len() >= head.len() && nd::same(&got[..head.len()], head) && {
            let t = &got[head.len()..];
            let colon = t.len() == last.len() + 1 && t[0] == b':' && nd::same(&t[1..], last);
            let bare = !last.is_empty() && t.len() == last.len() && (last[0] != b':') & !nd::any(last, |b| b == b' ') && nd::same(t, last);
            colon || bare
        }
    };
    if let Some(p) = &pass {
        nd::check(tail(next(), b"PASS ", p), "the password differs");
    }
    nd::check(tail(next(), b"CAP LS ", b"302"), "capability negotiation does not start with CAP LS 302");
    let mut head = b"USER ".to_vec();
    head.extend_from_slice(&user);
    head.extend_from_slice(b" 8 * ");
    nd::check(tail(next(), &head, &real), "the USER message differs");
    nd::check(tail(next(), b"NICK ", &nick), "the NICK message differs");
    nd::check(i == l.len(), "more messages than the initial burst");
}

#[derive(Clone, Copy, PartialEq)]
enum Phase {
    /// Collecting the capabilities.
    Ls,
    /// Waiting for these to be acknowledged.
    Ack(u8),
    /// Authenticating.
    Auth,
    /// Negotiation has ended.
    Ended,
    /// 001 has been seen.
    Welcome,
}
struct Model {
    phase: Phase,
    out: Out,
    avail: u8,
    enabled: u8,
    /// Mechanisms left to try, the current one first.
    mechs: Vec<Mech>,
    aborting: bool,
    want: u8,
    need: bool,
    account: bool,
    nicks: Vec<&'static str>,
    nick: &'static str,
    version: bool,
    ends: usize,
    tried: bool,
}
const LS_SASL: [&str; 3] = ["sasl=X,Y", "sasl=Y", "sasl=y,W"];
impl Model {
    /// What negotiation sends when it has nothing left to do.
    fn finish(&mut self) -> Vec<Vec<u8>> {
        self.phase = Phase::Ended;
        if self.need && !self.account {
            self.out = Out::NoLogin;
            return vec![];
        }
        self.ends += 1;
        vec![b"CAP END".to_vec()]
    }
    fn auth(&mut self) -> Vec<Vec<u8>> {
        let mut v = b"AUTHENTICATE ".to_vec();
        v.extend_from_slice(self.mechs[0].name.as_bytes());
        vec![v]
    }
    fn acked(&mut self) -> Vec<Vec<u8>> {
        if self.mechs.is_empty() {
            self.finish()
        } else {
            self.phase = Phase::Auth;
            self.tried = true;
            self.auth()
        }
    }
}
fn text(c: &str, m: u8, sasl: &str) -> Vec<u8> {
    let mut v = c.as_bytes().to_vec();
    let mut first = true;
    for n in names(m) {
        if !first {
            v.push(b' ');
        }
        first = false;
        v.extend_from_slice(if n == "sasl" { sasl } else { n }.as_bytes());
    }
    v
}
/// Reads CAP REQ messages: the capabilities asked for, each once.
fn requested(l: &[Vec<u8>]) -> u8 {
    let mut m = 0;
    for x in l {
        nd::check(x.starts_with(b"CAP REQ "), "something else than CAP REQ is sent");
        nd::check(x.len() <= 510, "a CAP REQ message is too long");
        let mut t = &x[8..];
        if t.starts_with(b":") {
            t = &t[1..];
        }
        for w in t.split(|b| *b == b' ') {
            if !w.is_empty() {
                let b = bit(w);
                nd::check(m & b == 0, "a capability is requested twice");
                m |= b;
            }
        }
    }
    m
}
fn subset(of: u8) -> u8 {
    let mut m = 0;
    for i in 0..5 {
        if of >> i & 1 != 0 && nd::flip() {
            m |= 1 << i;
        }
    }
    m
}
/// Runs `steps` messages out of the groups enabled by `groups` and compares every reaction.
fn conversation(o: Opts, steps: usize, groups: usize, univ: u8) {
    let mut c = client();
    let r = reg();
    let Ok(_) = c.add_with_sender(Box::new(Slot), &r, &o);
    let burst = turn(&mut c);
    nd::check(burst.len() == 3, "the initial burst differs");
    let all = ["Me", "N2", "N3"];
    let mut m = Model {
        phase: Phase::Ls,
        out: Out::Going,
        avail: 0,
        enabled: 0,
        mechs: o.mechs.clone(),
        aborting: false,
        want: o.want,
        need: o.need && !o.mechs.is_empty(),
        account: false,
        nicks: all[1..o.nicks.len()].to_vec(),
        nick: "Me",
        version: false,
        ends: 0,
        tried: false,
    };
    let mut sasl_value = "sasl";
    // negotiation may be cut short by the greeting at any point
    let tail = if groups & 16 == 0 { 2 } else { 0 };
    for i in 0..steps + tail {
        // which messages make sense to send
        let mut can: Vec<u8> = vec![];
        if groups & 1 != 0 {
            can.extend(match m.phase {
                Phase::Ls => &b"lL"[..],
                Phase::Ack(_) => b"akd",
                _ => b"",
            });
            can.extend(b"n");
        }
        if groups & 2 != 0 {
            can.extend(b"pe");
        }
        if groups & 4 != 0 && m.phase == Phase::Auth {
            can.extend(if m.aborting { &b"6"[..] } else { b"A45808" });
            if m.account {
                can.extend(b"3");
            }
        }
        if groups & 4 != 0 && m.phase != Phase::Auth && m.tried {
            can.extend(b"9");
        }
        if groups & 8 != 0 {
            can.extend(b"uix");
        }
        if groups & 16 != 0 {
            can.extend(b"wvms");
        }
        let ev = if i < steps { can[nd::choose(can.len())] } else { b"wm"[i - steps] };
        let mut want: Vec<Vec<u8>> = vec![];
        let mut want_req = None;
        let mut line: Vec<u8>;
        match ev {
            // CAP LS, last line or not
            b'l' | b'L' => {
                let s = subset(univ);
                if s & SASL != 0 && m.avail & SASL == 0 {
                    sasl_value = LS_SASL[nd::choose(3)];
                }
                line = text(if ev == b'l' { "CAP * LS :" } else { "CAP * LS * :" }, s, sasl_value);
                m.avail |= s;
                if ev == b'l' {
                    let on_offer: &[&str] = if m.avail & SASL == 0 {
                        &[]
                    } else if sasl_value == LS_SASL[0] {
                        &["X", "Y"]
                    } else {
                        &["Y"]
                    };
                    m.mechs.retain(|x| on_offer.contains(&x.name));
                    let mut req = m.want;
                    if !m.mechs.is_empty() {
                        req |= SASL;
                    }
                    if m.mechs.is_empty() && m.need {
                        m.out = Out::NoLogin;
                    } else if req & !m.avail != 0 {
                        m.out = Out::Missing(req & !m.avail);
                    } else if req & !STS == 0 {
                        want = m.finish();
                    } else {
                        m.phase = Phase::Ack(req & !STS);
                        want_req = Some(req & !STS);
                    }
                }
            }
            b'a' => {
                let Phase::Ack(left) = m.phase else { nd::fail("model") };
                let s = subset(left);
                line = text("CAP Me ACK :", s, "sasl");
                m.enabled |= s;
                m.phase = Phase::Ack(left & !s);
                if left == s {
                    want = m.acked();
                }
            }
            b'k' => {
                let Phase::Ack(left) = m.phase else { nd::fail("model") };
                let s = subset(m.avail);
                line = text("CAP Me NAK :", s, "sasl");
                if s & left != 0 {
                    m.out = Out::Missing(s & left);
                }
            }
            b'd' => {
                let Phase::Ack(left) = m.phase else { nd::fail("model") };
                let s = subset(m.avail & !m.enabled);
                line = text("CAP Me DEL :", s, "sasl");
                m.avail &= !s;
                if s & left != 0 {
                    m.out = Out::Missing(s & left);
                }
            }
            b'n' => {
                let mut of = (univ | 16) & (m.avail | !SASL);
                let mut s = 0;
                while of != 0 {
                    s = of & of.wrapping_neg();
                    of &= !s;
                    if of == 0 || nd::flip() {
                        break;
                    }
                }
                // what is enabled stays so
                line = text("CAP Me NEW :", s, sasl_value);
                m.avail |= s;
            }
            b'p' => {
                let t = nd::u8_();
                nd::assume(spec::word(t) & (t != b':'));
                line = b"PING a".to_vec();
                line.push(t);
                let mut v = b"PONG :a".to_vec();
                v.push(t);
                want = vec![v];
            }
            // any other numeric
            b'e' => {
                let d = [nd::below(10), nd::below(10), nd::below(10)];
                let n = d[0] as u16 * 100 + d[1] as u16 * 10 + d[2] as u16;
                nd::assume((n > 10) & (n < 569) & (n != 376) & (n != 422) & (n != 432) & (n != 433) & (n != 436) & (n != 464) & (n != 465));
                line = b":s ".to_vec();
                line.extend(d.map(|d| d + b'0'));
                line.extend_from_slice(b" Me x :y");
                if n >= 400 {
                    m.out = Out::ServerError;
                }
            }
            // the server asks for the credentials
            b'A' => {
                line = b"AUTHENTICATE +".to_vec();
                let cur = m.mechs[0].clone();
                if cur.fails {
                    want = vec![b"AUTHENTICATE *".to_vec()];
                    m.mechs.retain(|x| x.name != cur.name);
                    if m.mechs.is_empty() {
                        want.extend(m.finish());
                    } else {
                        m.aborting = true;
                    }
                } else {
                    let mut v = b"AUTHENTICATE ".to_vec();
                    v.extend_from_slice(if cur.reply.is_empty() { b"+" } else { b"aGk=" });
                    want = vec![v];
                }
            }
            b'6' => {
                line = b":s 906 Me :aborted".to_vec();
                m.aborting = false;
                want = m.auth();
            }
            // 902 or 904: this one failed
            b'4' => {
                line = if nd::flip() { b":s 904 Me :no".to_vec() } else { b":s 902 Me :no".to_vec() };
                m.mechs.remove(0);
                want = if m.mechs.is_empty() { m.finish() } else { m.auth() };
            }
            b'5' => {
                line = b":s 905 Me :too long".to_vec();
                m.mechs.clear();
                want = m.finish();
            }
            // the list of mechanisms
            b'8' => {
                let (l, on): (&str, &[&str]) = match nd::choose(3) {
                    0 => ("X,Y", &["X", "Y"]),
                    1 => ("Y,W", &["Y"]),
                    _ => ("W", &[]),
                };
                line = format!(":s 908 Me {l} :are the mechanisms").into_bytes();
                let cur = m.mechs.remove(0);
                m.mechs.retain(|x| on.contains(&x.name));
                if m.mechs.is_empty() && !on.contains(&cur.name) {
                    want = m.finish();
                } else {
                    m.mechs.insert(0, cur);
                }
            }
            b'0' => {
                line = format!(":s 900 {0} {0}!u@h acc :in", m.nick).into_bytes();
                m.account = true;
                m.mechs.clear();
                want = m.finish();
            }
            b'3' => {
                line = b":s 903 Me :in".to_vec();
                m.mechs.clear();
                want = m.finish();
            }
            // stray authentication numerics
            b'9' => {
                line = match nd::choose(6) {
                    0 => b":s 902 Me :no".to_vec(),
                    1 => b":s 903 Me :in".to_vec(),
                    2 => b":s 904 Me :no".to_vec(),
                    3 => b":s 905 Me :no".to_vec(),
                    4 => b":s 906 Me :no".to_vec(),
                    _ => b":s 907 Me :no".to_vec(),
                };
            }
            // nick taken or invalid
            b'u' | b'i' => {
                line = match ev {
                    b'i' => format!(":s 432 * {} :no", m.nick),
                    _ if nd::flip() => format!(":s 433 * {} :no", m.nick),
                    _ => format!(":s 436 * {} :no", m.nick),
                }
                .into_bytes();
                if m.nicks.is_empty() {
                    m.out = Out::NoNicks;
                } else {
                    m.nick = m.nicks.remove(0);
                    want = vec![format!("NICK {}", m.nick).into_bytes()];
                }
            }
            b'x' => {
                line = if nd::flip() { b":s 464 * :no".to_vec() } else { b":s 465 * :no".to_vec() };
                m.out = Out::NoAccess;
            }
            b'w' => {
                line = format!(":s 001 {} :hi", m.nick).into_bytes();
                if m.need && !m.account {
                    m.out = Out::NoLogin;
                } else {
                    m.phase = Phase::Welcome;
                }
            }
            b'v' => {
                line = b":s 004 Me s v1 a b".to_vec();
                if m.need && !m.account {
                    m.out = Out::NoLogin;
                } else if m.phase == Phase::Welcome {
                    m.version = true;
                } else {
                    m.out = Out::Broken;
                }
            }
            b'm' => {
                line = if nd::flip() { b":s 376 Me :end".to_vec() } else { b":s 422 Me :none".to_vec() };
                m.out = if m.phase == Phase::Welcome { Out::Done } else { Out::Broken };
            }
            _ => line = b":s NOTICE * :hello".to_vec(),
        }
        let got = say(&mut c, &line);
        if m.out == Out::Going || m.out == Out::Done {
            if let Some(req) = want_req {
                nd::check(!got.is_empty(), "capabilities are not requested");
                nd::check(requested(&got) == req, "other capabilities are requested than those wanted");
            } else {
                let w: Vec<&[u8]> = want.iter().map(|v| &v[..]).collect();
                let mut ok = is(&got, &w);
                // a lone last argument may be written either way
                if ev == b'p' {
                    ok = got.len() == 1 && {
                        let g: Vec<u8> = got[0].iter().copied().filter(|b| *b != b':').collect();
                        let w: Vec<u8> = want[0].iter().copied().filter(|b| *b != b':').collect();
                        nd::same(&g, &w)
                    };
                }
                nd::check(ok, "the reaction to a message differs");
            }
        } else {
            // nothing but an abort may be said on the way out
            for g in &got {
                nd::check(&g[..] == b"AUTHENTICATE *", "a failed registration goes on");
            }
        }
        nd::check(out() == m.out, "the outcome of registration differs");
        nd::check(c.needs_run() == (m.out == Out::Going), "the handler stays or leaves when it should not");
        if m.out == Out::Done {
            done(&c, &m);
        }
        if m.out != Out::Going {
            // nothing more happens
            let got = say(&mut c, b":s 433 * Me :no");
            nd::check(got.is_empty() && out() == m.out, "a finished registration goes on");
            nd::check(unsafe { SENT } == 1, "more than one outcome is reported");
            return;
        }
    }
}
fn done(c: &Client<Conn, SyncChannels>, m: &Model) {
    let s = c.state();
    let Some(src) = s.get::<ClientSource>() else { nd::fail("the client's source is not saved") };
    nd::check(src.nick == *m.nick, "the saved nick differs");
    let Some(acc) = s.get::<Account>() else { nd::fail("the account is not saved") };
    nd::check(acc.is_some() == m.account, "the saved account differs");
    if let Some(a) = acc {
        nd::check(*a == "acc", "the saved account differs");
        nd::check(src.userhost.is_some(), "the user and host are not saved");
    }
    let Some(caps) = s.get::<Caps>() else { nd::fail("the capabilities are not saved") };
    for i in 0..5u8 {
        let k = Key::from_str(CAPS[i as usize]);
        let want = (m.avail >> i & 1 != 0).then_some(m.enabled >> i & 1 != 0);
        nd::check(caps.get_extra_raw(&k).copied() == want, "the saved capabilities differ");
    }
    nd::check(s.get::<ServerVersion>().is_some() == m.version, "the saved server version differs");
    nd::check(s.get::<ServerSource>().is_some_and(|s| s.nick == "s"), "the saved server source differs");
    nd::check(s.get::<ISupport>().is_some_and(|i| i.is_empty()), "ISUPPORT tokens out of nothing");
}
fn opts(nicks: usize, mechs: usize) -> Opts {
    let mut o = Opts::new();
    o.nicks = ["Me", "N2", "N3"][..nicks].iter().map(|n| Nick::from_str(n)).collect();
    let names = ["X", "Y"];
    for i in 0..mechs {
        o.mechs.push(Mech { name: names[i], fails: false, reply: b"hi" });
    }
    o
}
/// Capability negotiation without authentication.
pub fn h_reg_caps() {
    let univ = nd::param(1) as u8;
    let mut o = opts(1, 0);
    o.want = subset(univ | 16);
    conversation(o, nd::param(0), 1 | nd::param(2), univ);
}
/// Authentication, required or not.
pub fn h_reg_auth() {
    let n = nd::param(1);
    let mut o = opts(1, nd::choose(n + 1));
    for m in &mut o.mechs {
        m.fails = nd::flip();
        if nd::flip() {
            m.reply = b"";
        }
    }
    o.need = nd::flip();
    conversation(o, nd::param(0), 1 | 4 | 16 | nd::param(2), SASL);
}
/// Nicks and the end of registration.
pub fn h_reg_nicks() {
    let o = opts(1 + nd::choose(nd::param(1)), 0);
    conversation(o, nd::param(0), 2 | 8 | 16 | nd::param(2), 0);
}

fn begin() -> Client<Conn, SyncChannels> {
    let o = Opts::new();
    let mut c = client();
    let r = reg();
    let Ok(_) = c.add_with_sender(Box::new(Slot), &r, &o);
    turn(&mut c);
    c
}
/// What is remembered of the server's welcome, for arbitrary contents.
pub fn h_reg_info() {
    let n = nd::param(0);
    let mut c = begin();
    // the greeting
    let late = nd::flip();
    if late {
        say(&mut c, b":other NOTICE * :x");
    }
    let nick = spec::any_member(Ty::Arg, 1, n);
    let good = spec::member(Ty::Nick, &nick) && nick[..] != b"*"[..];
    let mut l = b":srv 001 ".to_vec();
    l.extend_from_slice(&nick);
    l.extend_from_slice(b" :hi");
    nd::check(say(&mut c, &l).is_empty() && out() == Out::Going, "the greeting is answered");
    let ver = nd::flip().then(|| spec::any_member(Ty::Arg, 1, n));
    if let Some(v) = &ver {
        let mut l = b":srv 004 x srv ".to_vec();
        l.extend_from_slice(v);
        l.extend_from_slice([&b""[..], b" a", b" a b", b" a b c"][nd::choose(4)]);
        nd::check(say(&mut c, &l).is_empty() && out() == Out::Going, "a 004 is answered");
    }
    let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..nd::param(1) {
        let mut l = b":srv 005 x".to_vec();
        for _ in 0..1 + nd::choose(nd::param(2)) {
            let t = spec::any_member(Ty::Arg, 1, nd::param(3));
            l.push(b' ');
            l.extend_from_slice(&t);
            let k = t.iter().position(|b| *b == b'=' || *b == b';').unwrap_or(t.len());
            if k == 0 || (k < t.len() && t[k] == b';') {
                continue;
            }
            let v = if k < t.len() { t[k + 1..].to_vec() } else { vec![] };
            let k = t[..k].to_vec();
            match want.iter_mut().find(|e| nd::same(&e.0, &k)) {
                Some(e) => e.1 = v,
                None => want.push((k, v)),
            }
        }
        if nd::flip() {
            l.extend_from_slice(b" :are supported");
        }
        nd::check(say(&mut c, &l).is_empty() && out() == Out::Going, "a 005 is answered");
    }
    nd::check(say(&mut c, b":srv 422 x :none").is_empty() && out() == Out::Done, "registration does not end with the MOTD");
    let s = c.state();
    let Some(src) = s.get::<ClientSource>() else { nd::fail("the client's source is not saved") };
    nd::check(nd::same(src.nick.as_bytes(), if good { &nick } else { b"Me" }), "the saved nick differs");
    let v = s.get::<ServerVersion>();
    nd::check(v.is_some() == ver.is_some(), "the saved server version differs");
    if let (Some(v), Some(w)) = (v, &ver) {
        nd::check(nd::same(v.as_bytes(), w), "the saved server version differs");
    }
    nd::check(s.get::<ServerSource>().is_some_and(|s| s.nick == "srv"), "the saved server source differs");
    let Some(is) = s.get::<ISupport>() else { nd::fail("the ISUPPORT tokens are not saved") };
    nd::check(is.len() == want.len(), "the number of ISUPPORT tokens differs");
    for (k, v) in &want {
        match is.get_union_raw(&raw::key(k).owning()) {
            None => nd::fail("an ISUPPORT token is missing"),
            Some((k2, v2)) => nd::check(nd::same(k, k2.as_bytes()) & nd::same(v, v2.as_bytes()), "an ISUPPORT token's value differs"),
        }
    }
}
/// Who the client is, after any sequence of refused nicks, logins and logouts.
pub fn h_reg_who() {
    let mut o = Opts::new();
    o.nicks = vec![Nick::from_str("Me"), Nick::from_str("N2")];
    let mut c = client();
    let r = reg();
    let Ok(_) = c.add_with_sender(Box::new(Slot), &r, &o);
    turn(&mut c);
    let mut nick = b"Me".to_vec();
    let mut refused = false;
    let mut welcome = false;
    let mut uh: Option<(Option<Vec<u8>>, Vec<u8>)> = None;
    let mut acc: Option<Vec<u8>> = None;
    let steps = nd::param(0);
    for i in 0..=steps {
        let mut can: Vec<u8> = b"io".to_vec();
        if !refused && !welcome {
            can.push(b'r');
        }
        if !welcome {
            can.push(b'w');
        }
        let ev = if i < steps {
            can[nd::choose(can.len())]
        } else if welcome {
            break;
        } else {
            b'w'
        };
        let l = match ev {
            b'r' => {
                refused = true;
                nick = b"N2".to_vec();
                let got = say(&mut c, b":s 433 * Me :no");
                nd::check(is(&got, &[b"NICK N2"]), "the next nick is not sent");
                continue;
            }
            b'w' => {
                welcome = true;
                match nd::choose(2) {
                    0 => b":s 001 * :hi".to_vec(),
                    _ => {
                        nick = spec::any_member(Ty::Nick, 1, 1);
                        nd::assume(nick[0] != b'*');
                        [b":s 001 ", &nick[..], b" :hi"].concat()
                    }
                }
            }
            _ => {
                nick = spec::any_member(Ty::Nick, 1, 1);
                uh = match nd::choose(3) {
                    0 => None,
                    1 => Some((None, spec::any_member(Ty::Word, 1, 1))),
                    _ => Some((Some(spec::any_member(Ty::User, 1, 1)), spec::any_member(Ty::Word, 1, 1))),
                };
                let mut l = if ev == b'i' { b":s 900 x ".to_vec() } else { b":s 901 x ".to_vec() };
                l.extend_from_slice(&nick);
                if let Some((u, h)) = &uh {
                    if let Some(u) = u {
                        l.push(b'!');
                        l.extend_from_slice(u);
                    }
                    l.push(b'@');
                    l.extend_from_slice(h);
                }
                acc = None;
                if ev == b'i' {
                    let a = spec::any_member(Ty::Arg, 1, 1);
                    l.push(b' ');
                    l.extend_from_slice(&a);
                    acc = Some(a);
                }
                l.extend_from_slice(b" :text");
                l
            }
        };
        nd::check(say(&mut c, &l).is_empty() && out() == Out::Going, "who we are is answered");
    }
    nd::check(say(&mut c, b":s 376 x :end").is_empty() && out() == Out::Done, "registration does not end with the MOTD");
    let s = c.state();
    let Some(src) = s.get::<ClientSource>() else { nd::fail("the client's source is not saved") };
    nd::check(nd::same(src.nick.as_bytes(), &nick), "the saved nick differs");
    match (&src.userhost, &uh) {
        (None, None) => (),
        (Some(a), Some((u, h))) => {
            nd::check(nd::same(a.host.as_bytes(), h), "the saved host differs");
            match (&a.user, u) {
                (None, None) => (),
                (Some(a), Some(b)) => nd::check(nd::same(a.as_bytes(), b), "the saved user differs"),
                _ => nd::fail("a user is saved or not saved wrongly"),
            }
        }
        _ => nd::fail("a user and host are saved or not saved wrongly"),
    }
    let Some(a) = s.get::<Account>() else { nd::fail("the account is not saved") };
    match (a, &acc) {
        (None, None) => (),
        (Some(a), Some(b)) => nd::check(nd::same(a.as_bytes(), b), "the saved account differs"),
        _ => nd::fail("a login is remembered or forgotten wrongly"),
    }
}
/// The length of its own source that the client assumes after registration.
pub fn h_reg_srclen() {
    let mut c = begin();
    let mut lims = [9, 10, 64];
    nd::check(say(&mut c, b":srv 001 Me :hi").is_empty(), "the greeting is answered");
    let mut l = b":srv 005 Me".to_vec();
    for (i, k) in ["NICKLEN", "USERLEN", "HOSTLEN"].into_iter().enumerate() {
        if nd::flip() {
            let v = spec::any_member(Ty::Arg, 1, nd::param(0));
            l.extend_from_slice(&[b" ", k.as_bytes(), b"=", &v[..]].concat());
            if let Some(n) = crate::handlers::number(&v, 65535) {
                lims[i] = n;
            }
        }
    }
    l.extend_from_slice(b" :are supported");
    nd::check(say(&mut c, &l).is_empty(), "a 005 is answered");
    nd::check(say(&mut c, b":srv 422 x :none").is_empty() && out() == Out::Done, "registration does not end with the MOTD");
    nd::check(c.state().source_len().get() == 2 + lims[1] + lims[2] + 2, "the assumed length of the source differs");
}
static mut WHERE: Option<(Vec<u8>, u16)> = None;
struct Where;
impl Sender for Where {
    type Value = Result<(), HandlerError>;
    fn send(&mut self, v: Self::Value) -> ControlFlow<Sent> {
        unsafe {
            OUT = match v {
                Err(HandlerError::Redirect(s, p, _)) => {
                    WHERE = Some((s.as_bytes().to_vec(), p));
                    Out::Redirect
                }
                Ok(_) => Out::Done,
                Err(_) => Out::Broken,
            };
        }
        ControlFlow::Break(Sent::Ok)
    }
}
/// Redirections to another server, for arbitrary host and port.
#[allow(static_mut_refs)]
pub fn h_reg_redirect() {
    let o = Opts::new();
    let mut c = client();
    let r = reg();
    let Ok(_) = c.add_with_sender(Box::new(Where), &r, &o);
    turn(&mut c);
    let host = spec::any_member(Ty::Arg, 1, nd::param(0));
    let digits = nd::from(1, nd::param(1));
    let mut port = 0u32;
    let mut ok = true;
    for d in &digits {
        nd::assume(spec::word(*d) & (*d != b':') & (*d != b','));
        ok &= (*d >= b'0') & (*d <= b'9');
        port = port * 10 + d.wrapping_sub(b'0') as u32;
    }
    let old = nd::flip();
    let l = if old {
        nd::assume(ok & nd::all(&host, |b| b.is_ascii_graphic() & (b != b',')));
        [b":s 005 * :Try server ", &host[..], b", port ", &digits].concat()
    } else {
        [b":s 010 * ", &host[..], b" ", &digits, b" :go away"].concat()
    };
    nd::check(say(&mut c, &l).is_empty(), "a redirection is answered");
    nd::check(out() != Out::Going && out() != Out::Done, "a redirection does not end registration");
    match unsafe { &WHERE } {
        Some((h, p)) => {
            nd::check(nd::same(h, &host), "the host redirected to differs");
            // the integer parser also takes a leading plus sign
            if ok {
                nd::check(*p as u32 == port, "the port redirected to differs");
            }
        }
        None => nd::check(!ok || port > 65535, "a redirection is not recognized"),
    }
}
