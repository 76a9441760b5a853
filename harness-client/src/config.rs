//! Server addresses and the registration defaults.
use crate::nd;
use crate::register::Mech;
use crate::spec::{self, raw, Ty};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vinezombie::client::auth::{Clear, Secret};
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::register::{common_caps, default_caps, register_as_bot, register_as_client, Options, Register};
use vinezombie::string::{Key, Line, Nick, User, Word};

#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn tape(a: &ServerAddr<'_>) -> Vec<u8> {
    let mut t = Tape::default();
    a.hash(&mut t);
    t.0
}
fn addr(n: usize) -> (Vec<u8>, ServerAddr<'static>) {
    let v = spec::any_member(Ty::Word, 0, n);
    let port = if nd::flip() { Some(nd::u16_()) } else { None };
    (v.clone(), ServerAddr { address: raw::word(&v).owning(), tls: nd::flip(), port })
}
fn number(a: &ServerAddr<'_>) -> u16 {
    match a.port {
        Some(p) => p,
        None => [6667, 6697][a.tls as usize],
    }
}
pub fn h_server_addr() {
    let (va, a) = addr(nd::param(0));
    nd::check(a.port_num() == number(&a), "the port differs");
    let (vb, b) = addr(nd::param(0));
    let eq = nd::same(&va, &vb) & (a.tls == b.tls) & (number(&a) == number(&b));
    nd::check((a == b) == eq, "equality differs");
    nd::check((b == a) == eq && a == a.clone(), "equality is not symmetric");
    if eq {
        nd::check(nd::same(&tape(&a), &tape(&b)), "equal addresses hash differently");
    }
}
pub fn h_server_addr_text() {
    let (v, mut a) = addr(nd::param(0));
    // the digits themselves are std's business
    const PORTS: [u16; 12] = [0, 7, 10, 80, 194, 999, 1000, 6667, 6697, 9999, 10000, 65535];
    if a.port.is_some() {
        a.port = Some(PORTS[nd::choose(12)]);
    }
    let mut want = v;
    if a.tls {
        want.push(b'+');
    }
    let p = number(&a);
    let digits = 1 + (p >= 10) as usize + (p >= 100) as usize + (p >= 1000) as usize + (p >= 10000) as usize;
    let digits = unsafe { nd::vz_concretize(digits as u64) } as usize;
    let mut d = 1u16;
    for _ in 1..digits {
        d *= 10;
    }
    for _ in 0..digits {
        want.push(b'0' + (p / d % 10) as u8);
        d /= 10;
    }
    let got: Word<'static> = a.to_word();
    nd::check(nd::same(got.as_bytes(), &want), "the text of an address differs");
    let Ok(h) = ServerAddr::from_host(raw::word(&want)) else { nd::fail("a host is refused") };
    nd::check(h.tls && h.port.is_none() && nd::same(h.address.as_bytes(), &want) && h.port_num() == 6697, "a host becomes a different address");
}

const NAMES: [&str; 5] = ["batch", "message-tags", "server-time", "x", "zz"];
fn set() -> (u8, BTreeSet<Key<'static>>) {
    let m = nd::choose(32) as u8;
    (m, NAMES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| Key::from_str(n)).collect())
}
/// Those every client asks for.
const COMMON: u8 = 0b00110;
fn expected(want: u8, avail: u8, add: bool, require: bool) -> u8 {
    let mut r = if require { want } else { want & avail };
    if add {
        r |= COMMON & avail;
    }
    r
}
fn same_caps(got: &BTreeSet<Key<'static>>, want: u8) -> bool {
    got.len() == want.count_ones() as usize && NAMES.iter().enumerate().all(|(i, n)| got.contains(&Key::from_str(n)) == (want >> i & 1 == 1))
}
pub fn h_reg_defaults_caps() {
    let (want, caps) = set();
    let (avail, there) = set();
    let c = common_caps();
    for (i, n) in NAMES.iter().enumerate() {
        nd::check(c.contains(&Key::from_str(n)) == (COMMON >> i & 1 == 1), "the common capabilities differ");
    }
    let which = nd::choose(6);
    let got = match which {
        0..=3 => default_caps(caps, which & 1 == 1, which & 2 == 2).require(&there),
        4 => {
            let mut o = Options::<Clear, Mech>::new();
            o.caps = caps;
            (register_as_client::<Clear, Mech>().caps)(&o).require(&there)
        }
        _ => {
            let mut o = Options::<Clear, Mech>::new();
            o.caps = caps;
            (register_as_bot::<Clear, Mech>().caps)(&o).require(&there)
        }
    };
    let (add, require) = match which {
        0..=3 => (which & 1 == 1, which & 2 == 2),
        4 => (true, false),
        _ => (false, true),
    };
    nd::check(same_caps(&got, expected(want, avail, add, require)), "other capabilities are asked for");
}
/// What the ready-made registrations send first and pass on.
pub fn h_reg_defaults() {
    let n = nd::param(0);
    let mut o = Options::<Clear, Mech>::default();
    nd::check(o.pass.is_none() && o.nicks.is_empty() && o.username.is_none() && o.realname.is_none() && o.sasl.is_empty() && !o.allow_sasl_fail && o.caps.is_empty(), "options are not blank");
    let pass = nd::flip().then(|| spec::any_member(Ty::Line, 0, n));
    if let Some(p) = &pass {
        if nd::flip() {
            nd::check(o.set_pass(raw::line(p).owning()).is_ok(), "a password is refused");
        } else {
            o.pass = Some(Secret::new(raw::line(p).owning().secret()));
        }
    }
    let user = nd::flip().then(|| spec::any_member(Ty::User, 1, n));
    o.username = user.as_ref().map(|u| raw::user(u).owning());
    let real = nd::flip().then(|| spec::any_member(Ty::Line, 0, n));
    o.realname = real.as_ref().map(|u| raw::line(u).owning());
    let nicks = nd::choose(3);
    o.nicks = [Nick::from_str("Me"), Nick::from_str("You")][..nicks].to_vec();
    let mechs = nd::choose(3);
    o.allow_sasl_fail = nd::flip();
    for i in 0..mechs {
        let m = Mech { name: ["A", "B"][i], fails: false, reply: b"" };
        o.add_sasl(m);
    }
    let bot = nd::flip();
    let reg: Register<Options<Clear, Mech>> = if bot { register_as_bot() } else { register_as_client() };
    let (mut auths, need) = (reg.auth)(&o);
    nd::check(need == (mechs > 0 && !o.allow_sasl_fail), "authentication is or is not required");
    nd::check(auths.len() == mechs && auths.is_empty() == (mechs == 0), "authenticators are lost or added");
    for i in 0..mechs {
        let Some(l) = auths.pop() else { nd::fail("an authenticator is lost") };
        nd::check(l.name().as_bytes() == ["A", "B"][i].as_bytes(), "authenticators are in a different order");
    }
    let mut out: Vec<Vec<u8>> = vec![];
    let (nick, more) = reg.register_msgs(&o, |m: vinezombie::ircmsg::ClientMsg<'static>| {
        let mut v = vec![];
        m.write_to(&mut v).unwrap();
        out.push(v);
    });
    nd::check(more.is_some(), "there is no fallback nickname");
    if nicks > 0 {
        nd::check(nick == Nick::from_str("Me"), "the nickname differs");
    } else {
        nd::check(nick.as_bytes().starts_with(if bot { b"VNZB" } else { b"Guest" }), "the nickname differs");
    }
    let mut i = 0;
    if let Some(p) = &pass {
        nd::check(out.len() > 0 && arg_line(&out[0], b"PASS", p), "the password differs");
        i = 1;
    }
    nd::check(out.len() == i + 3, "other messages are sent");
    nd::check(out[i] == b"CAP LS 302", "negotiation is not started");
    let mut w = b"USER ".to_vec();
    match &user {
        Some(u) => w.extend_from_slice(u),
        None => w.extend_from_slice(if bot { b"vnzb_bot" } else { b"user" }),
    }
    w.extend_from_slice(b" 8 *");
    let d = if bot { b"Vinezombie Bot".to_vec() } else { b"???".to_vec() };
    nd::check(arg_line(&out[i + 1], &w, real.as_ref().unwrap_or(&d)), "the user message differs");
    let mut w = b"NICK ".to_vec();
    w.extend_from_slice(nick.as_bytes());
    nd::check(nd::same(&out[i + 2], &w), "the nickname sent differs");
    let _: (Option<User<'static>>, Option<Line<'static>>) = (o.username, o.realname);
}
/// `line` is `head`, then `last` as the last argument, with or without the colon where it is optional.
fn arg_line(line: &[u8], head: &[u8], last: &[u8]) -> bool {
    let mut a = head.to_vec();
    a.push(b' ');
    let mut b = a.clone();
    a.extend_from_slice(last);
    b.push(b':');
    b.extend_from_slice(last);
    let plain = !last.is_empty() && !(last[0] == b':') && nd::all(last, |c| c != b' ');
    nd::same(line, &b) || (nd::same(line, &a) && plain)
}
