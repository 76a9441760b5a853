//! TCP connections, over stand-ins for the system calls.
use crate::nd;
use std::io::{Read, Write};
use std::time::Duration;
use vinezombie::client::conn::{ReadTimeout, ServerAddr, WriteTimeout};
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::handlers::AutoPong;
use vinezombie::client::Client;
use vinezombie::ircmsg::ClientMsg;
use vinezombie::string::{Cmd, Word};

const FD: i32 = 1000;
#[derive(Default)]
struct Sock {
    open: bool,
    addr: Vec<u8>,
    connects: usize,
    /// SO_RCVTIMEO and SO_SNDTIMEO, in seconds and microseconds.
    limits: [(i64, i64); 2],
    input: Vec<u8>,
    pos: usize,
    out: Vec<u8>,
    shut: Vec<i32>,
    /// At most this many bytes are sent or received at a time.
    chunk: usize,
    /// The limits in force when something was sent or received.
    at: Vec<(u8, (i64, i64))>,
}
static mut S: Sock = Sock { open: false, addr: vec![], connects: 0, limits: [(0, 0); 2], input: vec![], pos: 0, out: vec![], shut: vec![], chunk: 1000, at: vec![] };
#[allow(static_mut_refs)]
fn s() -> &'static mut Sock {
    unsafe { &mut S }
}
#[no_mangle]
pub unsafe extern "C" fn socket(_domain: i32, _ty: i32, _proto: i32) -> i32 {
    s().open = true;
    FD
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, addr: *const u8, len: u32) -> i32 {
    nd::check(fd == FD, "another socket was connected");
    s().addr = std::slice::from_raw_parts(addr, len as usize).to_vec();
    s().connects += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32 {
    nd::check(fd == FD && level == 1, "an option of something else was set");
    nd::check(name == 20 || name == 21, "another option was set");
    nd::check(len == 16, "the option has another size");
    let v = val as *const i64;
    s().limits[(name - 20) as usize] = (*v, *v.add(1));
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, _level: i32, name: i32, val: *mut u8, _len: *mut u32) -> i32 {
    nd::check(fd == FD && (name == 20 || name == 21), "another option was read");
    let v = val as *mut i64;
    let l = s().limits[(name - 20) as usize];
    *v = l.0;
    *v.add(1) = l.1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut u8, len: usize, _flags: i32) -> isize {
    nd::check(fd == FD, "another socket was read");
    let k = s();
    k.at.push((0, k.limits[0]));
    let n = (k.input.len() - k.pos).min(len).min(k.chunk);
    std::ptr::copy_nonoverlapping(k.input[k.pos..].as_ptr(), buf, n);
    k.pos += n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const u8, len: usize, _flags: i32) -> isize {
    nd::check(fd == FD, "another socket was written");
    let k = s();
    k.at.push((1, k.limits[1]));
    let len = len.min(k.chunk);
    k.out.extend_from_slice(std::slice::from_raw_parts(buf, len));
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
    nd::check(fd == FD, "another socket was shut down");
    s().shut.push(how);
    0
}
#[cfg(feature = "native")]
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if fd == FD {
        return 0;
    }
    #[cfg(feature = "native")]
    return syscall(72, fd, cmd, arg) as i32;
    #[cfg(not(feature = "native"))]
    {
        let _ = (cmd, arg);
        return 0;
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd == FD {
        s().open = false;
        return 0;
    }
    #[cfg(feature = "native")]
    return syscall(3, fd) as i32;
    #[cfg(not(feature = "native"))]
    return 0;
}
/// A time limit in whole microseconds.
fn limit() -> Option<Duration> {
    match nd::choose(3) {
        0 => None,
        1 => Some(Duration::from_secs(1 + nd::u32_() as u64)),
        _ => Some(Duration::from_millis(1 + nd::u8_() as u64)),
    }
}
fn want(t: Option<Duration>) -> (i64, i64) {
    t.map_or((0, 0), |t| (t.as_secs() as i64, t.subsec_micros() as i64))
}
pub fn h_tcp() {
    let port = if nd::flip() { Some(nd::u16_()) } else { None };
    let tls = nd::flip();
    let d = nd::below(10);
    let host = [b"127.0.0." as &[u8], &[b'0' + d]].concat();
    let mut a = ServerAddr::from_host(Word::from_bytes(host).unwrap()).unwrap();
    s().chunk = if nd::flip() { 1 } else { 1000 };
    a.port = port;
    a.tls = tls;
    let Ok(mut c) = a.connect_no_tls() else { nd::fail("no connection") };
    let p = port.unwrap_or(if tls { 6697 } else { 6667 });
    let b = &s().addr;
    nd::check(s().connects == 1 && b.len() == 16, "not one connection was made");
    nd::check((b[2] == (p >> 8) as u8) & (b[3] == p as u8), "connected to another port");
    nd::check((b[4..7] == [127, 0, 0]) & (b[7] == d), "connected to another address");
    // what is sent and received
    s().input = nd::upto(nd::param(0));
    let data = s().input.clone();
    let out = nd::upto(nd::param(0));
    let (r1, w1) = (limit(), limit());
    let (by_ref, late) = (nd::flip(), nd::flip());
    nd::check(c.get_ref().read_timeout().unwrap().is_none() && c.get_ref().write_timeout().unwrap().is_none(), "a new connection has a time limit");
    if by_ref {
        nd::check(c.get_ref().set_read_timeout(r1).is_ok() && c.get_ref().set_write_timeout(w1).is_ok(), "a time limit is refused");
    } else {
        nd::check(ReadTimeout::set_read_timeout(&mut c, r1).is_ok() && WriteTimeout::set_write_timeout(&mut c, w1).is_ok(), "a time limit is refused");
    }
    let check = |r: Option<Duration>, w: Option<Duration>| {
        nd::check(s().limits[0] == want(r), "the socket has another read limit");
        nd::check(s().limits[1] == want(w), "the socket has another write limit");
    };
    check(r1, w1);
    nd::check(c.get_ref().read_timeout().unwrap() == r1 && c.get_ref().write_timeout().unwrap() == w1, "the connection reports another limit");
    if late {
        nd::check(WriteTimeout::set_write_timeout(c.get_mut(), r1).is_ok(), "a time limit is refused");
        check(r1, r1);
        nd::check(ReadTimeout::set_read_timeout(c.get_mut(), None).is_ok(), "a time limit is refused");
        check(None, r1);
    }
    let mut got = vec![];
    nd::check(c.get_mut().write_all(&out).is_ok() && c.get_mut().flush().is_ok(), "writing fails");
    nd::check(nd::same(&s().out, &out), "other bytes were sent");
    nd::check(c.read_to_end(&mut got).is_ok(), "reading fails");
    nd::check(nd::same(&got, &data), "other bytes were received");
    let how = nd::choose(3);
    let h = [std::net::Shutdown::Read, std::net::Shutdown::Write, std::net::Shutdown::Both][how];
    nd::check(c.get_ref().shutdown(h).is_ok() && s().shut[..] == [how as i32], "another half was shut down");
    drop(c);
    nd::check(!s().open, "the socket is left open");
}

/// An address that is not text leads nowhere.
pub fn h_tcp_badaddr() {
    let b = nd::from(1, nd::param(0));
    nd::assume(!crate::spec::utf8(&b));
    let Ok(w) = Word::from_bytes(b) else { unsafe { nd::vz_end() } };
    let mut a = ServerAddr::from_host(w).unwrap();
    a.tls = nd::flip();
    match a.connect_no_tls() {
        Ok(_) => nd::fail("connected to an address that is not text"),
        Err(e) => nd::check(e.kind() == std::io::ErrorKind::InvalidInput, "another error"),
    }
    nd::check(s().connects == 0, "a connection was attempted");
}
/// A client over TCP.
pub fn h_tcp_run() {
    let a = ServerAddr::from_host(Word::from_str("127.0.0.1")).unwrap();
    let Ok(c) = a.connect_no_tls() else { nd::fail("no connection") };
    s().chunk = if nd::flip() { 1 } else { 1000 };
    let b = nd::u8_();
    nd::assume((b > b' ') & (b < 0x7f) & (b != b':'));
    s().input = [b"PING " as &[u8], &[b], b"\r\n"].concat();
    let (r, w) = (limit(), limit());
    let floor = |t: Option<Duration>| t.map(|t| t.max(Duration::from_secs(1)));
    let mut c = Client::new(c, SyncChannels);
    let late = nd::flip();
    if !late {
        c.set_read_timeout(r).set_write_timeout(w);
    }
    c.queue_mut().edit().push(ClientMsg::new_cmd(Cmd::from_str("A")));
    if late {
        c.set_write_timeout(w).set_read_timeout(r);
    }
    let Ok(_) = c.add((), AutoPong);
    let e = match c.run() {
        Err(e) => e.kind(),
        _ => nd::fail("a run goes on after the end of the stream"),
    };
    nd::check(e == std::io::ErrorKind::UnexpectedEof, "another error");
    let out = [b"A\r\nPONG " as &[u8], &[b], b"\r\n"].concat();
    nd::check(nd::same(&s().out, &out), "other messages were sent");
    for (k, l) in &s().at {
        if *k == 1 {
            nd::check(*l == want(floor(w)), "sent under another limit");
        } else if r.is_none() {
            nd::check(*l == (0, 0), "received under another limit");
        } else {
            nd::check((*l != (0, 0)) & (*l <= want(floor(r))), "received without a limit, or under a longer one");
        }
    }
    drop(c);
    nd::check(!s().open, "the socket is left open");
}
