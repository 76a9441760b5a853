//! Framing over asynchronous streams and over tokio's codec buffers.
use crate::nd;
use crate::spec::{self, raw, Ty};
use std::future::Future;
use std::io::{Error, ErrorKind, Result};
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
use tokio_util::bytes::BytesMut;
use tokio_util::codec::{Decoder, Encoder};
use vinezombie::ircmsg::*;

/// Lines end with a newline; carriage returns before it belong to it; the position after the last.
fn ref_lines(data: &[u8]) -> (Vec<&[u8]>, usize) {
    let mut out = Vec::new();
    let mut start = 0;
    for i in 0..data.len() {
        if data[i] == b'\n' {
            let mut e = i;
            while e > start && data[e - 1] == b'\r' {
                e -= 1;
            }
            out.push(&data[start..e]);
            start = i + 1;
        }
    }
    (out, start)
}
fn blank(b: u8) -> bool {
    (b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r') | (b == 12)
}
fn trim(mut l: &[u8]) -> &[u8] {
    while !l.is_empty() && blank(l[0]) {
        l = &l[1..];
    }
    l
}
macro_rules! decode {
    ($Codec:ident, $Msg:ident) => {{
        let data = nd::from(1, nd::param(0));
        let (lines, rest) = ref_lines(&data);
        // white space in front is skipped, and lines of nothing else carry no message
        let lines: Vec<&[u8]> = lines.into_iter().map(trim).filter(|l| !l.is_empty()).collect();
        let mut src = BytesMut::new();
        let mut fed = 0;
        let mut got = 0;
        while fed < data.len() {
            let k = 1 + nd::choose(data.len() - fed);
            src.extend_from_slice(&data[fed..fed + k]);
            fed += k;
            loop {
                match $Codec.decode(&mut src) {
                    Ok(None) => break,
                    Ok(Some(m)) => {
                        nd::check(got < lines.len(), "a message appeared that is not in the stream");
                        nd::check(nd::all(lines[got], spec::line), "a message was decoded from an invalid line");
                        match $Msg::parse(raw::line(lines[got]).owning()) {
                            Ok(e) => nd::check(e == m, "a message differs from its line"),
                            Err(_) => nd::fail("a message was decoded from a line that is not one"),
                        }
                        got += 1;
                        nd::cover(1);
                    }
                    Err(_) => {
                        let cur: &[u8] = if got < lines.len() { lines[got] } else { &data[rest..] };
                        if nd::all(cur, spec::line) {
                            nd::check(got < lines.len(), "an incomplete message was refused");
                            nd::check($Msg::parse(raw::line(cur).owning()).is_err(), "a valid message was refused");
                        }
                        nd::cover(2);
                        return;
                    }
                }
            }
        }
        nd::check(got == lines.len(), "a message was lost");
        // what remains is the last, incomplete line
        let mut from = rest;
        while from < data.len() && blank(data[from]) {
            from += 1;
        }
        nd::check(nd::same(&src, &data[from..]), "the incomplete message is not kept");
        nd::cover(3);
    }};
}
pub fn h_decode() {
    if nd::flip() {
        decode!(ClientCodec, ServerMsg)
    } else {
        decode!(ServerCodec, ClientMsg)
    }
}
/// Lines around the maximum length.
pub fn h_decode_long() {
    let server = nd::flip();
    let max = if server { ServerMsg::MAX_LEN } else { ClientMsg::MAX_LEN };
    let k = max - 3 + nd::choose(6); // bytes in the line, terminator included
    let crlf = nd::flip();
    let mut data = vec![b'A'; k];
    data[k - 1] = b'\n';
    if crlf {
        data[k - 2] = b'\r';
    }
    let text = k - 1 - crlf as usize;
    data.extend_from_slice(b"B\r\n");
    let cut = [1, k - 1, k, k + 1][nd::choose(4)];
    let mut src = BytesMut::new();
    let mut res = vec![];
    for part in [&data[..cut], &data[cut..]] {
        src.extend_from_slice(part);
        loop {
            let r = if server {
                ClientCodec.decode(&mut src).map(|o| o.map(|m| m.kind.len()))
            } else {
                ServerCodec.decode(&mut src).map(|o| o.map(|m| m.cmd.len()))
            };
            match r {
                Ok(Some(l)) => res.push(l),
                Ok(None) => break,
                Err(_) => {
                    nd::check(k > max && res.is_empty(), "a line within the limit was refused");
                    nd::cover(1);
                    return;
                }
            }
        }
    }
    nd::check(k <= max, "a line beyond the limit was read");
    nd::check(res.len() == 2 && res[0] == text && res[1] == 1, "a long line was cut or merged");
    nd::cover(2);
}
fn some_client() -> (ClientMsg<'static>, Vec<u8>) {
    let w = spec::any_member(Ty::Arg, 1, nd::param(0));
    let l = spec::any_member(Ty::Line, 0, nd::param(0));
    let mut m = ClientMsg::new_cmd(vinezombie::string::Cmd::from_str("AB"));
    m.args.edit().add_word(raw::arg(&w).owning());
    m.args.edit().add(raw::line(&l).owning());
    let mut out = vec![];
    nd::check(ClientCodec::write_to(&m, &mut out).is_ok(), "writing into memory fails");
    (m, out)
}
/// Encoding appends the written form and a line terminator.
pub fn h_encode() {
    let pre = nd::upto(1);
    let mut dst = BytesMut::from(&pre[..]);
    let (m, mut line) = some_client();
    let ok = if nd::flip() {
        ClientCodec.encode(m, &mut dst).is_ok()
    } else {
        let mut s = ServerMsg::new_cmd(vinezombie::string::Cmd::from_str("AB"));
        s.args = m.args;
        if nd::flip() {
            s.source = Some(SharedSource::new(Source::new_server(vinezombie::string::Nick::from_str("x"))));
        }
        line.clear();
        let _ = ServerCodec::write_to(&s, &mut line);
        ServerCodec.encode(s, &mut dst).is_ok()
    };
    nd::check(ok, "encoding fails");
    nd::check(dst.len() == pre.len() + line.len() + 2, "the encoded line has another length");
    nd::check(nd::same(&dst[..pre.len()], &pre) & nd::same(&dst[pre.len()..pre.len() + line.len()], &line) & nd::same(&dst[dst.len() - 2..], b"\r\n"), "the encoded line differs");
    nd::cover(1);
}

/// A stream that arrives in arbitrary pieces, not ready at times.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    avail: usize,
    faults: usize,
    eof: bool,
}
impl AsyncRead for Pieces<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let n = match self.as_mut().poll_fill_buf(cx) {
            Poll::Ready(Ok(s)) => {
                let n = s.len().min(buf.remaining());
                buf.put_slice(&s[..n]);
                n
            }
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        self.consume(n);
        Poll::Ready(Ok(()))
    }
}
impl AsyncBufRead for Pieces<'_> {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        let me = self.get_mut();
        if me.avail == 0 {
            let left = me.data.len() - me.pos;
            if me.faults > 0 {
                match nd::choose(4) {
                    0 => (),
                    1 => {
                        me.faults -= 1;
                        return Poll::Pending;
                    }
                    2 => {
                        me.faults -= 1;
                        return Poll::Ready(Err(Error::from(ErrorKind::WouldBlock)));
                    }
                    _ => {
                        me.faults -= 1;
                        me.eof = true;
                        return Poll::Ready(Ok(&[]));
                    }
                }
            }
            if left == 0 {
                me.eof = true;
                return Poll::Ready(Ok(&[]));
            }
            me.avail = 1 + nd::choose(left);
        }
        Poll::Ready(Ok(&me.data[me.pos..me.pos + me.avail]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        let me = self.get_mut();
        me.pos += n;
        me.avail -= n;
    }
}
/// Polls until ready; when it is not, drops the future if `abandon`.
fn drive<F: Future>(f: F, abandon: bool) -> Option<F::Output> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..20 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
        if abandon {
            return None;
        }
    }
    nd::fail("an operation does not finish")
}
macro_rules! read {
    ($Codec:ident, $Msg:ident) => {{
        let data = nd::from(1, nd::param(0));
        let borrow = nd::flip();
        let abandon = nd::flip();
        let (lines, rest) = ref_lines(&data);
        let lines: Vec<&[u8]> = lines.into_iter().filter(|l| !l.is_empty()).collect();
        let mut p = Pieces { data: &data, pos: 0, avail: 0, faults: nd::param(1), eof: false };
        let mut buf = Vec::new();
        let mut got = 0;
        let mut stuck = 0;
        loop {
            p.eof = false;
            let r: Option<Result<$Msg<'static>>> = if borrow {
                let r = drive(async { $Codec::read_borrowing_from_tokio(&mut p, &mut buf).await.map(|m| m.owning()) }, abandon);
                if let Some(Ok(_)) = r {
                    buf.clear();
                }
                r
            } else {
                drive($Codec::read_owning_from_tokio(&mut p, &mut buf), abandon)
            };
            match r {
                None => nd::cover(5),
                Some(Ok(m)) => {
                    nd::check(got < lines.len(), "a message appeared that is not in the stream");
                    nd::check(nd::all(lines[got], spec::line), "a message was read from an invalid line");
                    match $Msg::parse(raw::line(lines[got]).owning()) {
                        Ok(e) => nd::check(e == m, "a message differs from its line"),
                        Err(_) => nd::fail("a message was read from a line that is not one"),
                    }
                    got += 1;
                    nd::cover(1);
                }
                Some(Err(e)) => match e.kind() {
                    ErrorKind::WouldBlock => nd::cover(2),
                    ErrorKind::UnexpectedEof => {
                        nd::check(p.eof, "end of file reported before the end");
                        if p.pos == data.len() {
                            nd::check(got == lines.len(), "a message was lost");
                            nd::check(nd::same(&buf, &data[rest..]), "the partial message was not kept");
                            nd::cover(3);
                            return;
                        }
                        stuck += 1;
                        nd::check(stuck < 8, "reading does not progress");
                    }
                    _ => {
                        let cur: &[u8] = if got < lines.len() { lines[got] } else { &data[rest..] };
                        if got < lines.len() && nd::all(cur, spec::line) {
                            nd::check($Msg::parse(raw::line(cur).owning()).is_err(), "a valid message was refused");
                        } else if got == lines.len() {
                            nd::check(nd::any(cur, |b| !spec::line(b)), "an incomplete message was refused");
                        }
                        nd::cover(4);
                        return;
                    }
                },
            }
        }
    }};
}
pub fn h_aread() {
    if nd::flip() {
        read!(ClientCodec, ServerMsg)
    } else {
        read!(ServerCodec, ClientMsg)
    }
}
/// A writer that takes what it likes, is not ready at times, is interrupted, and may fail.
struct Sink {
    out: Vec<u8>,
    faults: usize,
    broken: bool,
    sync: bool,
}
impl Sink {
    fn take(&mut self, b: &[u8]) -> Poll<Result<usize>> {
        if self.faults > 0 {
            match nd::choose(4) {
                0 => (),
                1 => {
                    self.faults -= 1;
                    return if self.sync { Poll::Ready(Err(ErrorKind::Interrupted.into())) } else { Poll::Pending };
                }
                2 => {
                    self.broken = true;
                    return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
                }
                _ => {
                    self.broken = true;
                    return Poll::Ready(Ok(0));
                }
            }
        }
        nd::check(!b.is_empty(), "an empty write");
        let n = 1 + nd::choose(b.len().min(3));
        let n = if n == 3 { b.len() } else { n.min(b.len()) };
        self.out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Sink {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        self.get_mut().take(b)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        match self.take(b) {
            Poll::Ready(r) => r,
            Poll::Pending => nd::fail("not ready"),
        }
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
/// Sending writes exactly the line, and says so.
pub fn h_send() {
    let sync = nd::flip();
    let mut s = Sink { out: vec![], faults: nd::param(1), broken: false, sync };
    let (m, mut want) = some_client();
    want.extend_from_slice(b"\r\n");
    let pre = nd::upto(1);
    let mut buf = pre.clone();
    let server = nd::flip();
    let r = if server {
        let mut sm = ServerMsg::new_cmd(vinezombie::string::Cmd::from_str("AB"));
        sm.args = m.args;
        if sync {
            ServerCodec::send_to(&sm, &mut s, &mut buf)
        } else {
            drive(ServerCodec::send_to_tokio(&sm, &mut s, &mut buf), false).unwrap()
        }
    } else if sync {
        ClientCodec::send_to(&m, &mut s, &mut buf)
    } else {
        drive(ClientCodec::send_to_tokio(&m, &mut s, &mut buf), false).unwrap()
    };
    let mut full = pre;
    full.extend_from_slice(&want);
    match r {
        Ok(()) => {
            nd::check(!s.broken, "a failed write is reported as success");
            nd::check(nd::same(&s.out, &full), "what was sent is not the message");
            nd::check(buf.is_empty(), "the buffer is not cleared after sending");
            nd::cover(1);
        }
        Err(_) => {
            nd::check(s.broken, "a write is reported as failed");
            nd::check(s.out.len() < full.len() && nd::same(&s.out, &full[..s.out.len()]), "something else was written");
            nd::cover(2);
        }
    }
}
