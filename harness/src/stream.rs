//! Framing: messages read from a byte stream do not depend on how the stream is cut.
use crate::nd;
use crate::spec::{self, raw};
use std::io::{BufRead, Error, ErrorKind, Read, Result};
use vinezombie::ircmsg::*;

/// A source of bytes that arrives in arbitrary pieces, with transient failures in between.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    avail: usize,
    faults: usize,
    eof: bool,
}
impl<'a> Pieces<'a> {
    fn new(data: &'a [u8], faults: usize) -> Self {
        Pieces { data, pos: 0, avail: 0, faults, eof: false }
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = {
            let s = self.fill_buf()?;
            let n = s.len().min(buf.len());
            buf[..n].copy_from_slice(&s[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        if self.avail == 0 {
            let left = self.data.len() - self.pos;
            if self.faults > 0 {
                match nd::choose(4) {
                    0 => (),
                    1 => {
                        self.faults -= 1;
                        return Err(Error::from(ErrorKind::WouldBlock));
                    }
                    2 => {
                        self.faults -= 1;
                        return Err(Error::from(ErrorKind::Interrupted));
                    }
                    _ => {
                        // an end-of-file that later goes away
                        self.faults -= 1;
                        self.eof = true;
                        return Ok(&[]);
                    }
                }
            }
            if left == 0 {
                self.eof = true;
                return Ok(&[]);
            }
            self.avail = 1 + nd::choose(left);
        }
        Ok(&self.data[self.pos..self.pos + self.avail])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.avail -= n;
    }
}

/// Reference framing: lines end with a newline; carriage returns before it belong to it;
/// empty lines carry no message. Returns the lines and what is left.
fn ref_lines(data: &[u8]) -> (Vec<Vec<u8>>, usize) {
    let mut out = Vec::new();
    let mut start = 0;
    for i in 0..data.len() {
        if data[i] == b'\n' {
            let mut e = i;
            while e > start && data[e - 1] == b'\r' {
                e -= 1;
            }
            if e > start {
                out.push(data[start..e].to_vec());
            }
            start = i + 1;
        }
    }
    (out, start)
}

macro_rules! stream {
    ($Codec:ident, $Msg:ident) => {{
        // letters are what messages are made of here; terminators go anywhere
        let n = nd::param(0);
        let data = nd::from(1, n);
        let borrow = nd::flip();
        let (lines, rest) = ref_lines(&data);
        let mut p = Pieces::new(&data, nd::param(1));
        let mut buf = Vec::new();
        let mut got = 0;
        let mut stuck = 0;
        loop {
            p.eof = false;
            let r: Result<Option<$Msg<'static>>> = if borrow {
                let r = match $Codec::read_borrowing_from(&mut p, &mut buf) {
                    Ok(m) => Ok(m.owning()),
                    Err(e) => Err(e),
                };
                if r.is_ok() {
                    buf.clear();
                }
                r.map(Some)
            } else {
                $Codec::read_owning_from(&mut p, &mut buf).map(Some)
            };
            match r {
                Ok(Some(m)) => {
                    nd::check(got < lines.len(), "a message appeared that is not in the stream");
                    match $Msg::parse(vinezombie::string::Line::from_bytes(lines[got].clone()).unwrap_or_default()) {
                        Ok(e) => nd::check(e == m, "a message differs from its line"),
                        Err(_) => nd::fail("a message was read from a line that is not one"),
                    }
                    got += 1;
                    nd::cover(1);
                }
                Ok(None) => (),
                Err(e) => match e.kind() {
                    ErrorKind::WouldBlock => {
                        nd::cover(2);
                    }
                    ErrorKind::UnexpectedEof => {
                        nd::check(p.eof, "end of file reported before the end");
                        if p.pos == data.len() {
                            // the end: everything complete was delivered, the rest is kept
                            nd::check(got == lines.len(), "a message was lost");
                            nd::check(nd::same(&buf, &data[rest..]), "the partial message was not kept");
                            nd::cover(3);
                            return;
                        }
                        stuck += 1;
                        nd::check(stuck < 8, "reading does not progress");
                    }
                    ErrorKind::Interrupted => nd::fail("interruption was not retried"),
                    _ => {
                        // a parse error must be about the line at hand
                        let cur: &[u8] = if got < lines.len() { &lines[got] } else { &data[rest..] };
                        if got < lines.len() && nd::all(cur, spec::line) {
                            nd::check($Msg::parse(raw::line(cur)).is_err(), "a valid message was refused");
                        } else if got == lines.len() {
                            // only a carriage return or NUL at the end of what has arrived is refused early
                            nd::check(nd::any(cur, |b| !spec::line(b)), "an incomplete message was refused");
                        }
                        nd::cover(4);
                        return;
                    }
                },
            }
        }
    }};
}

pub fn h_stream_client() {
    stream!(ClientCodec, ServerMsg)
}
pub fn h_stream_server() {
    stream!(ServerCodec, ClientMsg)
}

/// Lines around the maximum length: accepted up to it, refused beyond, never read past it.
pub fn h_stream_long() {
    let server = nd::flip();
    let max = if server { ServerMsg::MAX_LEN } else { ClientMsg::MAX_LEN };
    let k = max - 3 + nd::choose(6); // bytes in the line, terminator included
    let crlf = nd::flip();
    let mut data = vec![b'A'; k];
    data[k - 1] = b'\n';
    if crlf {
        data[k - 2] = b'\r';
    }
    let text = k - 1 - crlf as usize;
    data.extend_from_slice(b"B\r\n");
    let mut p: &[u8] = &data;
    let mut buf = Vec::new();
    if server {
        let r = ClientCodec::read_owning_from(&mut p, &mut buf);
        match r {
            Ok(m) => nd::check(k <= max && m.kind.len() == text, "a line beyond the limit was read"),
            Err(_) => nd::check(k > max, "a line within the limit was refused"),
        }
    } else {
        let r = ServerCodec::read_owning_from(&mut p, &mut buf);
        match r {
            Ok(m) => nd::check(k <= max && m.cmd.len() == text, "a line beyond the limit was read"),
            Err(_) => nd::check(k > max, "a line within the limit was refused"),
        }
    }
    nd::check(data.len() - p.len() == k.min(max), "more was consumed than the message");
    nd::cover(1);
}
