//! The other end of the connection: what the server has sent, what the client has written, and
//! which timeouts the client has set.
use crate::clock;
use crate::nd;
use std::io::{self, BufRead, Read, Write};
use std::time::Duration;
use vinezombie::client::conn::{Connection, ReadTimeout, WriteTimeout};

pub struct World {
    pub input: Vec<u8>,
    pub pos: usize,
    pub out: Vec<u8>,
    pub flushed: usize,
    pub read_to: Option<Duration>,
    pub write_to: Option<Duration>,
    pub read_sets: usize,
    pub write_sets: usize,
    /// What happens when the input is exhausted: 0 the read times out at once, 1 it blocks until
    /// the read timeout (the path ends if there is none), 2 end of stream.
    pub dry: u8,
    /// Number of reads that found no input.
    pub dry_reads: usize,
    /// At most this many bytes per read.
    pub chunk: usize,
    /// A write fails.
    pub fail_write: bool,
    /// Input that arrives later, for blocking reads.
    pub arrive: Vec<(clock::Time, Vec<u8>)>,
    /// When something was written, and the write timeout at that time.
    pub writes: Vec<(clock::Time, Option<Duration>)>,
}
pub static mut W: World = World {
    input: vec![],
    pos: 0,
    out: vec![],
    flushed: 0,
    read_to: None,
    write_to: None,
    read_sets: 0,
    write_sets: 0,
    dry: 0,
    dry_reads: 0,
    chunk: usize::MAX,
    fail_write: false,
    arrive: vec![],
    writes: vec![],
};
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { &mut W }
}
pub fn feed(line: &[u8]) {
    w().input.extend_from_slice(line);
    w().input.extend_from_slice(b"\r\n");
}
pub fn feed_raw(b: &[u8]) {
    w().input.extend_from_slice(b);
}
/// Takes what the client has written so far.
pub fn written() -> Vec<u8> {
    nd::check(w().flushed == w().out.len(), "data was written but not flushed");
    w().flushed = 0;
    std::mem::take(&mut w().out)
}
/// The lines the client has written so far.
pub fn lines() -> Vec<Vec<u8>> {
    let b = written();
    let mut r = vec![];
    let mut cur = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
            r.push(std::mem::take(&mut cur));
            i += 2;
        } else {
            nd::check(b[i] != b'\n', "a bare LF was written");
            cur.push(b[i]);
            i += 1;
        }
    }
    nd::check(cur.is_empty(), "an unterminated line was written");
    r
}

pub struct Conn;
impl Read for Conn {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Conn {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let w = w();
        if w.pos == w.input.len() {
            w.dry_reads += 1;
            if w.dry_reads > 20 {
                nd::fail("the client keeps reading after timeouts");
            }
            match w.dry {
                0 => return Err(io::ErrorKind::TimedOut.into()),
                1 => {
                    if !w.arrive.is_empty() {
                        let at = w.arrive[0].0;
                        let late = match w.read_to {
                            None => false,
                            Some(t) => !at.le(clock::now().plus(clock::Time::of(t))),
                        };
                        if !late {
                            clock::until(at);
                            let (_, b) = w.arrive.remove(0);
                            w.input.extend_from_slice(&b);
                            w.dry_reads = 0;
                            return self.fill_buf();
                        }
                    }
                    let Some(t) = w.read_to else { unsafe { nd::vz_end() } };
                    clock::pass(t);
                    return Err(if w.dry_reads % 2 == 0 { io::ErrorKind::TimedOut } else { io::ErrorKind::WouldBlock }.into());
                }
                _ => return Ok(&[]),
            }
        }
        let n = (w.input.len() - w.pos).min(w.chunk);
        Ok(&w.input[w.pos..w.pos + n])
    }
    fn consume(&mut self, n: usize) {
        nd::check(w().pos + n <= w().input.len(), "more consumed than there is");
        w().pos += n;
    }
}
impl Write for Conn {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if w().fail_write {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let to = w().write_to;
        w().writes.push((clock::now(), to));
        w().out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        w().flushed = w().out.len();
        Ok(())
    }
}
impl ReadTimeout for Conn {
    fn set_read_timeout(&mut self, t: Option<Duration>) -> io::Result<()> {
        nd::check(t != Some(Duration::ZERO), "a read timeout of zero was set");
        w().read_to = t;
        w().read_sets += 1;
        Ok(())
    }
}
impl WriteTimeout for Conn {
    fn set_write_timeout(&mut self, t: Option<Duration>) -> io::Result<()> {
        nd::check(t != Some(Duration::ZERO), "a write timeout of zero was set");
        w().write_to = t;
        w().write_sets += 1;
        Ok(())
    }
}
impl Connection for Conn {
    type BufRead = Conn;
    type Write = Conn;
    fn as_bufread(&mut self) -> &mut Conn {
        self
    }
    fn as_write(&mut self) -> &mut Conn {
        self
    }
}
