//! Deterministic in-memory transport. One `Pipe` per connection records everything that crosses the boundary.
use crate::rng::Rng;
use std::cell::RefCell;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    All,
    One,
    Upto(usize),
}
impl Chunk {
    pub fn pick(self, rng: &mut Rng, max: usize) -> usize {
        match self {
            Chunk::All => max,
            Chunk::One => max.min(1),
            Chunk::Upto(n) => {
                if max == 0 {
                    0
                } else {
                    rng.range(1, n.min(max).max(1))
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// The server answers and its bytes arrive as early as possible.
    Eager,
    /// The server does nothing until the client waits.
    Lazy,
    /// Any interleaving.
    Random,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RFault {
    Eof,
    Err,
    /// Fails once, then goes on (a read timeout)
    Once,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFault {
    Err,
    /// Fails once, then goes on (a write timeout)
    Once,
    /// The transport takes nothing any more
    Zero,
}

/// Kinds of I/O errors a transport or reader may give (neither Interrupted nor WouldBlock, which mean "try again")
pub const KINDS: [io::ErrorKind; 13] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::TimedOut,
    io::ErrorKind::NotConnected,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::NotFound,
    io::ErrorKind::Other,
];

#[derive(Clone, Debug)]
pub struct Knobs {
    pub seed: u64,
    pub policy: Policy,
    pub read_chunk: Chunk,
    pub write_chunk: Chunk,
    pub release_chunk: Chunk,
    pub pend_read: u32,
    pub pend_write: u32,
    pub pend_flush: u32,
    /// Written bytes become visible to the server on flush only (or when more than this many are held).
    pub hold: Option<usize>,
    pub cap_c2s: usize,
    pub cap_s2c: usize,
    /// Total bytes after which writing fails.
    pub write_fault: Option<(usize, WFault)>,
    /// Number of completed flushes after which flushing fails (Zero: like Err).
    pub flush_fault: Option<(usize, WFault)>,
    /// Kind of the errors injected
    pub kind: io::ErrorKind,
    /// Reply byte offset at which reading ends or fails.
    pub read_fault: Option<(usize, RFault)>,
    /// Let the server become idle between operations.
    pub settle: bool,
    /// Chance (in 1000) that the client is polled although nothing woke it
    pub spurious: u32,
    /// Each poll comes with a waker of its own; those of earlier polls are no longer heeded.
    pub fresh: bool,
    /// Chance (in 1000) that some time passes before a round, up to days
    pub leap: u32,
}

impl Knobs {
    pub fn plain() -> Knobs {
        Knobs {
            seed: 1,
            policy: Policy::Eager,
            read_chunk: Chunk::All,
            write_chunk: Chunk::All,
            release_chunk: Chunk::All,
            pend_read: 0,
            pend_write: 0,
            pend_flush: 0,
            hold: None,
            cap_c2s: usize::MAX,
            cap_s2c: usize::MAX,
            write_fault: None,
            flush_fault: None,
            kind: io::ErrorKind::ConnectionReset,
            read_fault: None,
            settle: true,
            spurious: 0,
            fresh: false,
            leap: 0,
        }
    }
    pub fn random(rng: &mut Rng) -> Knobs {
        let ch = |rng: &mut Rng| match rng.below(4) {
            0 => Chunk::One,
            1 => Chunk::All,
            2 => Chunk::Upto(3),
            _ => Chunk::Upto(40),
        };
        let pend = |rng: &mut Rng| *rng.pick(&[0u32, 0, 100, 400, 800]);
        Knobs {
            seed: rng.next(),
            policy: *rng.pick(&[Policy::Eager, Policy::Lazy, Policy::Random, Policy::Random]),
            read_chunk: ch(rng),
            write_chunk: ch(rng),
            release_chunk: ch(rng),
            pend_read: pend(rng),
            pend_write: pend(rng),
            pend_flush: pend(rng),
            hold: match rng.below(4) {
                0 => None,
                1 => Some(8192),
                2 => Some(16),
                _ => Some(usize::MAX),
            },
            settle: rng.bool(),
            kind: *rng.pick(&KINDS),
            leap: *rng.pick(&[0, 0, 30, 500]),
            ..Knobs::plain()
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct WriteEv {
    pub off: usize,
    pub len: usize,
    /// Reply bytes that had been handed to the client when this was written.
    pub exposed: usize,
}

/// Panic payload of the transport when the client loops without making progress.
pub struct SpinMarker(pub &'static str);

const SPIN_LIMIT: u64 = 100_000;

pub struct Pipe {
    pub knobs: Knobs,
    rng: Rng,
    /// All bytes accepted from the client.
    pub wire: Vec<u8>,
    /// How many of them the server can see.
    pub visible: usize,
    /// How many of them the server has taken.
    pub taken: usize,
    /// All bytes the server has sent.
    pub out: Vec<u8>,
    /// How many of them can be read.
    pub released: usize,
    /// How many of them were given to the client.
    pub exposed: usize,
    /// How many of them the client consumed.
    pub consumed: usize,
    pub server_closed: bool,
    pub client_gone: bool,
    /// The client closed its direction.
    pub shut: bool,
    pub writes: Vec<WriteEv>,
    pub flushes: usize,
    pub pends: u64,
    pub io_errors: u64,
    /// Those of them given when writing or flushing
    pub write_errors: u64,
    /// How often the client waited for bytes that were not there
    pub waits: u64,
    /// Longest stretch of unflushed bytes at such a time
    pub waited_unflushed: usize,
    pub partial_writes: u64,
    pub rwaker: Option<Waker>,
    pub wwaker: Option<Waker>,
    pub settle_waker: Option<Waker>,
    pub settle_now: bool,
    /// The last poll that blocked: reading / writing
    pub blocked_read: bool,
    pub blocked_write: bool,
    idle: u64,
    pub polls: u64,
    /// Attempts to write something
    pub write_polls: u64,
}

impl Pipe {
    pub fn new(knobs: Knobs) -> Pipe {
        Pipe {
            rng: Rng::new(knobs.seed),
            knobs,
            wire: vec![],
            visible: 0,
            taken: 0,
            out: vec![],
            released: 0,
            exposed: 0,
            consumed: 0,
            server_closed: false,
            client_gone: false,
            shut: false,
            writes: vec![],
            flushes: 0,
            pends: 0,
            io_errors: 0,
            write_errors: 0,
            waits: 0,
            waited_unflushed: 0,
            partial_writes: 0,
            rwaker: None,
            wwaker: None,
            settle_waker: None,
            settle_now: false,
            blocked_read: false,
            blocked_write: false,
            idle: 0,
            polls: 0,
            write_polls: 0,
        }
    }
    fn tick(&mut self, what: &'static str) {
        self.polls += 1;
        self.idle += 1;
        if self.idle > SPIN_LIMIT {
            self.idle = 0;
            std::panic::panic_any(SpinMarker(what));
        }
    }
    /// Limit of what can be read: EOF/err fault offsets cap it.
    fn read_limit(&self) -> usize {
        match self.knobs.read_fault {
            Some((off, _)) => self.released.min(off),
            None => self.released,
        }
    }
    pub fn wake_reader(&mut self) {
        if let Some(w) = self.rwaker.take() {
            w.wake();
        }
    }
    pub fn wake_writer(&mut self) {
        if let Some(w) = self.wwaker.take() {
            w.wake();
        }
    }
    fn pend(&mut self, p: u32, cx: &mut Context) -> bool {
        if p > 0 && self.rng.pm(p) {
            self.pends += 1;
            cx.waker().wake_by_ref();
            true
        } else {
            false
        }
    }
    /// More bytes for the client to read?
    fn fetch(&mut self, cx: &mut Context, max: usize) -> Poll<io::Result<Vec<u8>>> {
        self.tick("read");
        self.blocked_read = false;
        if self.pend(self.knobs.pend_read, cx) {
            return Poll::Pending;
        }
        let lim = self.read_limit();
        if self.exposed < lim {
            let n = self.knobs.read_chunk.pick(&mut self.rng, (lim - self.exposed).min(max));
            let v = self.out[self.exposed..self.exposed + n].to_vec();
            self.exposed += n;
            self.idle = 0;
            return Poll::Ready(Ok(v));
        }
        if let Some((off, kind)) = self.knobs.read_fault {
            if self.exposed >= off {
                self.io_errors += 1;
                if kind == RFault::Once {
                    self.knobs.read_fault = None;
                }
                return Poll::Ready(match kind {
                    RFault::Eof => Ok(vec![]),
                    RFault::Once | RFault::Err => Err(io::Error::new(self.knobs.kind, "injected read error")),
                });
            }
        }
        if self.server_closed && self.released == self.out.len() {
            self.io_errors += 1;
            return Poll::Ready(Ok(vec![]));
        }
        self.blocked_read = true;
        self.waits += 1;
        self.waited_unflushed = self.waited_unflushed.max(self.unflushed());
        self.rwaker = Some(cx.waker().clone());
        Poll::Pending
    }
    fn write(&mut self, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.tick("write");
        self.write_polls += 1;
        self.blocked_write = false;
        if self.pend(self.knobs.pend_write, cx) {
            return Poll::Pending;
        }
        if self.shut && !buf.is_empty() {
            if self.said_goodbye() {
                self.io_errors += 1;
                self.write_errors += 1;
            }
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "closed by the client")));
        }
        let mut max = buf.len();
        if let Some((off, kind)) = self.knobs.write_fault {
            if self.wire.len() >= off && !buf.is_empty() {
                self.io_errors += 1;
                self.write_errors += 1;
                if kind == WFault::Once {
                    self.knobs.write_fault = None;
                }
                return Poll::Ready(match kind {
                    WFault::Zero => Ok(0),
                    _ => Err(io::Error::new(self.knobs.kind, "injected write error")),
                });
            }
            max = max.min(off.saturating_sub(self.wire.len()));
        }
        let room = self.knobs.cap_c2s.saturating_sub(self.wire.len() - self.taken);
        if room == 0 && !buf.is_empty() {
            // A buffering layer passes on what it holds when it is full.
            self.visible = self.wire.len();
            self.blocked_write = true;
            self.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = self.knobs.write_chunk.pick(&mut self.rng, max.min(room));
        if n < buf.len() {
            self.partial_writes += 1;
        }
        if n > 0 {
            self.idle = 0;
            self.writes.push(WriteEv { off: self.wire.len(), len: n, exposed: self.exposed });
        }
        self.wire.extend_from_slice(&buf[..n]);
        match self.knobs.hold {
            None => self.visible = self.wire.len(),
            Some(cap) => {
                if self.wire.len() - self.visible > cap {
                    self.visible = self.wire.len();
                }
            }
        }
        Poll::Ready(Ok(n))
    }
    fn flush(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
        self.tick("flush");
        if self.pend(self.knobs.pend_flush, cx) {
            return Poll::Pending;
        }
        if let Some((n, kind)) = self.knobs.flush_fault {
            if self.flushes >= n {
                self.io_errors += 1;
                self.write_errors += 1;
                if kind == WFault::Once {
                    self.knobs.flush_fault = None;
                }
                return Poll::Ready(Err(io::Error::new(self.knobs.kind, "injected flush error")));
            }
        }
        self.flushes += 1;
        self.visible = self.wire.len();
        Poll::Ready(Ok(()))
    }
    /// Closes the client's direction.
    fn shutdown(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
        match self.flush(cx) {
            Poll::Ready(Ok(())) => {
                self.shut = true;
                Poll::Ready(Ok(()))
            }
            x => x,
        }
    }
    /// QUIT was the last command, and accepted
    fn said_goodbye(&self) -> bool {
        let seen = &self.out[..self.exposed];
        let line = seen[..seen.len().saturating_sub(2)].windows(2).rposition(|x| x == b"\r\n").map(|k| k + 2).unwrap_or(0);
        self.wire.ends_with(b"QUIT\r\n") && (seen[line..].starts_with(b"2") || self.server_closed)
    }
    pub fn release(&mut self, chunk: Chunk) {
        let n = chunk.pick(&mut self.rng, self.out.len() - self.released);
        self.released += n;
        self.wake_reader();
    }
    pub fn unflushed(&self) -> usize {
        self.wire.len() - self.visible
    }
}

pub struct Tr {
    pub p: Rc<RefCell<Pipe>>,
    rbuf: Vec<u8>,
    rpos: usize,
}
impl std::fmt::Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Tr")
    }
}
impl Tr {
    pub fn new(p: Rc<RefCell<Pipe>>) -> Tr {
        Tr { p, rbuf: vec![], rpos: 0 }
    }
    /// What a caller who takes the stream over can still read.
    pub fn remaining(&self) -> Vec<u8> {
        let p = self.p.borrow();
        let mut v = self.rbuf[self.rpos..].to_vec();
        v.extend_from_slice(&p.out[p.exposed..]);
        v
    }
    fn fill(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
        if self.rpos == self.rbuf.len() {
            match self.p.borrow_mut().fetch(cx, usize::MAX) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(v)) => {
                    self.rbuf = v;
                    self.rpos = 0;
                }
            }
        } else {
            self.p.borrow_mut().tick("buffered read");
        }
        Poll::Ready(Ok(()))
    }
    fn do_consume(&mut self, n: usize) {
        assert!(self.rpos + n <= self.rbuf.len(), "consumed more than was given");
        self.rpos += n;
        let mut p = self.p.borrow_mut();
        p.consumed += n;
        if n > 0 {
            p.idle = 0;
        }
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        if let Ok(mut p) = self.p.try_borrow_mut() {
            p.client_gone = true;
        }
    }
}

#[cfg(feature = "rt-tokio")]
mod io_impl {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
    impl AsyncRead for Tr {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            match self.fill(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => {
                    let n = buf.remaining().min(self.rbuf.len() - self.rpos);
                    buf.put_slice(&self.rbuf[self.rpos..self.rpos + n]);
                    self.do_consume(n);
                    Poll::Ready(Ok(()))
                }
            }
        }
    }
    impl AsyncBufRead for Tr {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            match me.fill(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => Poll::Ready(Ok(&me.rbuf[me.rpos..])),
            }
        }
        fn consume(mut self: Pin<&mut Self>, amt: usize) {
            self.do_consume(amt);
        }
    }
    impl AsyncWrite for Tr {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.p.borrow_mut().write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.p.borrow_mut().flush(cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.p.borrow_mut().shutdown(cx)
        }
    }
}
#[cfg(feature = "rt-async-std")]
mod io_impl {
    use super::*;
    use async_std::io::{BufRead, Read, Write};
    impl Read for Tr {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            match self.fill(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => {
                    let n = buf.len().min(self.rbuf.len() - self.rpos);
                    buf[..n].copy_from_slice(&self.rbuf[self.rpos..self.rpos + n]);
                    self.do_consume(n);
                    Poll::Ready(Ok(n))
                }
            }
        }
    }
    impl BufRead for Tr {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            match me.fill(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => Poll::Ready(Ok(&me.rbuf[me.rpos..])),
            }
        }
        fn consume(mut self: Pin<&mut Self>, amt: usize) {
            self.do_consume(amt);
        }
    }
    impl Write for Tr {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.p.borrow_mut().write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.p.borrow_mut().flush(cx)
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.p.borrow_mut().shutdown(cx)
        }
    }
}
