//! Message sources (readers) with scripted behaviour and a monitor of how they are treated.
use crate::net::Chunk;
use crate::rng::Rng;
use std::io;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[derive(Clone, Debug, PartialEq)]
pub struct SourceSpec {
    pub seed: u64,
    pub chunk: Chunk,
    pub pend: u32,
    /// Fail after this many bytes
    pub fail_at: Option<usize>,
    /// with this kind of error
    pub kind: io::ErrorKind,
    /// but only once: the rest follows if it is read on
    pub once: bool,
}
impl SourceSpec {
    pub fn random(rng: &mut Rng) -> SourceSpec {
        SourceSpec {
            seed: rng.next(),
            chunk: *rng.pick(&[Chunk::One, Chunk::All, Chunk::Upto(3), Chunk::Upto(100)]),
            pend: *rng.pick(&[0, 0, 200, 700]),
            fail_at: None,
            kind: *rng.pick(&crate::net::KINDS),
            once: false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub polls: u64,
    pub given: usize,
    pub addrs: Vec<usize>,
    pub drops: u64,
    pub polled_after_drop: bool,
    pub self_ptr_broken: bool,
    pub failed: bool,
    pub eof_seen: u64,
}
pub struct Probe(Arc<Mutex<Report>>);
impl Probe {
    pub fn report(&self) -> Report {
        self.0.lock().unwrap().clone()
    }
}

/// Not movable once polled: it keeps a pointer to itself and checks it.
pub struct Source {
    spec: SourceSpec,
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    me: usize,
    mon: Arc<Mutex<Report>>,
    _pin: PhantomPinned,
}

pub fn make(spec: SourceSpec, data: Vec<u8>) -> (Box<Source>, Probe) {
    let mon = Arc::new(Mutex::new(Report::default()));
    let rng = Rng::new(spec.seed);
    (Box::new(Source { spec, data, pos: 0, rng, me: 0, mon: mon.clone(), _pin: PhantomPinned }), Probe(mon))
}

impl Source {
    fn next(self: Pin<&mut Self>, cx: &mut Context, max: usize) -> Poll<io::Result<Vec<u8>>> {
        // Nothing is moved out of the pinned value.
        let me = unsafe { self.get_unchecked_mut() };
        let addr = me as *mut Source as usize;
        let mut m = me.mon.lock().unwrap();
        m.polls += 1;
        if m.drops > 0 {
            m.polled_after_drop = true;
        }
        if !m.addrs.contains(&addr) {
            m.addrs.push(addr);
        }
        if me.me == 0 {
            me.me = addr;
        } else if me.me != addr {
            m.self_ptr_broken = true;
        }
        if m.polls > 50_000_000 {
            drop(m);
            std::panic::panic_any(crate::net::SpinMarker("message read"));
        }
        if me.spec.pend > 0 && me.rng.pm(me.spec.pend) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut lim = me.data.len();
        if let Some(f) = me.spec.fail_at {
            if me.pos >= f && !(m.failed && me.spec.once) {
                m.failed = true;
                return Poll::Ready(Err(io::Error::new(me.spec.kind, "injected source error")));
            }
            if !m.failed {
                lim = lim.min(f);
            }
        }
        let n = me.spec.chunk.pick(&mut me.rng, (lim - me.pos).min(max));
        if n == 0 && max > 0 {
            m.eof_seen += 1;
            if m.eof_seen > 100_000 {
                drop(m);
                std::panic::panic_any(crate::net::SpinMarker("message read at its end"));
            }
        }
        let v = me.data[me.pos..me.pos + n].to_vec();
        me.pos += n;
        m.given += n;
        Poll::Ready(Ok(v))
    }
}
impl Drop for Source {
    fn drop(&mut self) {
        self.mon.lock().unwrap_or_else(|e| e.into_inner()).drops += 1;
    }
}

#[cfg(feature = "rt-tokio")]
impl tokio::io::AsyncRead for Source {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        match self.next(cx, buf.remaining()) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
        }
    }
}
#[cfg(feature = "rt-async-std")]
impl async_std::io::Read for Source {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.next(cx, buf.len()) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(v)) => {
                buf[..v.len()].copy_from_slice(&v);
                Poll::Ready(Ok(v.len()))
            }
        }
    }
}
