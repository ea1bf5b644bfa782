//! C31: what is finished leaves nothing behind. Connections on a small server that allocates nothing, so that the memory
//! in use is the library's.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::net::*;
use crate::rng::{hash_bytes, Rng};
use crate::session::{resp_of, Flag};
use crate::source::{self, SourceSpec};
use crate::{Check, Workload};
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpTransport};
use std::future::Future;
use std::io;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

fn w(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Workload {
    Workload { name, quick, thorough, exhaustive: false, f }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C31",
        rule: "one connection going through the same few operations again and again under other names, memory in use measured after every round and after it is dropped; many connections one after the other, each ending in its own way (quit, STARTTLS, dropped at rest or in the middle of set-up or of an operation, failed); distinct by what the server took and answered",
        workloads: vec![w("rounds", 6000, 100_000, c31_rounds), w("many-rounds", 300, 5000, c31_many), w("connections", 6000, 100_000, c31_connections), w("bodies", 300, 4000, c31_bodies)],
        floors: vec![
            ("rounds measured", 50_000),
            ("operations in measured rounds", 100_000),
            ("operations abandoned", 3000),
            ("operations failed", 10_000),
            ("connections dropped and measured", 20_000),
            ("set-ups that did not succeed", 1000),
            ("connections that failed", 1000),
        ],
    }]
}

// ---- the server

/// Shared with the application
pub struct Ctl {
    pub drops: AtomicU64,
    /// Start the decisions over again
    again: AtomicBool,
    taken: AtomicU64,
    /// Hash of what was taken and answered
    shape: AtomicU64,
    failed: AtomicBool,
}
#[derive(Clone, Debug)]
struct LeanSpec {
    seed: u64,
    greeting: bool,
    ehlo: Vec<u8>,
    /// Chance (in 1000) of a refusal
    refuse: u32,
    /// Chance of a "not ready"
    pend: u32,
    chunked: bool,
    long: u32,
    /// Chance of an authentication going wrong
    odd: u32,
    /// How far it gets
    read_fault: Option<(u64, Fault)>,
    write_fault: Option<u64>,
    refuse_setup: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Error,
    End,
    Garbage,
}
const ROOM: usize = 1 << 16;
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Lines,
    Data,
    Auth(u8),
}
pub struct Lean {
    spec: LeanSpec,
    ctl: Arc<Ctl>,
    rng: Rng,
    out: Vec<u8>,
    pos: usize,
    line: Vec<u8>,
    mode: Mode,
    /// How much of CR LF . CR LF was seen
    dots: usize,
    rcpts: usize,
    mail: bool,
    nread: u64,
    nwritten: u64,
    setup: bool,
}
impl std::fmt::Debug for Lean {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Lean")
    }
}
impl Drop for Lean {
    fn drop(&mut self) {
        self.ctl.drops.fetch_add(1, Ordering::SeqCst);
    }
}
const LONG: &str = "and this is an answer which goes on for quite a while, much longer than the buffer it is read into at first, so that room has to be made for it as it comes in, over and over again";
impl Lean {
    fn new(spec: LeanSpec) -> (Lean, Arc<Ctl>) {
        let ctl = Arc::new(Ctl { drops: 0.into(), again: false.into(), taken: 0.into(), shape: 0.into(), failed: false.into() });
        let rng = Rng::new(spec.seed);
        let greeting = spec.greeting;
        let mut l = Lean { spec, ctl: ctl.clone(), rng, out: Vec::with_capacity(ROOM), pos: 0, line: Vec::with_capacity(600), mode: Mode::Lines, dots: 2, rcpts: 0, mail: false, nread: 0, nwritten: 0, setup: false };
        if greeting {
            let no = l.spec.refuse_setup && l.rng.bool();
            l.reply(if no { 554 } else { 220 }, "greetings");
        }
        (l, ctl)
    }
    fn put(&mut self, b: &[u8]) {
        if self.pos == self.out.len() {
            self.out.clear();
            self.pos = 0;
        }
        // Never more than was set aside: nothing is allocated here.
        let n = b.len().min(ROOM - self.out.len());
        self.out.extend_from_slice(&b[..n]);
    }
    fn code(&mut self, code: u16, sep: u8) {
        let c = [b'0' + (code / 100) as u8, b'0' + (code / 10 % 10) as u8, b'0' + (code % 10) as u8, sep];
        self.put(&c);
    }
    fn reply(&mut self, code: u16, text: &str) {
        let h = self.ctl.shape.load(Ordering::Relaxed);
        self.ctl.shape.store((h ^ code as u64).wrapping_mul(0x0000_0100_0000_01b3), Ordering::Relaxed);
        if code != 334 && self.rng.pm(self.spec.long) {
            for _ in 0..self.rng.range(1, 5) {
                self.code(code, b'-');
                self.put(LONG.as_bytes());
                self.put(b"\r\n");
            }
        }
        self.code(code, b' ');
        self.put(text.as_bytes());
        self.put(b"\r\n");
    }
    fn decide(&mut self, yes: u16, no: u16) -> bool {
        if self.rng.pm(self.spec.refuse) {
            let no = if self.rng.bool() { no } else { 400 + no % 100 };
            self.reply(no, "no");
            false
        } else {
            self.reply(yes, "yes");
            true
        }
    }
    fn challenge(&mut self, c: &str) {
        if self.rng.pm(self.spec.odd / 2) {
            let c = *self.rng.pick(&["", "%%", "/////w==", "Zm9v"]);
            self.reply(334, c);
        } else {
            self.reply(334, c);
        }
    }
    fn byte(&mut self, b: u8) {
        if self.mode == Mode::Data {
            const END: &[u8] = b"\r\n.\r\n";
            self.dots = if b == END[self.dots] {
                self.dots + 1
            } else if b == b'\r' {
                1
            } else {
                0
            };
            if self.dots == 5 {
                self.mode = Mode::Lines;
                self.rcpts = 0;
                self.mail = false;
                self.decide(250, 550);
            }
            return;
        }
        if b == b'\n' {
            let n = self.line.len();
            if n > 0 && self.line[n - 1] == b'\r' {
                self.line.truncate(n - 1);
            }
            self.command();
            self.line.clear();
        } else if self.line.len() < 600 {
            self.line.push(b);
        }
    }
    fn is(&self, c: &str) -> bool {
        self.line.len() >= c.len() && self.line[..c.len()].eq_ignore_ascii_case(c.as_bytes())
    }
    fn command(&mut self) {
        if self.ctl.again.swap(false, Ordering::SeqCst) {
            self.rng = Rng::new(self.spec.seed ^ 0x5555);
        }
        self.ctl.taken.fetch_add(1, Ordering::Relaxed);
        let h = self.ctl.shape.load(Ordering::Relaxed);
        self.ctl.shape.store((h ^ self.line.first().copied().unwrap_or(0) as u64).wrapping_mul(0x0000_0100_0000_01b3), Ordering::Relaxed);
        if let Mode::Auth(n) = self.mode {
            if self.is("*") {
                self.mode = Mode::Lines;
                self.reply(501, "as you like");
            } else if n == 0 || self.rng.pm(self.spec.refuse) {
                self.mode = Mode::Lines;
                self.decide(235, 535);
            } else {
                self.mode = Mode::Auth(n - 1);
                self.challenge("UGFzc3dvcmQ6");
            }
            return;
        }
        if self.is("EHLO") {
            let no = self.spec.refuse_setup && self.rng.bool();
            if no {
                self.reply(550, "not you");
            } else {
                self.setup = true;
                let e = std::mem::take(&mut self.spec.ehlo);
                self.put(&e);
                self.spec.ehlo = e;
            }
        } else if self.is("MAIL") {
            if self.mail {
                self.reply(503, "one at a time");
            } else {
                self.mail = self.decide(250, 550);
            }
        } else if self.is("RCPT") {
            if !self.mail {
                self.reply(503, "from whom");
            } else if self.decide(250, 550) {
                self.rcpts += 1;
            }
        } else if self.is("DATA") {
            if self.rcpts == 0 {
                self.reply(554, "to whom");
            } else if self.decide(354, 554) {
                self.mode = Mode::Data;
                self.dots = 2;
            }
        } else if self.is("AUTH") {
            let words = self.line.split(|b| *b == b' ').filter(|x| !x.is_empty()).count();
            if self.rng.pm(self.spec.odd) {
                // Asks on and on
                self.mode = Mode::Auth(30);
                self.challenge("UGFzc3dvcmQ6");
            } else if words > 2 {
                self.decide(235, 535);
            } else if self.rng.pm(self.spec.refuse) {
                self.reply(504, "not that way");
            } else {
                self.mode = Mode::Auth(1);
                self.challenge("VXNlcm5hbWU6");
            }
        } else if self.is("RSET") {
            if self.decide(250, 550) {
                self.mail = false;
                self.rcpts = 0;
            }
        } else if self.is("QUIT") {
            self.reply(221, "bye");
        } else if self.is("STARTTLS") {
            self.decide(220, 554);
        } else {
            self.decide(250, 500);
        }
    }
    fn do_write(&mut self, cx: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.rng.pm(self.spec.pend) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(f) = self.spec.write_fault {
            if self.nwritten >= f {
                self.ctl.failed.store(true, Ordering::SeqCst);
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
        }
        let n = if self.spec.chunked { self.rng.range(1, b.len().clamp(1, 400)).min(b.len()) } else { b.len() };
        self.nwritten += n as u64;
        for x in &b[..n] {
            self.byte(*x);
        }
        Poll::Ready(Ok(n))
    }
    fn do_flush(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
        if self.rng.pm(self.spec.pend) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn do_fill(&mut self, cx: &mut Context) -> Poll<io::Result<&[u8]>> {
        if self.rng.pm(self.spec.pend) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some((n, f)) = self.spec.read_fault {
            if self.nread >= n {
                self.ctl.failed.store(true, Ordering::SeqCst);
                match f {
                    Fault::Error => return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
                    Fault::End => return Poll::Ready(Ok(&[])),
                    Fault::Garbage => {
                        self.spec.read_fault = Some((n + 40, Fault::End));
                        self.put(b"what is \xff this\r\n999 foo\r\n");
                    }
                }
            }
        }
        // Nothing more will come unless something is said.
        let n = if self.spec.chunked { self.rng.range(1, 120) } else { ROOM };
        let e = (self.pos + n).min(self.out.len());
        let p = self.pos.min(e);
        Poll::Ready(Ok(&self.out[p..e]))
    }
    fn do_consume(&mut self, n: usize) {
        self.pos += n;
        self.nread += n as u64;
    }
}
#[cfg(feature = "rt-tokio")]
mod lean_io {
    use super::*;
    use tokio::io::*;
    impl AsyncRead for Lean {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let me = self.get_mut();
            let n = match me.do_fill(cx) {
                Poll::Ready(Ok(x)) => {
                    let n = x.len().min(b.remaining());
                    b.put_slice(&x[..n]);
                    n
                }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            me.do_consume(n);
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncBufRead for Lean {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            self.get_mut().do_fill(cx)
        }
        fn consume(self: Pin<&mut Self>, n: usize) {
            self.get_mut().do_consume(n)
        }
    }
    impl AsyncWrite for Lean {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            self.get_mut().do_write(cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.get_mut().do_flush(cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}
#[cfg(feature = "rt-async-std")]
mod lean_io {
    use super::*;
    use async_std::io::{BufRead, Read, Write};
    impl Read for Lean {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
            let me = self.get_mut();
            let n = match me.do_fill(cx) {
                Poll::Ready(Ok(x)) => {
                    let n = x.len().min(b.len());
                    b[..n].copy_from_slice(&x[..n]);
                    n
                }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            me.do_consume(n);
            Poll::Ready(Ok(n))
        }
    }
    impl BufRead for Lean {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            self.get_mut().do_fill(cx)
        }
        fn consume(self: Pin<&mut Self>, n: usize) {
            self.get_mut().do_consume(n)
        }
    }
    impl Write for Lean {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            self.get_mut().do_write(cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.get_mut().do_flush(cx)
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}

// ---- the application

#[derive(Clone, Debug)]
enum LOp {
    Send { rcpts: usize, len: usize, source: Option<SourceSpec>, null: bool },
    Auth(Mechanism),
    Login(usize),
    Quit,
}
#[derive(Clone, Debug)]
enum End {
    Drop,
    Quit,
    Starttls,
    /// During one more message
    During(u64),
}
#[derive(Clone, Debug)]
struct Case {
    cfg: crate::session::ClientCfg,
    spec: LeanSpec,
    /// With how often it is polled
    ops: Vec<(LOp, Option<u64>)>,
    setup_polls: Option<u64>,
    end: End,
}

enum Out<T> {
    Done(T),
    Abandoned,
    /// Waits for what will not come
    Stuck,
    Panicked,
}
fn drive<F: Future>(f: F, limit: Option<u64>, waker: &Waker, flag: &Flag) -> Out<F::Output> {
    let mut f = Box::pin(f);
    let mut n = 0u64;
    loop {
        if limit == Some(n) {
            return Out::Abandoned;
        }
        n += 1;
        flag.0.store(false, Ordering::SeqCst);
        let mut cx = Context::from_waker(waker);
        match std::panic::catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx))) {
            Ok(Poll::Ready(x)) => return Out::Done(x),
            Ok(Poll::Pending) => {
                if !flag.0.load(Ordering::SeqCst) || n > 50_000_000 {
                    return Out::Stuck;
                }
            }
            Err(_) => return Out::Panicked,
        }
    }
}

#[derive(Default, Clone, Copy)]
struct Seen {
    ok: u64,
    failed: u64,
    abandoned: u64,
    stuck: bool,
    setup_failed: bool,
}
fn tally<T, E>(s: &mut Seen, o: &Out<Result<T, E>>) {
    match o {
        Out::Done(Ok(_)) => s.ok += 1,
        Out::Done(Err(_)) => s.failed += 1,
        Out::Abandoned => s.abandoned += 1,
        _ => s.stuck = true,
    }
}

fn name(k: u64) -> String {
    // Always of the same length
    format!("{:016x}", crate::rng::mix(k))
}
fn letter(op: &LOp, k: u64) -> (SendableEmail, bool) {
    let LOp::Send { rcpts, len, source, null } = op else { unreachable!() };
    let from = if *null { None } else { Some(EmailAddress::new(format!("s{}@example.org", name(k))).unwrap()) };
    let to = (0..*rcpts).map(|j| EmailAddress::new(format!("r{}@example.org", name(k * 1000 + j as u64))).unwrap()).collect();
    let mut c = if *len == 0 { vec![] } else { format!("Subject: {}\r\n\r\n", name(k)).into_bytes() };
    while c.len() < *len {
        let l = name(k ^ c.len() as u64);
        c.extend_from_slice(if c.len() % 5 == 0 { b".".as_slice() } else { b"" });
        c.extend_from_slice(l.as_bytes());
        c.extend_from_slice(b"\r\n");
    }
    let env = Envelope::new(from, to).unwrap();
    match source {
        None => (SendableEmail::new(env, c), false),
        Some(s) => (SendableEmail::new_with_reader(env, source::make(s.clone(), c).0), true),
    }
}

/// Runs the operations once; false if the connection is of no further use
fn round(t: &mut SmtpTransport<Lean>, c: &Case, k: u64, wk: &(Arc<Flag>, Waker), s: &mut Seen) -> bool {
    for (j, (op, limit)) in c.ops.iter().enumerate() {
        let k = k * 64 + j as u64;
        match op {
            LOp::Send { .. } => {
                let (m, _) = letter(op, k);
                let r = drive(t.send(m), *limit, &wk.1, &wk.0);
                tally(s, &r);
                if let Out::Done(Ok(r)) = &r {
                    let _ = resp_of(r);
                }
            }
            LOp::Auth(m) => {
                let cr = Credentials::new(format!("u{}", name(k)), format!("p{}", name(k + 1)));
                let r = drive(t.auth(*m, &cr), *limit, &wk.1, &wk.0);
                tally(s, &r);
            }
            LOp::Login(n) => {
                let cr = Credentials::new(format!("u{}", name(k)), format!("p{}", name(k + 1)));
                let r = drive(t.try_login(&cr, &MECHS[..*n]), *limit, &wk.1, &wk.0);
                tally(s, &r);
            }
            LOp::Quit => {
                let r = drive(t.quit(), *limit, &wk.1, &wk.0);
                tally(s, &r);
            }
        }
        if s.stuck {
            return false;
        }
    }
    true
}

struct Run {
    seen: Seen,
    shape: u64,
    taken: u64,
    failed: bool,
    drops: u64,
    rounds: u64,
    kept: Vec<i64>,
}
/// One connection from beginning to end; `kept` has room for as many rounds
fn connection(c: &Case, rounds: u64, first: u64, wk: &(Arc<Flag>, Waker), mut kept: Vec<i64>) -> Run {
    let mut s = Seen::default();
    let (lean, ctl) = Lean::new(c.spec.clone());
    let mut n = 0;
    match drive(SmtpTransport::new(c.cfg.build(), lean), c.setup_polls, &wk.1, &wk.0) {
        Out::Done(Ok(mut t)) => {
            let mut fine = true;
            while fine && n < rounds {
                ctl.again.store(true, Ordering::SeqCst);
                fine = round(&mut t, c, first + n, wk, &mut s);
                n += 1;
                if kept.len() < kept.capacity() {
                    kept.push(crate::live());
                }
            }
            match &c.end {
                End::Quit => {
                    let r = drive(t.quit(), None, &wk.1, &wk.0);
                    tally(&mut s, &r);
                    drop(r);
                    drop(t);
                }
                End::Starttls => {
                    let r = drive(t.starttls(), None, &wk.1, &wk.0);
                    match r {
                        Out::Done(Ok(_)) => s.ok += 1,
                        Out::Done(Err(_)) => s.failed += 1,
                        _ => s.stuck = true,
                    }
                }
                End::During(p) => {
                    let op = LOp::Send { rcpts: 2, len: 300, source: None, null: false };
                    let (m, _) = letter(&op, first);
                    let r = drive(t.send(m), Some(*p), &wk.1, &wk.0);
                    tally(&mut s, &r);
                    drop(r);
                    drop(t);
                }
                End::Drop => drop(t),
            }
        }
        Out::Done(Err(e)) => {
            drop(e);
            s.setup_failed = true;
        }
        Out::Abandoned => s.setup_failed = true,
        _ => {
            s.stuck = true;
            s.setup_failed = true;
        }
    }
    Run { seen: s, shape: ctl.shape.load(Ordering::SeqCst), taken: ctl.taken.load(Ordering::SeqCst), failed: ctl.failed.load(Ordering::SeqCst), drops: ctl.drops.load(Ordering::SeqCst), rounds: n, kept }
}

fn case(r: &mut Rng, max_ops: usize) -> Case {
    let mut cfg = cfg(r);
    if r.bool() {
        cfg.pipelining = Some(true);
    }
    let mut f = features(r, None);
    if r.bool() {
        f.lines.push(format!("AUTH {} {}", r.pick(&MECHS), r.pick(&MECHS)));
    }
    let ehlo = ehlo_reply(r, &f).raw;
    let spec = LeanSpec {
        seed: r.next(),
        greeting: cfg.greeting,
        ehlo: if ehlo.len() > 20_000 { b"250-x\r\n250-STARTTLS\r\n250 PIPELINING\r\n".to_vec() } else { ehlo },
        refuse: *r.pick(&[0, 0, 100, 300, 600]),
        pend: *r.pick(&[0, 100, 400]),
        chunked: r.bool(),
        long: *r.pick(&[0, 0, 200]),
        odd: *r.pick(&[0, 300, 600]),
        read_fault: None,
        write_fault: None,
        refuse_setup: false,
    };
    let mut ops = vec![];
    for _ in 0..r.range(1, max_ops) {
        let op = match r.below(9) {
            0 | 1 => LOp::Auth(MECHS[r.below(3)]),
            2 => LOp::Login(r.range(0, 3)),
            3 if r.below(4) == 0 => LOp::Quit,
            _ => {
                let mut source = if r.below(3) == 0 { Some(SourceSpec::random(r)) } else { None };
                let len = *r.pick(&[0, 40, 100, 1000, 3000]);
                if let Some(s) = &mut source {
                    if r.below(3) == 0 {
                        s.fail_at = Some(r.below(len + 30));
                    }
                }
                LOp::Send { rcpts: r.range(1, 6), len, source, null: r.below(5) == 0 }
            }
        };
        let limit = if r.below(14) == 0 { Some(r.below(30) as u64) } else { None };
        ops.push((op, limit));
    }
    let end = match r.below(5) {
        0 => End::Quit,
        1 => End::Starttls,
        2 => End::During(r.below(40) as u64),
        _ => End::Drop,
    };
    Case { cfg, spec, ops, setup_polls: None, end }
}

fn waker() -> (Arc<Flag>, Waker) {
    let f = Arc::new(Flag(AtomicBool::new(false)));
    let w = Waker::from(f.clone());
    (f, w)
}

fn settled(ctx: &mut Ctx, c: &Case, run: &Run) {
    ctx.st.evals += 1;
    ctx.shape(hash_bytes(format!("{:x} {:?} {}", run.shape, c.end, run.taken).as_bytes()));
    ctx.count("connections dropped and measured", 1);
    ctx.count("client lines", run.taken);
    ctx.count("operations ok", run.seen.ok);
    ctx.count("operations failed", run.seen.failed);
    ctx.count("operations abandoned", run.seen.abandoned);
    ctx.count("set-ups that did not succeed", run.seen.setup_failed as u64);
    ctx.count("connections that failed", run.failed as u64);
    ctx.count("connections left waiting", run.seen.stuck as u64);
    if run.drops != 1 {
        ctx.fail(format!("the stream was dropped {} times by the end of its connection", run.drops), || format!("{c:#?}"));
    }
}

/// The rounds of one connection
fn judge_rounds(ctx: &mut Ctx, c: &Case, rounds: u64) {
    let wk = waker();
    // Once for what is set up only once
    drop(connection(c, 2, 1, &wk, vec![]));
    let before = crate::live();
    let kept = Vec::with_capacity(rounds as usize);
    let own = crate::live() - before;
    let run = connection(c, rounds, 100, &wk, kept);
    let after = crate::live() - own;
    settled(ctx, c, &run);
    let n = run.kept.len();
    ctx.count("rounds measured", n as u64);
    ctx.count("operations in measured rounds", run.rounds * c.ops.len() as u64);
    ctx.sample(|| format!("{c:?}\nmemory in use after each round: {:?}", &run.kept[..n.min(20)]));
    if run.seen.stuck {
        return;
    }
    if after != before {
        ctx.fail(format!("{} bytes are still in use after the connection was dropped ({} rounds of {} operations)", after - before, run.rounds, c.ops.len()), || format!("{c:#?}\nin use after each round: {:?}", run.kept));
        return;
    }
    if n as u64 == rounds && n >= 6 && run.kept[n - 1] > run.kept[n / 2] {
        // Something of bounded size may be filled up gradually: it is full in the end.
        let more = rounds * 40;
        let run = connection(c, more, 100, &wk, Vec::with_capacity(more as usize));
        let n = run.kept.len();
        if run.kept[n - 1] > run.kept[n / 2] {
            ctx.fail(
                format!("memory in use grows with the operations done: {} bytes after {} rounds, {} after {} rounds of {} operations", run.kept[n / 2] - before, n / 2 + 1, run.kept[n - 1] - before, n, c.ops.len()),
                || format!("{c:#?}\nin use after each round: {:?}", &run.kept[..n.min(200)]),
            );
        }
    }
}
fn c31_rounds(ctx: &mut Ctx) {
    let c = case(&mut ctx.rng, 4);
    let n = ctx.rng.range(8, 24) as u64;
    judge_rounds(ctx, &c, n);
}
fn c31_many(ctx: &mut Ctx) {
    let mut c = case(&mut ctx.rng, 2);
    for (op, _) in &mut c.ops {
        if let LOp::Send { len, .. } = op {
            *len = (*len).min(100);
        }
    }
    c.spec.long = 0;
    judge_rounds(ctx, &c, 300);
}
/// Large messages, large buffers: they are given back
fn c31_bodies(ctx: &mut Ctx) {
    let mut c = case(&mut ctx.rng, 2);
    let big = *ctx.rng.pick(&[20_000, 70_000, 300_000]);
    let mut source = if ctx.rng.bool() { Some(SourceSpec::random(&mut ctx.rng)) } else { None };
    if let Some(s) = &mut source {
        s.chunk = Chunk::Upto(9000);
        if ctx.rng.bool() {
            s.fail_at = Some(ctx.rng.below(big));
        }
    }
    c.spec.chunked = false;
    c.ops.push((LOp::Send { rcpts: ctx.rng.range(1, 40), len: big, source, null: false }, if ctx.rng.bool() { Some(ctx.rng.below(30) as u64) } else { None }));
    judge_rounds(ctx, &c, 8);
}
/// Connections one after the other, however they end
fn c31_connections(ctx: &mut Ctx) {
    let mut c = case(&mut ctx.rng, 3);
    let r = &mut ctx.rng;
    match r.below(7) {
        0 => c.spec.refuse_setup = true,
        6 => c.spec.ehlo = r.pick(&["250 \r\n", "250\r\n", "250-\r\n250 PIPELINING\r\n", "220 x\r\n", "354 go\r\n", "250 \u{fffd}\r\n", "251-a\r\n250 b\r\n"]).as_bytes().to_vec(),
        1 => c.setup_polls = Some(r.below(20) as u64),
        2 => c.spec.write_fault = Some(*r.pick(&[0, 10, 30, 100, 400, 1000]) + r.below(60) as u64),
        3 | 4 => c.spec.read_fault = Some((*r.pick(&[0, 10, 30, 100, 400]) + r.below(60) as u64, *r.pick(&[Fault::Error, Fault::End, Fault::Garbage]))),
        _ => {}
    }
    let wk = waker();
    drop(connection(&c, 2, 1, &wk, vec![]));
    let before = crate::live();
    const N: usize = 6;
    let mut in_use = [0i64; N];
    let mut runs: Vec<Run> = Vec::with_capacity(N);
    let own = crate::live() - before;
    for (k, x) in in_use.iter_mut().enumerate() {
        runs.push(connection(&c, 2, 1000 * (k as u64 + 1), &wk, vec![]));
        *x = crate::live() - before - own;
    }
    for r in &runs {
        settled(ctx, &c, r);
    }
    ctx.sample(|| format!("{c:?}\nmemory in use after each connection: {in_use:?}"));
    if !runs.iter().any(|r| r.seen.stuck) && in_use.iter().any(|x| *x != 0) {
        ctx.fail("memory is still in use after the connection was dropped", || format!("{c:#?}\nbytes in use after each of the connections: {in_use:?}"));
    }
}
