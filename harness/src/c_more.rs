//! How the client is driven and what it says: C27-C30
use crate::c_send::c07_judge;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::net::*;
use crate::oracle::*;
use crate::rng::{hash_bytes, Rng};
use crate::server::*;
use crate::session::*;
use crate::{Check, Workload};
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::error::Error;
use async_smtp::response::{Code, Response};
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};

fn w(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Workload {
    Workload { name, quick, thorough, exhaustive: false, f }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C27",
            rule: "for each base session, one run per operation and number of polls after which its future is dropped, until it completes, followed by at least two more operations; and one run per poll at which the whole connection is dropped; distinct by dialogue shape and point",
            workloads: vec![w("every-point", 420, 6000, c27_every), w("several", 12_000, 200_000, c27_several), w("connection-dropped", 420, 6000, c27_dropped), w("before-writing", 6000, 60_000, c27_unsent), w("heavy", 120, 2000, c27_heavy)],
            floors: vec![("operations abandoned", 20_000), ("operations after an abandoned one", 20_000), ("operations abandoned before anything was written", 500), ("connections dropped", 10_000)],
        },
        Check {
            id: "C28",
            rule: "sessions taken over by another thread after every few polls, with a new waker for every poll and polls nobody asked for, compared with the same session run alone on one thread; sessions spawned on the runtime's own threads over loopback connections, compared with the simulated run; types and futures probed for Send and Sync; distinct by dialogue shape",
            workloads: vec![w("any-executor", 9000, 150_000, c28_executor), w("moving-between-threads", 300, 5000, c28_threads), w("real-connections", 64, 1000, c28_real), w("types", 1, 1, c28_types)],
            floors: vec![("sessions compared", 9000), ("moves to another thread", 5000), ("polls nobody asked for", 5000), ("leaps of the clock", 5000), ("types probed", 18), ("sessions over loopback connections", 100)],
        },
        Check {
            id: "C29",
            rule: "sessions with unique user names, secrets and contents, searched for (plain and base64 at any alignment) in all that is written, in the text of every error, in log records of level info and above, and in the Debug text of the transport; distinct by dialogue shape",
            workloads: vec![w("sessions", 18_000, 300_000, c29), w("faults", 9000, 150_000, c29_faults)],
            floors: vec![("secrets traced", 8000), ("secrets seen in answers", 3000), ("contents traced", 8000), ("error texts searched", 5000), ("log records searched", 1000)],
        },
        Check {
            id: "C30",
            rule: "text of every error returned in random sessions with refusals, faults and hostile replies, against the reply or I/O error behind it; accessors of replies against an independent reading of random replies; distinct by reply or dialogue shape",
            workloads: vec![w("error-texts", 18_000, 300_000, c30_texts), w("accessors", 60_000, 1_000_000, c30_access), w("all-codes", 1, 1, c30_codes)],
            floors: vec![("refusal texts compared", 5000), ("I/O error texts compared", 1000), ("injected errors traced", 500), ("replies read", 50_000), ("codes compared", 240)],
        },
    ]
}

fn simple_send(k: usize) -> Op {
    Op::Send { from: Some("after@example.org".into()), to: vec![format!("after{k}@example.org")], content: format!("Subject: after {k}\r\n\r\n.after\r\n").into_bytes(), source: None }
}

// ---- C27

fn c27_base(ctx: &mut Ctx) -> (Scenario, usize) {
    let mut o = GenOpts::history(3);
    o.refuse = *ctx.rng.pick(&[0, 0, 100]);
    o.atoms = 4;
    o.max_rcpt = 4;
    o.quit = false;
    let mut sc = scenario(&mut ctx.rng, &o);
    let n = sc.ops.len();
    let r = &mut ctx.rng;
    for k in 0..r.range(2, 3) {
        if r.below(4) == 0 {
            sc.ops.push(Op::Auth { mech: *r.pick(&MECHS), user: format!("user{k}"), secret: format!("secret{k}") });
        } else {
            sc.ops.push(simple_send(k));
        }
    }
    match r.below(6) {
        0 => sc.ops.push(Op::Quit),
        1 => sc.ops.push(Op::Starttls),
        _ => {}
    }
    if r.below(4) == 0 && n < sc.ops.len() {
        // Also while saying goodbye, with something after it
        let k = r.below(n);
        sc.ops[k] = Op::Quit;
    }
    // Not byte by byte in both directions: every point is tried.
    if sc.knobs.read_chunk == Chunk::One && sc.knobs.release_chunk == Chunk::One {
        sc.knobs.release_chunk = Chunk::All;
    }
    if sc.knobs.write_chunk == Chunk::One {
        sc.knobs.write_chunk = *r.pick(&[Chunk::Upto(9), Chunk::All]);
    }
    for p in [&mut sc.knobs.pend_read, &mut sc.knobs.pend_write, &mut sc.knobs.pend_flush] {
        if *p > 400 {
            *p = 400;
        }
    }
    (sc, n)
}
fn c27_judge(ctx: &mut Ctx, t: &Trace) {
    let mut after = false;
    let mut n_after = 0;
    let mut unsent = 0;
    for r in &t.recs {
        if after {
            n_after += 1;
        }
        if r.res == Res::Abandoned {
            after = true;
            if r.tried == 0 {
                unsent += 1;
            }
        }
    }
    ctx.count("operations after an abandoned one", n_after);
    ctx.count("operations abandoned before anything was written", unsent);
    c07_judge(ctx, t);
    order(ctx, t);
}
fn c27_every(ctx: &mut Ctx) {
    let (sc, n) = c27_base(ctx);
    let mut left = if ctx.thorough { 3000 } else { 600 };
    for k in 0..n {
        for polls in 0..400 {
            let mut s = sc.clone();
            s.cancel = vec![(k, polls)];
            let t = run(s);
            ctx.shape(hash_bytes(format!("{k} {polls} {}", t.shape()).as_bytes()));
            c27_judge(ctx, &t);
            if ctx.failed() {
                if let Some(f) = &mut ctx.failure {
                    f.msg = format!("operation {k} dropped after {polls} polls: {}", f.msg);
                }
                return;
            }
            left -= 1;
            if left == 0 || !t.rec(k).map(|r| r.res == Res::Abandoned).unwrap_or(false) {
                break;
            }
        }
        if left == 0 {
            break;
        }
    }
}
fn c27_several(ctx: &mut Ctx) {
    let (mut sc, n) = c27_base(ctx);
    let clean = run(sc.clone());
    for k in 0..n {
        if ctx.rng.bool() {
            let max = clean.rounds / (n as u64 + 1) + 4;
            sc.cancel.push((k, ctx.rng.below(max as usize) as u64));
        }
    }
    if ctx.rng.below(3) == 0 {
        sc.knobs.read_fault = Some((ctx.rng.below(clean.pipe.out.len() + 1), RFault::Once));
    }
    let t = run(sc);
    c27_judge(ctx, &t);
}
fn c27_dropped(ctx: &mut Ctx) {
    let (sc, _) = c27_base(ctx);
    for k in 0..(if ctx.thorough { 2000 } else { 300 }) {
        let mut s = sc.clone();
        s.abandon = Some(k);
        let t = run(s);
        ctx.shape(hash_bytes(format!("{k} {}", t.shape()).as_bytes()));
        c27_judge(ctx, &t);
        ctx.count("connections dropped", 1);
        if ctx.failed() {
            if let Some(f) = &mut ctx.failure {
                f.msg = format!("dropped after {k} polls: {}", f.msg);
            }
            return;
        }
        if !t.recs.iter().any(|r| r.res == Res::Abandoned) && k > 0 {
            break;
        }
    }
}
/// Dropped before its first poll, or while the message is still being read: as if it had never been asked for
fn c27_unsent(ctx: &mut Ctx) {
    let mut o = GenOpts::sends(2);
    o.atoms = 5;
    let mut sc = scenario(&mut ctx.rng, &o);
    let k = ctx.rng.below(sc.ops.len());
    let slow = ctx.rng.below(3) > 0;
    if let Op::Send { source, content, .. } = &mut sc.ops[k] {
        if slow {
            content.extend_from_slice(b"something\r\n");
            let mut s = crate::source::SourceSpec::random(&mut ctx.rng);
            s.pend = *ctx.rng.pick(&[500, 900, 1000]);
            *source = Some(s);
        }
    }
    for j in 0..2 {
        sc.ops.push(simple_send(j));
    }
    let polls = if slow { ctx.rng.below(8) } else { 0 };
    // The server's decisions are for the sends that take place.
    sc.plan.txs.clear();
    sc.cancel = vec![(k, polls as u64)];
    let t = run(sc);
    c27_judge(ctx, &t);
    let rec = t.rec(k);
    if rec.map(|r| r.res == Res::Abandoned && r.tried == 0).unwrap_or(false) {
        for r in t.recs.iter().filter(|r| r.op.is_some() && r.op != Some(k)) {
            if !r.res.is_ok() {
                ctx.fail(format!("operation {k} was dropped before it wrote anything, but operation {:?} returned {:?}", r.op, r.res), || t.dump());
                return;
            }
        }
    }
}

/// Every point of an operation that takes long
fn c27_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::history(2);
    o.refuse = *ctx.rng.pick(&[0, 0, 60]);
    o.atoms = 3;
    o.quit = false;
    let mut sc = heavy(&mut ctx.rng, &o);
    let n = sc.ops.len();
    for k in 0..2 {
        sc.ops.push(simple_send(k));
    }
    sc.knobs.write_chunk = *ctx.rng.pick(&[Chunk::Upto(20_000), Chunk::Upto(200_000), Chunk::All]);
    let k = ctx.rng.below(n);
    let step = *ctx.rng.pick(&[1, 1, 3, 7]);
    for j in 0..60 {
        let mut s = sc.clone();
        s.cancel = vec![(k, j * step)];
        let t = run(s);
        ctx.shape(hash_bytes(format!("{k} {} {}", j * step, t.shape()).as_bytes()));
        c27_judge(ctx, &t);
        if ctx.failed() || !t.rec(k).map(|r| r.res == Res::Abandoned).unwrap_or(false) {
            return;
        }
    }
}

// ---- C28

fn c28_scenario(r: &mut Rng) -> Scenario {
    let mut o = GenOpts::history(4);
    o.starttls = true;
    o.atoms = 6;
    o.refuse = *r.pick(&[0, 60, 150]);
    scenario(r, &o)
}
fn c28_executor(ctx: &mut Ctx) {
    let sc = c28_scenario(&mut ctx.rng);
    let mut base = sc.clone();
    base.knobs.settle = false;
    let alone = run(base);
    ctx.observe(&alone);
    history(ctx, &alone);
    for _ in 0..2 {
        let mut s = sc.clone();
        s.knobs = Knobs::random(&mut ctx.rng);
        s.knobs.settle = false;
        s.knobs.spurious = *ctx.rng.pick(&[0, 100, 500, 900]);
        s.knobs.fresh = ctx.rng.below(4) > 0;
        s.knobs.leap = *ctx.rng.pick(&[0, 100, 1000]);
        let t = run(s);
        ctx.observe(&t);
        ctx.count("leaps of the clock", t.leaps);
        ctx.count("polls nobody asked for", t.extra_polls);
        ctx.count("sessions compared", 1);
        if !ctx.sane(&t) {
            return;
        }
        if t.digest() != alone.digest() {
            ctx.fail("a session behaves differently when its wakers change, it is polled without need, or time passes", || format!("---- so polled:\n{}\n---- plainly:\n{}", t.dump(), alone.dump()));
            return;
        }
    }
}
fn c28_threads(ctx: &mut Ctx) {
    let n = ctx.rng.range(3, 10);
    let scs: Vec<Scenario> = (0..n)
        .map(|_| {
            let mut s = c28_scenario(&mut ctx.rng);
            s.knobs.spurious = *ctx.rng.pick(&[0, 0, 200]);
            s.knobs.fresh = ctx.rng.bool();
            s
        })
        .collect();
    let alone: Vec<_> = scs.iter().map(|s| run(s.clone())).collect();
    let threads = ctx.rng.range(2, 4);
    let (got, moves) = run_shared(&scs, threads, ctx.rng.next());
    ctx.count("moves to another thread", moves);
    if got.len() != alone.len() {
        ctx.fail("a thread running sessions panicked", String::new);
        return;
    }
    for (a, (d, text, broken)) in alone.iter().zip(&got) {
        ctx.observe(a);
        ctx.count("sessions compared", 1);
        if let Some(b) = broken {
            ctx.fail(format!("on changing threads, {b}"), || text.clone());
            return;
        }
        if a.digest() != *d {
            ctx.fail("a session behaves differently when it changes threads", || format!("---- on several threads:\n{text}\n---- on one:\n{}", a.dump()));
            return;
        }
    }
}
fn c28_real(ctx: &mut Ctx) {
    if cfg!(miri) {
        return;
    }
    let n = ctx.rng.range(2, 6);
    let scs: Vec<Scenario> = (0..n)
        .map(|_| {
            let mut s = c28_scenario(&mut ctx.rng);
            s.knobs = Knobs::plain();
            s.plan.after_starttls.clear();
            if ctx.rng.below(4) == 0 {
                if let Some(Op::Send { content, .. }) = s.ops.first_mut() {
                    content.extend(std::iter::repeat(b'x').take(ctx.rng.range(5000, 300_000)));
                }
            }
            s
        })
        .collect();
    let alone: Vec<_> = scs.iter().map(|s| run(s.clone())).collect();
    let got = crate::real::run_real(&scs, ctx.rng.next());
    for (a, g) in alone.iter().zip(got) {
        ctx.observe(a);
        let Some((res, seen)) = g else {
            ctx.count("sessions not observed (network)", 1);
            continue;
        };
        ctx.count("sessions over loopback connections", 1);
        ctx.count("sessions compared", 1);
        let want: Vec<Res> = a.recs.iter().map(|r| norm(&r.res)).collect();
        let text = || format!("results {res:?}\nwire b\"{}\"\ncomplaints {:?}\n---- simulated:\n{}", seen.wire.escape_ascii(), seen.complaints, a.dump());
        match &res {
            Err(e) => ctx.fail(format!("a spawned session panicked: {e}"), text),
            Ok(r) => {
                let r: Vec<Res> = r.iter().map(norm).collect();
                if r != want {
                    ctx.fail("over a loopback connection, the results differ from those of the simulated session", text);
                } else if seen.wire != a.pipe.wire {
                    ctx.fail("over a loopback connection, other bytes arrived than in the simulated session", text);
                } else if seen.delivered != a.server.delivered {
                    ctx.fail("over a loopback connection, other messages were delivered than in the simulated session", text);
                }
            }
        }
        if ctx.failed() {
            return;
        }
    }
}

/// A stream that may be used anywhere
#[derive(Debug)]
struct Anywhere;
#[cfg(feature = "rt-tokio")]
mod anywhere {
    use super::Anywhere;
    use std::io::Result;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::*;
    impl AsyncRead for Anywhere {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncBufRead for Anywhere {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<&[u8]>> {
            Poll::Ready(Ok(b""))
        }
        fn consume(self: Pin<&mut Self>, _: usize) {}
    }
    impl AsyncWrite for Anywhere {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}
#[cfg(feature = "rt-async-std")]
mod anywhere {
    use super::Anywhere;
    use async_std::io::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    impl Read for Anywhere {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<Result<usize>> {
            Poll::Ready(Ok(0))
        }
    }
    impl BufRead for Anywhere {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<&[u8]>> {
            Poll::Ready(Ok(b""))
        }
        fn consume(self: Pin<&mut Self>, _: usize) {}
    }
    impl Write for Anywhere {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}
// Which method is found depends on whether the type implements the trait.
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSend {
    fn is_send(&self) -> bool {
        false
    }
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> NotSend for &Probe<T> {}
impl<T: Send> Probe<T> {
    fn is_send(&self) -> bool {
        true
    }
}
impl<T: Sync> Probe<T> {
    fn is_sync(&self) -> bool {
        true
    }
}
macro_rules! send_type {
    ($v:ident, $t:ty) => {
        $v.push((stringify!($t), "Send", (&Probe::<$t>(std::marker::PhantomData)).is_send()));
    };
}
macro_rules! sync_type {
    ($v:ident, $t:ty) => {
        send_type!($v, $t);
        $v.push((stringify!($t), "Sync", (&Probe::<$t>(std::marker::PhantomData)).is_sync()));
    };
}
macro_rules! send_value {
    ($v:ident, $n:expr, $e:expr) => {{
        let p = probe_of(&$e);
        $v.push(($n, "Send", (&p).is_send()));
    }};
}
fn probe_of<T>(_: &T) -> Probe<T> {
    Probe(std::marker::PhantomData)
}
fn c28_types(ctx: &mut Ctx) {
    let mut v: Vec<(&str, &str, bool)> = vec![];
    sync_type!(v, SmtpClient);
    sync_type!(v, SmtpTransport<Anywhere>);
    sync_type!(v, Error);
    sync_type!(v, Response);
    sync_type!(v, EmailAddress);
    sync_type!(v, Envelope);
    sync_type!(v, SendableEmail);
    sync_type!(v, Credentials);
    sync_type!(v, async_smtp::Message);
    // The probes themselves
    let not = (&Probe::<std::rc::Rc<u8>>(std::marker::PhantomData)).is_send() || (&Probe::<std::cell::Cell<u8>>(std::marker::PhantomData)).is_sync();
    if not {
        ctx.fail("the type probes do not work", String::new);
    }
    let flag = std::sync::Arc::new(Flag(std::sync::atomic::AtomicBool::new(false)));
    let waker = std::task::Waker::from(flag);
    let mut cx = std::task::Context::from_waker(&waker);
    let f = SmtpTransport::new(SmtpClient::new(), Anywhere);
    send_value!(v, "future of SmtpTransport::new", f);
    drop(f);
    // A transport to take the futures of the other operations from
    let pipe = std::rc::Rc::new(std::cell::RefCell::new(Pipe::new(Knobs::plain())));
    let _ = pipe;
    if let Some(mut t) = anywhere_transport(&mut cx) {
        let creds = Credentials::new("u".into(), "s".into());
        let email = || SendableEmail::new(Envelope::new(None, vec![EmailAddress::new("a@b".into()).unwrap()]).unwrap(), "x");
        {
            let f = t.send(email());
            send_value!(v, "future of send", f);
        }
        {
            let f = t.auth(Mechanism::Plain, &creds);
            send_value!(v, "future of auth", f);
        }
        {
            let f = t.try_login(&creds, &[Mechanism::Login]);
            send_value!(v, "future of try_login", f);
        }
        {
            let f = t.quit();
            send_value!(v, "future of quit", f);
        }
        let f = t.starttls();
        send_value!(v, "future of starttls", f);
    } else {
        ctx.fail("no transport over a scripted stream", String::new);
    }
    ctx.st.evals += 1;
    ctx.count("types probed", v.len() as u64);
    ctx.sample(|| format!("{v:?}"));
    for (name, what, ok) in v {
        if !ok {
            ctx.fail(format!("{name} is not {what}: it cannot be used from an executor with several threads"), String::new);
        }
    }
}
/// Never connects: the futures are only made, so a transport is taken from a stream with a script.
fn anywhere_transport(cx: &mut std::task::Context) -> Option<SmtpTransport<Scripted>> {
    let mut f = Box::pin(SmtpTransport::new(SmtpClient::new(), Scripted(std::io::Cursor::new(b"220 a\r\n250 a\r\n".to_vec()))));
    match std::future::Future::poll(f.as_mut(), cx) {
        std::task::Poll::Ready(Ok(t)) => Some(t),
        _ => None,
    }
}
/// Gives what it holds, swallows everything
#[derive(Debug)]
struct Scripted(std::io::Cursor<Vec<u8>>);
#[cfg(feature = "rt-tokio")]
mod scripted {
    use super::Scripted;
    use std::io::{BufRead, Read, Result};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::*;
    impl AsyncRead for Scripted {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            let n = b.remaining();
            let mut v = vec![0; n];
            let n = Read::read(&mut self.0, &mut v)?;
            b.put_slice(&v[..n]);
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncBufRead for Scripted {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<&[u8]>> {
            Poll::Ready(BufRead::fill_buf(&mut self.get_mut().0))
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) {
            BufRead::consume(&mut self.0, n)
        }
    }
    impl AsyncWrite for Scripted {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}
#[cfg(feature = "rt-async-std")]
mod scripted {
    use super::Scripted;
    use async_std::io::{BufRead, Read, Result, Write};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    impl Read for Scripted {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<Result<usize>> {
            Poll::Ready(std::io::Read::read(&mut self.0, b))
        }
    }
    impl BufRead for Scripted {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<&[u8]>> {
            Poll::Ready(std::io::BufRead::fill_buf(&mut self.get_mut().0))
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) {
            std::io::BufRead::consume(&mut self.0, n)
        }
    }
    impl Write for Scripted {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}

// ---- C29

fn nonce(r: &mut Rng) -> String {
    const A: &[u8] = b"abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789";
    (0..18).map(|_| A[r.below(A.len())] as char).collect()
}
/// The forms under which it would be recognised
fn forms(n: &str) -> Vec<Vec<u8>> {
    let mut v = vec![n.as_bytes().to_vec()];
    for pad in 0..3usize {
        let mut b = vec![0u8; pad];
        b.extend_from_slice(n.as_bytes());
        let e = b64(&b);
        // Characters that depend on this text only
        let from = (pad * 8).div_ceil(6);
        let to = b.len() * 8 / 6;
        v.push(e.as_bytes()[from..to].to_vec());
    }
    // Also as numbers in a list, as a vector of bytes is shown
    let l: Vec<String> = n.bytes().map(|b| b.to_string()).collect();
    v.push(l.join(", ").into_bytes());
    v
}
fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if hay.len() < needle.len() {
        return None;
    }
    hay.windows(needle.len()).position(|w| w == needle)
}
fn c29_scenario(ctx: &mut Ctx) -> (Scenario, Vec<(usize, String, bool)>) {
    let mut o = GenOpts::history(5);
    o.refuse = *ctx.rng.pick(&[0, 100, 250]);
    o.atoms = 4;
    o.max_rcpt = 3;
    o.starttls = true;
    let mut sc = scenario(&mut ctx.rng, &o);
    sc.texts = true;
    let mut v = vec![];
    let r = &mut ctx.rng;
    for (k, op) in sc.ops.iter_mut().enumerate() {
        match op {
            Op::Send { content, .. } => {
                let n = nonce(r);
                let at = *r.pick(&[0, content.len()]);
                let mut line = format!("X-Content: {n}\r\n").into_bytes();
                line.splice(0..0, content[..at].iter().copied());
                line.extend_from_slice(&content[at..]);
                *content = line;
                v.push((k, n, false));
            }
            Op::Auth { user, secret, .. } | Op::TryLogin { user, secret, .. } => {
                let mut last = String::new();
                for s in [user, secret] {
                    let n = nonce(r);
                    *s = match r.below(4) {
                        0 => format!("{s}{n}"),
                        1 => format!("{n}@example.org"),
                        2 => format!("pass\u{e9} {n}\r\n"),
                        _ => n.clone(),
                    };
                    last = n;
                }
                // The name of the user is no secret.
                v.push((k, last, true));
            }
            _ => {}
        }
    }
    if r.below(3) == 0 {
        echo_challenges(r, &mut sc);
    }
    (sc, v)
}
fn c29_judge(ctx: &mut Ctx, sc: Scenario, nonces: Vec<(usize, String, bool)>) {
    crate::KEPT.with(|k| *k.borrow_mut() = Some(vec![]));
    let t = run(sc);
    let logs = crate::KEPT.with(|k| k.borrow_mut().take()).unwrap_or_default();
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    let loud: Vec<&String> = logs.iter().filter(|(l, _)| *l <= log::Level::Info).map(|x| &x.1).collect();
    ctx.count("log records searched", loud.len() as u64);
    ctx.count("log records kept", logs.len() as u64);
    ctx.count("error texts searched", t.recs.iter().filter(|r| r.texts.display.is_some()).count() as u64);
    // What belongs to answers and to message content, and for whom
    let mut open: Vec<(usize, usize, bool)> = t.server.items.iter().filter(|i| matches!(i.kind, Kind::Auth | Kind::AuthResp | Kind::Fin)).map(|i| (i.from, i.to, i.kind != Kind::Fin)).collect();
    if let Some((from, d)) = &t.server.open_data {
        open.push((*from, from + d.len(), false));
    }
    for (op, n, secret) in &nonces {
        ctx.count(if *secret { "secrets traced" } else { "contents traced" }, 1);
        let what = if *secret { "credentials" } else { "message content" };
        for f in forms(n) {
            // On the wire
            let mut at = 0;
            while let Some(p) = find(&t.pipe.wire[at..], &f) {
                let (a, b) = (at + p, at + p + f.len());
                at = b;
                let mine = t.rec(*op).map(|r| a >= r.w0 && b <= r.w1).unwrap_or(false);
                // The tail of an answer or of content that was cut off by a failure is no item.
                let tail = a >= t.server.pos();
                if !mine || !(tail || open.iter().any(|o| a >= o.0 && b <= o.1 && o.2 == *secret)) {
                    ctx.fail(format!("the {what} of operation {op} appear at offset {a} of what was written"), || t.dump());
                    return;
                }
                ctx.count(if *secret { "secrets seen in answers" } else { "contents seen in messages" }, 1);
            }
            let mut places: Vec<(String, &str)> = vec![];
            for r in &t.recs {
                if let Some(d) = &r.texts.display {
                    places.push((format!("the error of operation {:?}", r.op), d));
                    places.push((format!("the Debug text of the error of operation {:?}", r.op), &r.texts.debug));
                    for s in &r.texts.sources {
                        places.push((format!("a source of the error of operation {:?}", r.op), s));
                    }
                }
                places.push((format!("the Debug text of the transport after operation {:?}", r.op), &r.texts.transport));
            }
            for l in &loud {
                places.push(("a log record of level info or above".into(), l));
            }
            for (p, s) in places {
                if find(s.as_bytes(), &f).is_some() {
                    ctx.fail(format!("the {what} of operation {op} appear in {p}: {}", s.chars().take(300).collect::<String>()), || t.dump());
                    return;
                }
            }
        }
    }
}
fn c29(ctx: &mut Ctx) {
    // Records are made only when somebody listens.
    crate::LOG_ON.with(|l| l.set(true));
    let (sc, n) = c29_scenario(ctx);
    c29_judge(ctx, sc, n);
}
fn c29_faults(ctx: &mut Ctx) {
    crate::LOG_ON.with(|l| l.set(true));
    let (mut sc, n) = c29_scenario(ctx);
    let r = &mut ctx.rng;
    match r.below(6) {
        0 => sc.knobs.read_fault = Some((r.below(600), *r.pick(&[RFault::Eof, RFault::Err, RFault::Once]))),
        1 => sc.knobs.write_fault = Some((r.below(800), *r.pick(&[WFault::Err, WFault::Once, WFault::Zero]))),
        2 => sc.knobs.flush_fault = Some((r.below(12), *r.pick(&[WFault::Err, WFault::Once]))),
        3 => {
            for a in sc.plan.auths.iter_mut() {
                let k = r.below(a.len());
                a[k] = match r.below(3) {
                    0 => AStep::Any(Reply::raw(b"not a reply\r\n")),
                    1 => AStep::Chal(b64(b"What is it?")),
                    _ => AStep::Chal("!!!".into()),
                };
            }
        }
        4 => {
            let k = r.below(sc.ops.len().max(1));
            if let Some(Op::Send { source, content, .. }) = sc.ops.get_mut(k) {
                let mut s = crate::source::SourceSpec::random(r);
                s.fail_at = Some(r.below(content.len() + 1));
                *source = Some(s);
            }
        }
        _ => sc.cancel = vec![(r.below(sc.ops.len().max(1)), r.below(30) as u64)],
    }
    c29_judge(ctx, sc, n);
}

// ---- C30

/// Every line in order, without overlap
fn contains_lines(text: &str, lines: &[String]) -> bool {
    let mut at = 0;
    for l in lines {
        match text[at..].find(l.as_str()) {
            Some(p) => at += p + l.len(),
            None => return false,
        }
    }
    true
}
/// Whether this operation was given a reader, and that failed
fn reader_failed(t: &Trace, rec: &OpRec) -> bool {
    matches!(rec.op.and_then(|k| t.sources.get(k)), Some(Some(s)) if s.failed)
}
fn c30_texts(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.refuse = *ctx.rng.pick(&[100, 300]);
    o.starttls = true;
    o.atoms = 4;
    let mut sc = scenario(&mut ctx.rng, &o);
    let r = &mut ctx.rng;
    match r.below(6) {
        0 => sc.knobs.read_fault = Some((r.below(600), *r.pick(&[RFault::Err, RFault::Once]))),
        1 => {
            let f = *r.pick(&[WFault::Err, WFault::Once]);
            if r.below(3) == 0 {
                sc.knobs.flush_fault = Some((r.below(14), f));
            } else {
                sc.knobs.write_fault = Some((r.below(800), f));
            }
        }
        5 => {
            let k = r.below(sc.ops.len().max(1));
            if let Some(Op::Send { source, content, .. }) = sc.ops.get_mut(k) {
                let mut s = crate::source::SourceSpec::random(r);
                s.fail_at = Some(r.below(content.len() + 1));
                *source = Some(s);
            }
        }
        2 => sc.plan.greeting = sc.plan.greeting.as_ref().map(|_| reply_neg(r, "greeting")),
        3 => sc.plan.ehlo = if r.below(3) == 0 { reply_neg(r, "ehlo") } else { sc.plan.ehlo.clone() },
        _ => {}
    }
    sc.texts = true;
    let t = run(sc);
    ctx.observe(&t);
    history(ctx, &t);
    for rec in &t.recs {
        let Some(d) = &rec.texts.display else { continue };
        let bad = |ctx: &mut Ctx, m: &str| ctx.fail(format!("operation {:?}: {m}: {d:?} ({:?})", rec.op, rec.texts.debug.chars().take(400).collect::<String>()), || t.dump());
        match &rec.res {
            Res::Err(ErrK::Transient(r)) | Res::Err(ErrK::Permanent(r)) => {
                ctx.count("refusal texts compared", 1);
                if !contains_lines(d, &r.lines) {
                    bad(ctx, "the text of the error does not tell all of the server's reply");
                }
                let (want, other) = if matches!(rec.res, Res::Err(ErrK::Transient(_))) { ("transient", "permanent") } else { ("permanent", "transient") };
                let low = d.to_ascii_lowercase();
                let said: String = r.lines.join(" ").to_ascii_lowercase();
                if !low.contains(want) || (low.contains(other) && !said.contains(other)) {
                    bad(ctx, "the text of the error does not tell which kind of refusal it is");
                }
            }
            Res::Err(ErrK::Io(_, m)) => {
                ctx.count("I/O error texts compared", 1);
                if !d.contains(m.as_str()) {
                    bad(ctx, "the text of the error does not tell the I/O error");
                }
                // All faults injected here carry this word.
                if rec.faults > 0 || reader_failed(&t, rec) {
                    ctx.count("injected errors traced", 1);
                    if !d.contains("injected") {
                        bad(ctx, "the text of the error does not tell what the transport or the message's reader said");
                    }
                    if !rec.texts.sources.iter().any(|s| s.contains("injected")) {
                        bad(ctx, "the I/O error is not the source of the error");
                    }
                }
            }
            _ => {
                ctx.count("other error texts", 1);
                if d.trim().is_empty() {
                    bad(ctx, "an error without a text");
                }
            }
        }
    }
}
fn reading_line(r: &mut Rng) -> String {
    let n = r.below(5);
    let mut s = String::new();
    for k in 0..n {
        if k > 0 || r.below(5) == 0 {
            s.push_str(r.pick(&[" ", "  ", " ", "\t"]));
        }
        s.push_str(r.pick(&["mx.example.org", "ESMTP", "5.7.1", "PIPELINING", "a", "caf\u{e9}", "-", "(x;y)", "250", "server,", "[127.0.0.1]"]));
    }
    if r.below(6) == 0 {
        s.push(' ');
    }
    s
}
fn c30_access(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let code = r.range(2, 5) as u16 * 100 + r.below(6) as u16 * 10 + r.below(10) as u16;
    let lines: Vec<String> = (0..r.range(1, 4)).map(|_| reading_line(r)).collect();
    let rep = Reply::new(code, lines.clone());
    let raw = String::from_utf8(rep.raw).expect("text");
    ctx.st.evals += 1;
    ctx.shape(hash_bytes(raw.as_bytes()));
    ctx.count("replies read", 1);
    let x: Response = match raw.parse() {
        Ok(x) => x,
        Err(e) => return ctx.fail(format!("{raw:?} is refused: {e}"), String::new),
    };
    ctx.sample(|| format!("{raw:?} -> {x:?}"));
    // The same reply made by hand
    let y = Response::new(x.code, lines.clone());
    let first = &lines[0];
    let word = first.split(|c: char| c == ' ' || c == '\t').find(|s| !s.is_empty());
    for z in [&x, &y] {
        if z.message != lines {
            ctx.fail(format!("{raw:?}: lines {:?}", z.message), String::new);
        }
        if z.first_line() != Some(first.as_str()) {
            ctx.fail(format!("{raw:?}: first_line is {:?}", z.first_line()), String::new);
        }
        if z.first_word() != word {
            ctx.fail(format!("{raw:?}: first_word is {:?}", z.first_word()), String::new);
        }
        if z.is_positive() != (code < 400) {
            ctx.fail(format!("{raw:?}: is_positive is {}", z.is_positive()), String::new);
        }
    }
    if x != y || x.clone() != x {
        ctx.fail(format!("{raw:?}: equal replies do not compare equal"), String::new);
    }
    let e: Error = x.clone().into();
    let ok = match (&e, code / 100) {
        (Error::Transient(z), 4) | (Error::Permanent(z), 5) => *z == x && contains_lines(&e.to_string(), &lines),
        (Error::Transient(_) | Error::Permanent(_), _) => false,
        (_, c) => c < 4,
    };
    if !ok {
        ctx.fail(format!("{raw:?} turned into an error is {e:?} ({e})"), String::new);
    }
    let empty = Response::new(x.code, vec![]);
    if empty.first_line().is_some() || empty.first_word().is_some() {
        ctx.fail("a reply without text has a first line or word", String::new);
    }
    if code < 300 {
        match async_smtp::extension::ServerInfo::from_response(&x) {
            Ok(i) => {
                if Some(i.name.as_str()) != word {
                    ctx.fail(format!("{raw:?}: the server's name is {:?}", i.name), String::new);
                }
                if !i.to_string().contains(&i.name) {
                    ctx.fail(format!("{raw:?}: the server is shown as {i}"), String::new);
                }
            }
            Err(e) => {
                if word.is_some() {
                    ctx.fail(format!("{raw:?}: no server information: {e}"), String::new);
                }
            }
        }
    }
}
fn c30_codes(ctx: &mut Ctx) {
    use async_smtp::response::{Category::*, Detail::*, Severity::*};
    let sev = [(PositiveCompletion, 2), (PositiveIntermediate, 3), (TransientNegativeCompletion, 4), (PermanentNegativeCompletion, 5)];
    let cat = [(Syntax, 0), (Information, 1), (Connections, 2), (Unspecified3, 3), (Unspecified4, 4), (MailSystem, 5)];
    let det = [(Zero, 0), (One, 1), (Two, 2), (Three, 3), (Four, 4), (Five, 5), (Six, 6), (Seven, 7), (Eight, 8), (Nine, 9)];
    for (s, sn) in sev {
        for (c, cn) in cat {
            for (d, dn) in det {
                let n: u16 = sn * 100 + cn * 10 + dn;
                let code = Code::new(s, c, d);
                let r = Response::new(code, vec!["x".into()]);
                ctx.st.evals += 1;
                ctx.shape(n as u64);
                ctx.count("codes compared", 1);
                for k in (0..1100).chain([2500, 25000, 65535]) {
                    if r.has_code(k) != (k == n) {
                        ctx.fail(format!("has_code({k}) of {n} is {}", r.has_code(k)), String::new);
                        return;
                    }
                }
                if code.to_string() != n.to_string() || r.is_positive() != (n < 400) {
                    ctx.fail(format!("code {n} is shown as {code}"), String::new);
                }
                match format!("{n} x\r\n").parse::<Response>() {
                    Ok(p) if p == r && p.code.severity == s && p.code.category == c && p.code.detail == d => {}
                    p => ctx.fail(format!("{n} is read as {p:?}"), String::new),
                }
            }
        }
    }
}
