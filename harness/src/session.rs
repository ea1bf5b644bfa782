//! Scenarios, the deterministic executor, and the trace of a run.
use crate::net::*;
use crate::rng::{hash_bytes, Rng};
use crate::server::*;
use crate::source::{self, SourceSpec};
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::error::Error;
use async_smtp::extension::ClientId;
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};
use std::cell::RefCell;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug)]
pub struct ClientCfg {
    /// None: not set
    pub hello: Option<ClientId>,
    pub utf8: Option<bool>,
    pub pipelining: Option<bool>,
    pub greeting: bool,
    /// In which order the settings are made
    pub order: u8,
}
impl ClientCfg {
    pub fn plain() -> ClientCfg {
        ClientCfg { hello: None, utf8: None, pipelining: None, greeting: true, order: 0 }
    }
    pub fn hello_text(&self) -> String {
        match &self.hello {
            None => "[127.0.0.1]".into(),
            Some(ClientId::Domain(d)) => d.clone(),
            Some(ClientId::Ipv4(a)) => format!("[{a}]"),
            Some(ClientId::Ipv6(a)) => format!("[IPv6:{a}]"),
        }
    }
    pub fn build(&self) -> SmtpClient {
        let mut c = if self.order >= 24 { SmtpClient::default() } else { SmtpClient::new() };
        // The settings are independent of each other.
        let mut left = vec![0, 1, 2, 3];
        let mut n = self.order as usize % 24;
        while !left.is_empty() {
            let k = left.remove(n % left.len());
            n /= left.len() + 1;
            c = match k {
                0 => match &self.hello {
                    Some(h) => c.hello_name(h.clone()),
                    None => c,
                },
                1 => match self.utf8 {
                    Some(x) => c.smtp_utf8(x),
                    None => c,
                },
                2 => match self.pipelining {
                    Some(x) => c.pipelining(x),
                    None => c,
                },
                _ if !self.greeting => c.without_greeting(),
                _ => c,
            };
        }
        c
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Send { from: Option<String>, to: Vec<String>, content: Vec<u8>, source: Option<SourceSpec> },
    Auth { mech: Mechanism, user: String, secret: String },
    TryLogin { mechs: Vec<Mechanism>, user: String, secret: String },
    Quit,
    /// Must be last
    Starttls,
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub cfg: ClientCfg,
    pub plan: Plan,
    pub ops: Vec<Op>,
    pub knobs: Knobs,
    /// Drop the client after this many polls
    pub abandon: Option<u64>,
    /// Drop these operations' futures after that many polls and go on with the next operation
    pub cancel: Vec<(usize, u64)>,
    /// Record the texts of errors and the transport's Debug text
    pub texts: bool,
}
impl Scenario {
    pub fn new(cfg: ClientCfg, plan: Plan, ops: Vec<Op>, knobs: Knobs) -> Scenario {
        Scenario { cfg, plan, ops, knobs, abandon: None, cancel: vec![], texts: false }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Resp {
    pub code: String,
    pub lines: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ErrK {
    Transient(Resp),
    Permanent(Resp),
    Io(std::io::ErrorKind, String),
    /// Anything else, with its Display
    Other(&'static str, String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    /// Success, with the reply if the operation returns one
    Ok(Option<Resp>),
    Err(ErrK),
    Stall,
    Panic(String),
    Spin(String),
    Abandoned,
}
impl Res {
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
    pub fn is_broken(&self) -> bool {
        matches!(self, Res::Stall | Res::Panic(_) | Res::Spin(_))
    }
}
pub fn resp_of(r: &async_smtp::response::Response) -> Resp {
    Resp { code: r.code.to_string(), lines: r.message.clone() }
}
pub fn err_of(e: &Error) -> ErrK {
    match e {
        Error::Transient(r) => ErrK::Transient(resp_of(r)),
        Error::Permanent(r) => ErrK::Permanent(resp_of(r)),
        Error::Io(e) => ErrK::Io(e.kind(), e.to_string()),
        Error::ResponseParsing(s) => ErrK::Other("ResponseParsing", s.to_string()),
        Error::ChallengeParsing(s) => ErrK::Other("ChallengeParsing", s.to_string()),
        Error::Utf8Parsing(s) => ErrK::Other("Utf8Parsing", s.to_string()),
        Error::Client(s) => ErrK::Other("Client", s.to_string()),
        Error::Parsing(s) => ErrK::Other("Parsing", format!("{s:?}")),
        e => ErrK::Other("?", e.to_string()),
    }
}
impl PartialEq<Reply> for Resp {
    fn eq(&self, r: &Reply) -> bool {
        self.code == format!("{:03}", r.code) && self.lines == r.lines
    }
}

#[derive(Clone, Debug)]
pub struct OpRec {
    /// None: connection set-up
    pub op: Option<usize>,
    pub res: Res,
    /// Client bytes written before and after
    pub w0: usize,
    pub w1: usize,
    /// Server bytes consumed before and after
    pub r0: usize,
    pub r1: usize,
    pub unflushed: usize,
    /// Errors the transport gave
    pub faults: u64,
    /// Attempts to write
    pub tried: u64,
    pub settled: bool,
    /// STARTTLS: what can still be read from the stream handed back
    pub rest: Option<Vec<u8>>,
    pub texts: Texts,
}
/// What the application can read about the operation
#[derive(Clone, Debug, Default)]
pub struct Texts {
    /// Of the error: Display, Debug and those of its sources
    pub display: Option<String>,
    pub debug: String,
    pub sources: Vec<String>,
    /// Of the transport afterwards
    pub transport: String,
}
impl Texts {
    pub fn of(e: &Error) -> Texts {
        let mut t = Texts { display: Some(e.to_string()), debug: format!("{e:?} {e:#?}"), sources: vec![], transport: String::new() };
        let mut s = std::error::Error::source(e);
        while let Some(x) = s {
            t.sources.push(format!("{x} {x:?}"));
            s = x.source();
        }
        t
    }
}

pub struct Trace {
    pub sc: Scenario,
    pub recs: Vec<OpRec>,
    pub pipe: Pipe,
    pub server: Server,
    /// At the time of a stall
    pub stall_unflushed: usize,
    pub stall_write: bool,
    pub sources: Vec<Option<source::Report>>,
    pub rounds: u64,
    pub extra_polls: u64,
    pub leaps: u64,
}

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Settle(Rc<RefCell<Pipe>>);
impl Future for Settle {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        let mut p = self.0.borrow_mut();
        if p.settle_now {
            p.settle_now = false;
            return Poll::Ready(());
        }
        p.settle_waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

struct Shared {
    recs: Vec<OpRec>,
    open: Option<OpRec>,
    sources: Vec<Option<source::Probe>>,
    texts: Texts,
}

fn begin(sh: &Rc<RefCell<Shared>>, pipe: &Rc<RefCell<Pipe>>, op: Option<usize>, settled: bool) {
    let p = pipe.borrow();
    sh.borrow_mut().open = Some(OpRec { op, res: Res::Stall, w0: p.wire.len(), w1: 0, r0: p.consumed, r1: 0, unflushed: 0, faults: p.io_errors, tried: p.write_polls, settled, rest: None, texts: Texts::default() });
}
fn end(sh: &Rc<RefCell<Shared>>, pipe: &Rc<RefCell<Pipe>>, res: Res, rest: Option<Vec<u8>>) {
    let p = pipe.borrow();
    let mut s = sh.borrow_mut();
    if let Some(mut r) = s.open.take() {
        r.res = res;
        r.w1 = p.wire.len();
        r.r1 = p.consumed;
        r.unflushed = p.unflushed();
        r.faults = p.io_errors - r.faults;
        r.tried = p.write_polls - r.tried;
        r.rest = rest;
        r.texts = std::mem::take(&mut s.texts);
        s.recs.push(r);
    }
}

fn note(sh: &Rc<RefCell<Shared>>, on: bool, e: &Error, t: Option<&SmtpTransport<Tr>>) {
    if on {
        let mut x = Texts::of(e);
        if let Some(t) = t {
            x.transport = format!("{t:?}");
        }
        sh.borrow_mut().texts = x;
    }
}
/// Polls the operation at most that often, then drops it.
struct Limited<F>(Pin<Box<F>>, Option<u64>);
impl<F: Future> Future for Limited<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        if let Some(n) = self.1.as_mut() {
            if *n == 0 {
                return Poll::Ready(None);
            }
            *n -= 1;
        }
        match self.0.as_mut().poll(cx) {
            Poll::Pending => {
                if self.1 == Some(0) {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
            Poll::Ready(x) => Poll::Ready(Some(x)),
        }
    }
}
fn res_of<T>(r: Option<Result<T, Error>>, f: impl Fn(&T) -> Option<Resp>) -> Res {
    match &r {
        None => Res::Abandoned,
        Some(Ok(x)) => Res::Ok(f(x)),
        Some(Err(e)) => Res::Err(err_of(e)),
    }
}

async fn session(cfg: ClientCfg, ops: Vec<Op>, settle: bool, cancel: Vec<(usize, u64)>, texts: bool, pipe: Rc<RefCell<Pipe>>, sh: Rc<RefCell<Shared>>) {
    begin(&sh, &pipe, None, true);
    let t = SmtpTransport::new(cfg.build(), Tr::new(pipe.clone())).await;
    let t = match t {
        Ok(t) => {
            end(&sh, &pipe, Res::Ok(None), None);
            t
        }
        Err(e) => {
            note(&sh, texts, &e, None);
            end(&sh, &pipe, Res::Err(err_of(&e)), None);
            return;
        }
    };
    let mut t = Some(t);
    for (i, op) in ops.iter().enumerate() {
        if settle {
            Settle(pipe.clone()).await;
        }
        let lim = cancel.iter().find(|c| c.0 == i).map(|c| c.1);
        match op {
            Op::Send { from, to, content, source } => {
                let from = from.as_ref().map(|x| EmailAddress::new(x.clone()).expect("generator: bad sender"));
                let to = to.iter().map(|x| x.parse().expect("generator: bad recipient")).collect();
                let env = Envelope::new(from, to).expect("generator: bad envelope");
                let email = match source {
                    None => SendableEmail::new(env, content.clone()),
                    Some(s) => {
                        let (reader, probe) = source::make(s.clone(), content.clone());
                        sh.borrow_mut().sources[i] = Some(probe);
                        SendableEmail::new_with_reader(env, reader)
                    }
                };
                begin(&sh, &pipe, Some(i), settle);
                let r = Limited(Box::pin(t.as_mut().unwrap().send(email)), lim).await;
                if let Some(Err(e)) = &r {
                    note(&sh, texts, e, t.as_ref());
                }
                let r = res_of(r, |r| Some(resp_of(r)));
                if texts {
                    sh.borrow_mut().texts.transport = format!("{:?}", t.as_ref());
                }
                end(&sh, &pipe, r, None);
            }
            Op::Auth { mech, user, secret } => {
                let c = Credentials::new(user.clone(), secret.clone());
                begin(&sh, &pipe, Some(i), settle);
                let r = Limited(Box::pin(t.as_mut().unwrap().auth(*mech, &c)), lim).await;
                if let Some(Err(e)) = &r {
                    note(&sh, texts, e, t.as_ref());
                }
                let r = res_of(r, |r| Some(resp_of(r)));
                if texts {
                    sh.borrow_mut().texts.transport = format!("{:?}", t.as_ref());
                }
                end(&sh, &pipe, r, None);
            }
            Op::TryLogin { mechs, user, secret } => {
                let c = Credentials::new(user.clone(), secret.clone());
                begin(&sh, &pipe, Some(i), settle);
                let r = Limited(Box::pin(t.as_mut().unwrap().try_login(&c, mechs)), lim).await;
                if let Some(Err(e)) = &r {
                    note(&sh, texts, e, t.as_ref());
                }
                let r = res_of(r, |_| None);
                if texts {
                    sh.borrow_mut().texts.transport = format!("{:?}", t.as_ref());
                }
                end(&sh, &pipe, r, None);
            }
            Op::Quit => {
                begin(&sh, &pipe, Some(i), settle);
                let r = Limited(Box::pin(t.as_mut().unwrap().quit()), lim).await;
                if let Some(Err(e)) = &r {
                    note(&sh, texts, e, t.as_ref());
                }
                let r = res_of(r, |_| None);
                if texts {
                    sh.borrow_mut().texts.transport = format!("{:?}", t.as_ref());
                }
                end(&sh, &pipe, r, None);
            }
            Op::Starttls => {
                begin(&sh, &pipe, Some(i), settle);
                let r = t.take().unwrap().starttls().await;
                match r {
                    Ok(s) => {
                        let rest = s.remaining();
                        end(&sh, &pipe, Res::Ok(None), Some(rest));
                    }
                    Err(e) => {
                        note(&sh, texts, &e, None);
                        end(&sh, &pipe, Res::Err(err_of(&e)), None)
                    }
                }
                return;
            }
        }
    }
}

struct Sess {
    sc: Scenario,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    pipe: Rc<RefCell<Pipe>>,
    sh: Rc<RefCell<Shared>>,
    server: Server,
    flag: Arc<Flag>,
    waker: Waker,
    rng: Rng,
    clock: Rng,
    polls: u64,
    stall_unflushed: usize,
    stall_write: bool,
    rounds: u64,
    extra_polls: u64,
    leaps: u64,
    passed: i64,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Text of a panic caught from a poll; None for the transport's own spin marker
fn panic_res(e: Box<dyn std::any::Any + Send>) -> Res {
    if let Some(m) = e.downcast_ref::<SpinMarker>() {
        return Res::Spin(format!("no progress after very many {} calls", m.0));
    }
    let msg = LAST_PANIC.with(|l| l.borrow().clone());
    Res::Panic(msg)
}

impl Sess {
    fn new(sc: Scenario) -> Sess {
        let pipe = Rc::new(RefCell::new(Pipe::new(sc.knobs.clone())));
        let n = sc.ops.len();
        let sh = Rc::new(RefCell::new(Shared { recs: vec![], open: None, sources: (0..n).map(|_| None).collect(), texts: Texts::default() }));
        let mut server = Server::new(sc.plan.clone());
        server.start(&mut pipe.borrow_mut());
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let waker = Waker::from(flag.clone());
        let fut = session(sc.cfg.clone(), sc.ops.clone(), sc.knobs.settle, sc.cancel.clone(), sc.texts, pipe.clone(), sh.clone());
        let rng = Rng::new(sc.knobs.seed ^ 0x77);
        let clock = Rng::new(sc.knobs.seed ^ 0xc10c);
        Sess { sc, fut: Some(Box::pin(fut)), pipe, sh, server, flag, waker, rng, clock, leaps: 0, passed: 0, polls: 0, stall_unflushed: 0, stall_write: false, rounds: 0, extra_polls: 0 }
    }
    fn kill(&mut self, res: Res) {
        end(&self.sh, &self.pipe, res, None);
        if let Some(f) = self.fut.take() {
            // Dropping library state must not panic either
            if let Err(e) = std::panic::catch_unwind(AssertUnwindSafe(move || drop(f))) {
                let r = panic_res(e);
                let mut s = self.sh.borrow_mut();
                if let Some(l) = s.recs.last_mut() {
                    l.res = r;
                }
            }
        }
    }
    /// One round; false when nothing is left to do.
    fn round(&mut self) -> bool {
        if self.fut.is_none() {
            return false;
        }
        self.rounds += 1;
        let mut client = self.flag.0.load(Ordering::SeqCst);
        let server = {
            let p = self.pipe.borrow();
            self.server.can_step(&p)
        };
        if !client && !server {
            let mut p = self.pipe.borrow_mut();
            if let Some(w) = p.settle_waker.take() {
                p.settle_now = true;
                w.wake();
                return true;
            }
            self.stall_unflushed = p.unflushed();
            self.stall_write = p.blocked_write;
            drop(p);
            self.kill(Res::Stall);
            return true;
        }
        // Any time may pass before something else happens.
        if self.sc.knobs.leap > 0 && self.clock.pm(self.sc.knobs.leap) {
            let ns = 1_000_000i64 << self.clock.below(28);
            // Up to one and a half days each, a year in all
            if self.passed < 31_536_000_000_000_000 {
                self.passed += ns;
                self.leaps += 1;
            }
        }
        crate::set_ahead(self.passed);
        // Executors may poll a task again at any time.
        if !client && self.sc.knobs.spurious > 0 && self.rng.pm(self.sc.knobs.spurious) {
            client = true;
            self.extra_polls += 1;
        }
        let run_client = match (client, server) {
            (true, false) => true,
            (false, true) => false,
            _ => match self.sc.knobs.policy {
                Policy::Eager => false,
                Policy::Lazy => true,
                Policy::Random => self.rng.bool(),
            },
        };
        if run_client {
            if let Some(k) = self.sc.abandon {
                if self.polls >= k {
                    self.kill(Res::Abandoned);
                    return true;
                }
            }
            if self.sc.knobs.fresh {
                self.flag = Arc::new(Flag(AtomicBool::new(false)));
                self.waker = Waker::from(self.flag.clone());
            }
            self.flag.0.store(false, Ordering::SeqCst);
            self.polls += 1;
            let waker = self.waker.clone();
            let mut cx = Context::from_waker(&waker);
            let fut = self.fut.as_mut().unwrap();
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
            match r {
                Ok(Poll::Pending) => {}
                Ok(Poll::Ready(())) => {
                    self.fut = None;
                }
                Err(e) => {
                    let r = panic_res(e);
                    self.kill(r);
                }
            }
        } else {
            let mut p = self.pipe.borrow_mut();
            let chunk = self.sc.knobs.release_chunk;
            self.server.step(&mut p, chunk);
        }
        true
    }
    fn finish(mut self) -> Trace {
        crate::set_ahead(0);
        // The connection is closed: bytes that were flushed still arrive.
        {
            let mut p = self.pipe.borrow_mut();
            p.client_gone = true;
            p.knobs.cap_s2c = usize::MAX;
            let mut n = 0u64;
            while self.server.can_step(&p) && n < 10_000_000 {
                self.server.step(&mut p, Chunk::All);
                n += 1;
            }
            self.server.finish(&p);
        }
        drop(self.fut.take());
        let sources: Vec<_> = self.sh.borrow_mut().sources.drain(..).map(|x| x.map(|y| y.report())).collect();
        let recs = std::mem::take(&mut self.sh.borrow_mut().recs);
        let pipe = self.pipe.replace(Pipe::new(Knobs::plain()));
        Trace { sc: self.sc, recs, pipe, server: self.server, stall_unflushed: self.stall_unflushed, stall_write: self.stall_write, sources, rounds: self.rounds, extra_polls: self.extra_polls, leaps: self.leaps }
    }
}

pub fn run(sc: Scenario) -> Trace {
    crate::beat();
    let mut s = Sess::new(sc);
    while s.round() {}
    s.finish()
}

/// Several sessions interleaved at random on this thread
pub fn run_many(scs: Vec<Scenario>, rng: &mut Rng) -> (Vec<Trace>, u64) {
    let mut v: Vec<Sess> = scs.into_iter().map(Sess::new).collect();
    let mut switches = 0;
    let mut live: Vec<usize> = (0..v.len()).collect();
    let mut last = usize::MAX;
    while !live.is_empty() {
        let k = rng.below(live.len());
        let i = live[k];
        if i != last {
            switches += 1;
            last = i;
        }
        let burst = rng.range(1, 4);
        for _ in 0..burst {
            if !v[i].round() {
                live.remove(k);
                break;
            }
        }
    }
    (v.into_iter().map(|s| s.finish()).collect(), switches)
}

/// A session on its way from one thread to another. Everything that is not `Send` in it is only reachable from it:
/// the transport's and the recorder's reference counts, all of whose holders move along.
struct Parcel(Box<Sess>, usize);
unsafe impl Send for Parcel {}

/// Sessions taken up by whichever thread is free, for a few polls at a time. Returns the digest and text of each, and how
/// often a session changed threads.
pub fn run_shared(scs: &[Scenario], threads: usize, seed: u64) -> (Vec<(u64, String, Option<String>)>, u64) {
    use std::sync::Mutex;
    let todo: Mutex<Vec<(Parcel, usize)>> = Mutex::new(vec![]);
    let moves = std::sync::atomic::AtomicU64::new(0);
    let left = std::sync::atomic::AtomicUsize::new(scs.len());
    let out: Mutex<Vec<(usize, u64, String, Option<String>)>> = Mutex::new(vec![]);
    // Made here, used over there
    for (k, s) in scs.iter().enumerate() {
        todo.lock().unwrap().push((Parcel(Box::new(Sess::new(s.clone())), usize::MAX), k));
    }
    let log = crate::LOG_ON.with(|l| l.get());
    std::thread::scope(|s| {
        for th in 0..threads {
            let (todo, moves, left, out) = (&todo, &moves, &left, &out);
            s.spawn(move || {
                crate::LOG_ON.with(|l| l.set(log));
                let mut r = Rng::new(seed ^ th as u64);
                while left.load(Ordering::SeqCst) > 0 {
                    let got = {
                        let mut q = todo.lock().unwrap();
                        let n = q.len();
                        if n == 0 {
                            None
                        } else {
                            Some(q.swap_remove(r.below(n)))
                        }
                    };
                    let Some((Parcel(mut p, last), k)) = got else {
                        std::thread::yield_now();
                        continue;
                    };
                    if last != th {
                        moves.fetch_add(1, Ordering::Relaxed);
                    }
                    let mut live = true;
                    for _ in 0..r.range(1, 4) {
                        live = p.round();
                        if !live {
                            break;
                        }
                    }
                    if live {
                        todo.lock().unwrap().push((Parcel(p, th), k));
                    } else {
                        let t = p.finish();
                        let b = t.broken().map(|x| format!("operation {:?}: {:?}", x.op, x.res));
                        out.lock().unwrap().push((k, t.digest(), t.dump(), b));
                        left.fetch_sub(1, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    (v.into_iter().map(|(_, a, b, c)| (a, b, c)).collect(), moves.into_inner())
}

impl Trace {
    pub fn setup(&self) -> &OpRec {
        &self.recs[0]
    }
    pub fn rec(&self, op: usize) -> Option<&OpRec> {
        self.recs.iter().find(|r| r.op == Some(op))
    }
    /// What the server took that was written during the operation
    pub fn items(&self, r: &OpRec) -> Vec<(usize, &Item)> {
        self.server.items.iter().enumerate().filter(|(_, i)| i.kind != Kind::Greeting && i.from >= r.w0 && i.from < r.w1).collect()
    }
    pub fn broken(&self) -> Option<&OpRec> {
        self.recs.iter().find(|r| r.res.is_broken())
    }
    /// Hash of everything observable
    pub fn digest(&self) -> u64 {
        let mut s = self.pipe.wire.clone();
        for r in &self.recs {
            s.extend_from_slice(format!("|{:?} {:?} {} {}", r.op, norm(&r.res), r.w0, r.w1).as_bytes());
        }
        for d in &self.server.delivered {
            s.extend_from_slice(format!("|{d:?}").as_bytes());
        }
        hash_bytes(&s)
    }
    /// Hash of the shape of the dialogue: kinds, reply codes and results
    pub fn shape(&self) -> u64 {
        let mut s = String::new();
        for i in &self.server.items {
            s.push_str(&format!("{:?}{} ", i.kind, i.reply.code));
        }
        for r in &self.recs {
            s.push_str(match &r.res {
                Res::Ok(_) => "ok ",
                Res::Err(ErrK::Transient(_)) => "t ",
                Res::Err(ErrK::Permanent(_)) => "p ",
                Res::Err(ErrK::Io(..)) => "io ",
                Res::Err(ErrK::Other(k, _)) => k,
                Res::Stall => "stall ",
                Res::Panic(_) => "panic ",
                Res::Spin(_) => "spin ",
                Res::Abandoned => "ab ",
            });
        }
        hash_bytes(s.as_bytes())
    }
    pub fn dump(&self) -> String {
        let esc = |b: &[u8]| {
            let b2 = if b.len() > 600 { &b[..600] } else { b };
            format!("{}{}", b2.escape_ascii(), if b.len() > 600 { format!("...({} bytes)", b.len()) } else { String::new() })
        };
        let mut s = format!("scenario:\n  client {:?}\n  knobs {:?}\n  abandon {:?} cancel {:?}\n", self.sc.cfg, self.sc.knobs, self.sc.abandon, self.sc.cancel);
        for (i, o) in self.sc.ops.iter().enumerate() {
            match o {
                Op::Send { from, to, content, source } => s.push_str(&format!(
                    "  op {i}: send from {:?} to {:?} content b\"{}\" source {:?}\n",
                    from,
                    if to.len() > 12 { &to[..12] } else { to },
                    esc(content),
                    source
                )),
                o => s.push_str(&format!("  op {i}: {o:?}\n")),
            }
        }
        s.push_str("server:\n");
        for (k, i) in self.server.items.iter().enumerate().take(60) {
            s.push_str(&format!("  [{}..{}] {:?}{} b\"{}\" -> b\"{}\"\n", i.from, i.to, i.kind, if i.forced { "!" } else { "" }, esc(&i.text), esc(&i.reply.raw)));
            if k == 59 {
                s.push_str("  ...\n");
            }
        }
        if let Some((_, d)) = &self.server.open_data {
            s.push_str(&format!("  unfinished data b\"{}\"\n", esc(d)));
        }
        for c in &self.server.complaints {
            s.push_str(&format!("  complaint: {c}\n"));
        }
        for d in &self.server.delivered {
            s.push_str(&format!("  delivered from <{}> to {:?} b\"{}\"\n", d.from, if d.to.len() > 12 { &d.to[..12] } else { &d.to }, esc(&d.content)));
        }
        s.push_str("results:\n");
        for r in &self.recs {
            s.push_str(&format!("  {:?}: {:?} (wrote {}..{}, read {}..{}, unflushed {})\n", r.op, r.res, r.w0, r.w1, r.r0, r.r1, r.unflushed));
        }
        s.push_str(&format!("wire: b\"{}\"\nsent by server: b\"{}\"\n", esc(&self.pipe.wire), esc(&self.pipe.out)));
        s
    }
}

/// Result without what may differ between runtimes (texts of I/O errors made by the runtime)
pub fn norm(r: &Res) -> Res {
    match r {
        Res::Err(ErrK::Io(k, _)) => Res::Err(ErrK::Io(*k, String::new())),
        r => r.clone(),
    }
}
