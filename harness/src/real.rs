//! The client over real loopback connections, its operations spawned on the runtime's own threads.
use crate::net::*;
use crate::rng::Rng;
use crate::server::*;
use crate::session::*;
use async_smtp::authentication::Credentials;
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpTransport};
use std::future::Future;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

/// What the far end of one connection saw
pub struct Seen {
    pub wire: Vec<u8>,
    pub delivered: Vec<Delivery>,
    pub complaints: Vec<String>,
}
/// Whether the client's futures may be spawned on other threads is decided elsewhere (C28's type probes); here it is asserted,
/// so that this program can still be built if they may not.
struct AssertSend<F>(Pin<Box<F>>);
unsafe impl<F> Send for AssertSend<F> {}
impl<F: Future> Future for AssertSend<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}

/// None: gave up waiting, or the sandbox's network failed
fn serve(l: TcpListener, plan: Plan, seed: u64) -> Option<Seen> {
    let (mut sock, _) = l.accept().ok()?;
    sock.set_read_timeout(Some(Duration::from_secs(100))).ok()?;
    sock.set_nodelay(true).ok()?;
    let mut r = Rng::new(seed);
    let mut p = Pipe::new(Knobs::plain());
    let mut s = Server::new(plan);
    s.start(&mut p);
    let mut sent = 0;
    let mut buf = vec![0; 4096];
    let chunk = *r.pick(&[Chunk::All, Chunk::All, Chunk::Upto(40), Chunk::Upto(5)]);
    loop {
        while s.can_step(&mut p) {
            s.step(&mut p, chunk);
            if p.released > sent {
                // Fails if the client has gone
                if sock.write_all(&p.out[sent..p.released]).is_err() {
                    break;
                }
                sent = p.released;
                p.exposed = sent;
                if r.below(40) == 0 {
                    std::thread::sleep(Duration::from_micros(r.range(1, 300) as u64));
                }
            }
        }
        if p.server_closed {
            let _ = sock.shutdown(Shutdown::Write);
        }
        let n = *r.pick(&[1, 7, 100, 4096]);
        match sock.read(&mut buf[..n]) {
            Ok(0) => break,
            Ok(n) => {
                p.wire.extend_from_slice(&buf[..n]);
                p.visible = p.wire.len();
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return None,
            Err(_) => break,
        }
    }
    p.client_gone = true;
    s.finish(&p);
    Some(Seen { wire: p.wire, delivered: s.delivered, complaints: s.complaints })
}

#[cfg(feature = "rt-tokio")]
type Stream = tokio::io::BufStream<tokio::net::TcpStream>;
#[cfg(feature = "rt-tokio")]
async fn connect(port: u16) -> std::io::Result<Stream> {
    Ok(tokio::io::BufStream::new(tokio::net::TcpStream::connect(("127.0.0.1", port)).await?))
}
#[cfg(feature = "rt-async-std")]
pub struct Duplex {
    r: async_std::io::BufReader<async_std::net::TcpStream>,
    w: async_std::io::BufWriter<async_std::net::TcpStream>,
}
#[cfg(feature = "rt-async-std")]
mod duplex {
    use super::*;
    use async_std::io as aio;
    impl aio::Read for Duplex {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
            Pin::new(&mut self.r).poll_read(cx, buf)
        }
    }
    impl aio::BufRead for Duplex {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
            Pin::new(&mut self.get_mut().r).poll_fill_buf(cx)
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) {
            Pin::new(&mut self.r).consume(n)
        }
    }
    impl aio::Write for Duplex {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
            Pin::new(&mut self.w).poll_write(cx, buf)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Pin::new(&mut self.w).poll_flush(cx)
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Pin::new(&mut self.w).poll_close(cx)
        }
    }
}
#[cfg(feature = "rt-async-std")]
type Stream = Duplex;
#[cfg(feature = "rt-async-std")]
async fn connect(port: u16) -> std::io::Result<Stream> {
    let s = async_std::net::TcpStream::connect(("127.0.0.1", port)).await?;
    Ok(Duplex { r: async_std::io::BufReader::new(s.clone()), w: async_std::io::BufWriter::new(s) })
}

fn kind<T>(r: Result<T, async_smtp::error::Error>, f: impl Fn(&T) -> Option<Resp>) -> Res {
    match r {
        Ok(x) => Res::Ok(f(&x)),
        Err(e) => Res::Err(err_of(&e)),
    }
}
/// The results of set-up and of each operation; None if the connection could not be made
async fn client(sc: Scenario, port: u16) -> Option<Vec<Res>> {
    let s = connect(port).await.ok()?;
    let mut v = vec![];
    let mut t = match SmtpTransport::new(sc.cfg.build(), s).await {
        Ok(t) => {
            v.push(Res::Ok(None));
            t
        }
        Err(e) => return Some(vec![Res::Err(err_of(&e))]),
    };
    for op in &sc.ops {
        let r = match op {
            Op::Send { from, to, content, source } => {
                let from = from.as_ref().map(|x| EmailAddress::new(x.clone()).expect("generator"));
                let env = Envelope::new(from, to.iter().map(|x| x.parse().expect("generator")).collect()).expect("generator");
                let email = match source {
                    None => SendableEmail::new(env, content.clone()),
                    Some(s) => SendableEmail::new_with_reader(env, crate::source::make(s.clone(), content.clone()).0),
                };
                kind(t.send(email).await, |r| Some(resp_of(r)))
            }
            Op::Auth { mech, user, secret } => kind(t.auth(*mech, &Credentials::new(user.clone(), secret.clone())).await, |r| Some(resp_of(r))),
            Op::TryLogin { mechs, user, secret } => kind(t.try_login(&Credentials::new(user.clone(), secret.clone()), mechs).await, |_| None),
            Op::Quit => kind(t.quit().await, |_| None),
            Op::Starttls => {
                v.push(kind(t.starttls().await, |_| None));
                return Some(v);
            }
        };
        v.push(r);
    }
    Some(v)
}

#[cfg(feature = "rt-tokio")]
fn run_all(jobs: Vec<(Scenario, u16)>) -> Vec<Result<Option<Vec<Res>>, String>> {
    use std::sync::OnceLock;
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    let rt = RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime"));
    let hs: Vec<_> = jobs.into_iter().map(|(sc, port)| rt.spawn(AssertSend(Box::pin(client(sc, port))))).collect();
    hs.into_iter().map(|h| rt.block_on(h).map_err(|e| e.to_string())).collect()
}
#[cfg(feature = "rt-async-std")]
fn run_all(jobs: Vec<(Scenario, u16)>) -> Vec<Result<Option<Vec<Res>>, String>> {
    /// A panic of the task, as an error
    struct Caught<F>(AssertSend<F>);
    impl<F: Future> Future for Caught<F> {
        type Output = Result<F::Output, String>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
            let f = Pin::new(&mut self.0);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.poll(cx))) {
                Ok(Poll::Pending) => Poll::Pending,
                Ok(Poll::Ready(x)) => Poll::Ready(Ok(x)),
                Err(_) => Poll::Ready(Err("panic".into())),
            }
        }
    }
    let hs: Vec<_> = jobs.into_iter().map(|(sc, port)| async_std::task::spawn(Caught(AssertSend(Box::pin(client(sc, port)))))).collect();
    hs.into_iter().map(async_std::task::block_on).collect()
}

/// Runs the sessions at the same time. None for one that could not be observed.
#[allow(clippy::type_complexity)]
pub fn run_real(scs: &[Scenario], seed: u64) -> Vec<Option<(Result<Vec<Res>, String>, Seen)>> {
    let mut jobs = vec![];
    let mut servers = vec![];
    for (k, sc) in scs.iter().enumerate() {
        let Ok(l) = TcpListener::bind("127.0.0.1:0") else { return scs.iter().map(|_| None).collect() };
        let port = l.local_addr().expect("address").port();
        let plan = sc.plan.clone();
        servers.push((port, std::thread::spawn(move || serve(l, plan, seed ^ k as u64))));
        jobs.push((sc.clone(), port));
    }
    let res = run_all(jobs);
    servers
        .into_iter()
        .zip(res)
        .map(|((port, h), r)| {
            if matches!(r, Ok(None)) {
                // Nobody connected: let the server go.
                let _ = TcpStream::connect(("127.0.0.1", port));
                let _ = h.join();
                return None;
            }
            let seen = h.join().ok().flatten()?;
            Some((r.map(|x| x.unwrap_or_default()), seen))
        })
        .collect()
}
