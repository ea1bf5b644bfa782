//! What a case reports: counts of what was observed, and violations.
use crate::rng::Rng;
use crate::session::{ErrK, Res, Trace};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub shapes: HashSet<u64>,
    /// Cases distinct by construction (exhaustive enumeration)
    pub enumerated: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub digests: Vec<(usize, u64, u64)>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.enumerated += o.enumerated;
        for s in o.shapes {
            if self.shapes.len() < 4_000_000 {
                self.shapes.insert(s);
            }
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.digests.extend(o.digests);
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub msg: String,
    pub detail: String,
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub st: &'a mut Stats,
    pub failure: Option<Failure>,
    pub thorough: bool,
    pub workload: usize,
    pub idx: u64,
    pub want_sample: bool,
    pub verbose: bool,
    /// Cases are distinct by construction and counted as such
    pub enumerating: bool,
}
impl Ctx<'_> {
    pub fn count(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.st.counts.entry(k).or_default() += n;
        }
    }
    pub fn shape(&mut self, h: u64) {
        if !self.enumerating && self.st.shapes.len() < 1_000_000 {
            self.st.shapes.insert(h);
        }
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
    pub fn fail(&mut self, msg: impl Into<String>, detail: impl FnOnce() -> String) {
        if self.failure.is_none() {
            self.failure = Some(Failure { msg: msg.into(), detail: detail() });
        }
    }
    pub fn ensure(&mut self, ok: bool, msg: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(msg, detail);
        }
        ok
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.want_sample && self.st.samples.len() < 3 {
            let mut t = s();
            if t.len() > 1500 {
                let mut n = 1500;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push_str("...");
            }
            self.st.samples.push(t);
        }
    }
    /// Counts one observed session
    pub fn observe(&mut self, t: &Trace) {
        self.st.evals += 1;
        self.shape(t.shape());
        self.count("client operations", t.recs.len() as u64);
        self.count("client lines and messages", t.server.items.len() as u64);
        self.count("client bytes", t.pipe.wire.len() as u64);
        self.count("server bytes", t.pipe.out.len() as u64);
        self.count("messages delivered", t.server.delivered.len() as u64);
        self.count("not-ready results given", t.pipe.pends);
        self.count("partial writes", t.pipe.partial_writes);
        self.count("waits for the server", t.pipe.waits);
        self.count("transport faults hit", t.pipe.io_errors);
        for r in &t.recs {
            self.count(
                match &r.res {
                    Res::Ok(_) => "operations ok",
                    Res::Err(ErrK::Transient(_)) => "operations refused (4yz)",
                    Res::Err(ErrK::Permanent(_)) => "operations refused (5yz)",
                    Res::Err(ErrK::Io(..)) => "operations failed (I/O)",
                    Res::Err(ErrK::Other(..)) => "operations failed (other)",
                    Res::Abandoned => "operations abandoned",
                    _ => "operations broken",
                },
                1,
            );
        }
        if self.verbose {
            println!("{}", t.dump());
        }
        self.sample(|| t.dump());
    }
    /// No panic, endless loop or endless wait
    pub fn sane(&mut self, t: &Trace) -> bool {
        if let Some(r) = t.broken() {
            let what = match &r.res {
                Res::Panic(m) => format!("panic: {m}"),
                Res::Spin(m) => format!("endless loop: {m}"),
                _ => format!(
                    "operation {:?} waits forever for {}",
                    r.op,
                    if t.stall_write { "room to write".to_string() } else { format!("a reply that will not come ({} bytes not flushed)", t.stall_unflushed) }
                ),
            };
            self.fail(what, || t.dump());
            return false;
        }
        true
    }
}
