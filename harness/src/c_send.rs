//! Sending messages: C01-C09, C20, C21, C22, C23, C24
use crate::ctx::Ctx;
use async_smtp::authentication::Mechanism;
use crate::gen::*;
use crate::net::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::server::*;
use crate::session::*;
use crate::source::SourceSpec;
use crate::{Check, Workload};

fn w(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Workload {
    Workload { name, quick, thorough, exhaustive: false, f }
}
fn wx(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Workload {
    Workload { name, quick, thorough, exhaustive: true, f }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "sessions sending messages to a strict server which unstuffs them; exhaustive: every content over {'.', CR, LF, 'a'} up to a length; random: dots and line ends at random and at buffer boundaries, binary and large contents; distinct by dialogue shape or by construction, all with content",
            workloads: vec![wx("exhaustive-contents", EXH_QUICK, EXH_THOROUGH, c01_exhaustive), w("soup", 18_000, 300_000, c01_soup), w("boundaries", 4500, 40_000, c01_boundaries), w("in-histories", 9000, 150_000, c01_histories), w("long-sessions", 240, 4000, c01_long), w("large", 180, 1500, c01_large), w("huge", 12, 120, c01_huge)],
            floors: vec![("messages delivered", 20_000), ("contents with a line starting with a dot", 5000), ("contents with an unterminated last line", 5000), ("empty contents", 10), ("contents ended among refusals", 5000)],
        },
        Check {
            id: "C02",
            rule: "sessions whose messages come from readers with random splits, delays and failures at every offset, compared with the same bytes given directly; non-trivial: at least one reader was polled",
            workloads: vec![w("same-as-bytes", 15_000, 200_000, c02_same), w("failing-readers", 15_000, 200_000, c02_fail), w("failing-once", 9000, 120_000, c02_once), w("failing-among-refusals", 9000, 120_000, c02_among), w("huge", 6, 60, c02_huge)],
            floors: vec![("readers that failed among refusals", 2000), ("readers read to their end", 5000), ("readers that failed", 3000), ("messages sent after a failure", 3000), ("deferred reads", 1000)],
        },
        Check {
            id: "C03",
            rule: "sends against every combination of refused step and reply class (systematic), and random multi-line replies and histories; distinct by dialogue shape",
            workloads: vec![wx("systematic-refusals", C03_SYS, C03_SYS, c03_systematic), w("random", 24_000, 400_000, c03_random)],
            floors: vec![("operations refused (4yz)", 500), ("operations refused (5yz)", 500), ("messages delivered", 2000), ("operations failed (other)", 100)],
        },
        Check {
            id: "C04",
            rule: "random histories of sends with arbitrary envelopes (null sender, duplicates, long and odd addresses, many recipients) with and without refusals; distinct by dialogue shape",
            workloads: vec![w("accepted", 15_000, 200_000, c04_accepted), w("histories", 18_000, 300_000, c04_histories), w("many-recipients", 180, 1500, c04_many), w("heavy", 900, 12_000, c04_heavy)],
            floors: vec![("RCPT commands", 20_000), ("sends with a duplicate recipient", 300), ("sends with a null sender", 500), ("RSET commands", 100)],
        },
        Check {
            id: "C05",
            rule: "sessions over lazy, eager and random servers and byte-wise transports; for every command the replies received before its first byte was written are checked; distinct by dialogue shape",
            workloads: vec![w("lock-step", 15_000, 200_000, c05_lockstep), w("pipelined", 15_000, 200_000, c05_pipelined), w("histories", 12_000, 200_000, c05_histories), w("heavy", 900, 12_000, c05_heavy)],
            floors: vec![("commands written ahead of a reply", 5000), ("commands that waited for a reply", 20_000)],
        },
        Check {
            id: "C06",
            rule: "each case is one message and one set of server decisions, sent once over a lock-step and once over a pipelined connection, results and deliveries compared; systematic over refused steps and random",
            workloads: vec![wx("systematic-refusals", C03_SYS, C03_SYS, c06_systematic), w("random", 18_000, 300_000, c06_random), w("heavy", 600, 8000, c06_heavy)],
            floors: vec![("pairs compared", 5000), ("pairs refused", 1000), ("pairs delivered", 1000), ("commands written ahead of a reply", 2000)],
        },
        Check {
            id: "C07",
            rule: "random histories (sends, logins, quit; refusals at any step, go-aheads in spite of refusals, malformed replies, failing readers, cancelled operations, late replies) judged by a server model; distinct by dialogue shape, multi-operation",
            workloads: vec![w("histories", 36_000, 600_000, c07_histories), w("pipelined-histories", 24_000, 400_000, c07_pipelined), w("two-sends", 24_000, 300_000, c07_two), w("cancelled", 18_000, 300_000, c07_cancelled), w("late-replies", 18_000, 300_000, c07_late), w("malformed-replies", 12_000, 200_000, c07_malformed), w("heavy", 3000, 40_000, c07_heavy)],
            floors: vec![("operations after a refused one", 3000), ("messages delivered", 5000), ("operations abandoned", 1000), ("operations failed (other)", 500)],
        },
        Check {
            id: "C08",
            rule: "sessions with every kind of operation over a transport that shows the server nothing before a flush; unflushed bytes are measured whenever the client waits and when an operation returns; distinct by dialogue shape",
            workloads: vec![w("histories", 24_000, 400_000, c08), w("pipelined", 12_000, 200_000, c08_pipelined), w("heavy", 900, 12_000, c08_heavy)],
            floors: vec![("waits for the server", 20_000), ("operations refused (5yz)", 300)],
        },
        Check {
            id: "C09",
            rule: "pipelined sends to up to thousands of recipients with replies of up to 512 bytes over a transport holding 64 KiB in each direction, the server blocking when its replies are not taken; distinct by dialogue shape",
            workloads: vec![w("many-recipients", 480, 4000, c09)],
            floors: vec![("RCPT commands", 20_000), ("sends with more than 300 recipients", 20), ("messages delivered", 20)],
        },
        Check {
            id: "C20",
            rule: "for each base session, one run per byte offset and kind of fault (end of stream, read error, read timeout, write error) and per flush; all offsets of the base sessions are enumerated; distinct by dialogue shape and fault",
            workloads: vec![w("every-offset", 240, 2500, c20), w("heavy", 1800, 30_000, c20_heavy)],
            floors: vec![("faults injected", 30_000), ("transport faults hit", 20_000), ("operations failed (I/O)", 15_000)],
        },
        Check {
            id: "C21",
            rule: "each base session (also with faults of content: refusals, hostile bytes) is run with plain and with random transport behaviour, and bytes, results and deliveries are compared; distinct by dialogue shape",
            workloads: vec![w("against-plain", 15_000, 250_000, c21), w("hostile", 4500, 60_000, c21_hostile), w("small-buffers", 4500, 60_000, c21_small), w("heavy", 600, 8000, c21_heavy)],
            floors: vec![("runs compared", 20_000), ("leaps of the clock", 20_000), ("not-ready results given", 20_000), ("partial writes", 20_000)],
        },
        Check {
            id: "C22",
            rule: "the same generated sessions (histories, readers, faults, hostile replies) are run in both builds and digests of bytes, results and deliveries are compared; distinct by dialogue shape",
            workloads: vec![w("histories", 24_000, 300_000, c22_histories), w("faults", 18_000, 200_000, c22_faults), w("hostile", 15_000, 200_000, c22_hostile), w("contents", 9000, 100_000, c22_contents), w("heavy", 900, 12_000, c22_heavy)],
            floors: vec![("operations ok", 5000), ("operations failed (I/O)", 2000)],
        },
        Check {
            id: "C23",
            rule: "groups of 2-40 different sessions run interleaved at random on one thread, or on several threads at once, and each compared with the same session run alone; distinct by dialogue shape",
            workloads: vec![w("interleaved", 7500, 100_000, c23_interleaved), w("many-logins", 600, 10_000, c23_logins), w("threads", 180, 2000, c23_threads)],
            floors: vec![("sessions compared", 5000), ("switches between sessions", 20_000), ("sessions on several threads", 400)],
        },
        Check {
            id: "C24",
            rule: "sends from self-referential readers that record their address, polls and drops, completed, failed or abandoned at every suspension point; distinct by reader behaviour and abandonment point",
            workloads: vec![w("readers", 12_000, 150_000, c24_readers), w("abandoned-everywhere", 1200, 15_000, c24_abandoned), w("message-alone", 12_000, 200_000, c24_alone), w("short-sends", 12_000, 100_000, c24_short)],
            floors: vec![("readers monitored", 8000), ("reader polls", 50_000), ("sends abandoned", 3000)],
        },
    ]
}

// ---- C01

const ALPHA: [u8; 4] = [b'.', b'\r', b'\n', b'a'];
const EXH_QUICK: u64 = 87_381 / 5 + 1; // lengths 0..=8, five per session
const EXH_THOROUGH: u64 = 1_398_101 / 5 + 1; // lengths 0..=10
fn nth_string(mut n: u64) -> Vec<u8> {
    let mut len = 0;
    let mut size = 1u64;
    while n >= size {
        n -= size;
        size *= 4;
        len += 1;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(ALPHA[(n % 4) as usize]);
        n /= 4;
    }
    v
}
fn send_to(content: Vec<u8>, source: Option<SourceSpec>) -> Op {
    Op::Send { from: Some("a@example.org".into()), to: vec!["b@example.org".into()], content, source }
}
fn c01_judge(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    for op in &t.sc.ops {
        if let Op::Send { content, .. } = op {
            if content.is_empty() {
                ctx.count("empty contents", 1);
            } else if !content.ends_with(b"\r\n") {
                ctx.count("contents with an unterminated last line", 1);
            }
            if content.starts_with(b".") || content.windows(3).any(|x| x == b"\r\n.") {
                ctx.count("contents with a line starting with a dot", 1);
            }
        }
    }
    if !ctx.sane(t) {
        return;
    }
    for rec in &t.recs {
        if !rec.res.is_ok() {
            ctx.fail(format!("operation {:?} of an accepting server returned {:?}", rec.op, rec.res), || t.dump());
        }
    }
    deliveries(ctx, t);
    dialogue(ctx, t);
    for rec in &t.recs {
        if rec.op.is_none() {
            continue;
        }
        let fins: Vec<_> = t.items(rec).into_iter().filter(|(_, i)| i.kind == Kind::Fin).collect();
        if fins.len() != 1 {
            ctx.fail(format!("operation {:?}: {} end-of-data lines", rec.op, fins.len()), || t.dump());
        } else if fins[0].1.to != rec.w1 {
            ctx.fail(format!("operation {:?}: {} bytes after the end-of-data line", rec.op, rec.w1 as i64 - fins[0].1.to as i64), || t.dump());
        }
    }
    if t.server.pos() != t.pipe.wire.len() {
        ctx.fail("the last bytes written do not end a line", || t.dump());
    }
}
fn c01_plan(ctx: &mut Ctx) -> (ClientCfg, Plan) {
    let plan = Plan::plain(if ctx.rng.bool() { &["PIPELINING"] } else { &["8BITMIME"] });
    (ClientCfg::plain(), plan)
}
fn c01_exhaustive(ctx: &mut Ctx) {
    let ops = (0..5).map(|k| send_to(nth_string(ctx.idx * 5 + k), None)).collect();
    let (cfg, plan) = c01_plan(ctx);
    let knobs = if ctx.idx % 2 == 0 { Knobs::plain() } else { Knobs::random(&mut ctx.rng) };
    let t = run(Scenario::new(cfg, plan, ops, knobs));
    ctx.st.enumerated += 5;
    ctx.st.evals += 4;
    c01_judge(ctx, &t);
}
fn c01_soup(ctx: &mut Ctx) {
    let n = ctx.rng.range(1, 4);
    let ops = (0..n)
        .map(|_| {
            let c = content(&mut ctx.rng, 40);
            let s = if ctx.rng.below(3) == 0 { Some(SourceSpec::random(&mut ctx.rng)) } else { None };
            send_to(c, s)
        })
        .collect();
    let (cfg, plan) = c01_plan(ctx);
    let t = run(Scenario::new(cfg, plan, ops, Knobs::random(&mut ctx.rng)));
    ctx.shape(crate::rng::hash_bytes(&t.pipe.wire));
    c01_judge(ctx, &t);
}
/// Messages after others were refused, at any step or once they were complete
fn c01_histories(ctx: &mut Ctx) {
    let mut o = GenOpts::history(6);
    o.min_ops = 2;
    o.auth = false;
    o.odd = 0;
    o.atoms = 20;
    let sc = scenario(&mut ctx.rng, &o);
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    ctx.shape(crate::rng::hash_bytes(&t.pipe.wire));
    // Every content that was ended is the given one, whether it was taken or not.
    for rec in &t.recs {
        let Some(i) = rec.op else { continue };
        let Op::Send { content, .. } = &t.sc.ops[i] else { continue };
        for (_, x) in t.items(rec) {
            if x.kind == Kind::Fin && !x.forced {
                ctx.count("contents ended among refusals", 1);
                if !content_ok(content, &unstuff(&x.text)) {
                    ctx.fail(format!("operation {i}: the message that was ended is not the given one"), || t.dump());
                }
            }
        }
    }
    history(ctx, &t);
}
/// Sessions of many messages, of every size the source code mentions
fn c01_long(ctx: &mut Ctx) {
    let n = ctx.rng.range(20, 90);
    let ops = (0..n)
        .map(|_| {
            let r = &mut ctx.rng;
            let mut c = content(r, 12);
            if r.below(3) == 0 {
                sized(r, &mut c, 9000);
            }
            send_to(c, None)
        })
        .collect();
    let (cfg, plan) = c01_plan(ctx);
    let mut k = Knobs::random(&mut ctx.rng);
    coarse(&mut ctx.rng, &mut k);
    let t = run(Scenario::new(cfg, plan, ops, k));
    ctx.shape(crate::rng::hash_bytes(&t.pipe.wire));
    c01_judge(ctx, &t);
}
fn c01_boundaries(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut c = vec![];
    let unit = *r.pick(&[32usize, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 65536]);
    let n = if unit > 8192 { 1 } else { r.range(1, 4) };
    for _ in 0..n {
        let target = (c.len() / unit + 1) * unit;
        let atom: &[u8] = r.pick(&[&b"\r\n.\r\n"[..], b"\r\n..", b"\r\n.", b"\r\n", b"\r", b".", b"\n.\r\n", b"\r\r\n.", b"\r\n\r\n."]);
        let back = r.below(8);
        let fill = target.saturating_sub(back).saturating_sub(c.len());
        let b = *r.pick(&[b'a', b'.', 0xffu8]);
        c.extend(std::iter::repeat(b).take(fill));
        c.extend_from_slice(atom);
    }
    if r.bool() {
        c.extend_from_slice(&content(r, 3));
    }
    let s = if r.bool() { Some(SourceSpec::random(r)) } else { None };
    let ops = vec![send_to(c, s), send_to(b".x\r\n".to_vec(), None)];
    let (cfg, plan) = c01_plan(ctx);
    let mut k = Knobs::random(&mut ctx.rng);
    if k.write_chunk == Chunk::One {
        k.write_chunk = Chunk::Upto(4000);
    }
    let t = run(Scenario::new(cfg, plan, ops, k));
    ctx.shape(crate::rng::hash_bytes(&t.pipe.wire));
    c01_judge(ctx, &t);
}
fn c01_large(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let size = r.range(50_000, 3_000_000);
    let mut c = Vec::with_capacity(size + 1000);
    let mode = r.below(4);
    while c.len() < size {
        match mode {
            0 => c.extend_from_slice(b".\r\n"),
            1 => c.push(r.next() as u8),
            2 => {
                c.extend(std::iter::repeat(b'x').take(r.below(998)));
                c.extend_from_slice(b"\r\n.");
            }
            _ => c.extend_from_slice(&content(r, 30)),
        }
    }
    let s = if r.bool() { Some(SourceSpec { chunk: Chunk::Upto(5000), ..SourceSpec::random(r) }) } else { None };
    let (cfg, plan) = c01_plan(ctx);
    let mut k = Knobs::random(&mut ctx.rng);
    k.write_chunk = *ctx.rng.pick(&[Chunk::All, Chunk::Upto(60_000)]);
    let t = run(Scenario::new(cfg, plan, vec![send_to(c, s)], k));
    c01_judge(ctx, &t);
}

/// Contents of many megabytes
fn c01_huge(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let size = if ctx.idx == 0 {
        // The largest of all
        (if ctx.thorough { 100 } else { 70 }) << 20
    } else {
        *r.pick(&[4usize << 20, 5 << 20, 8 << 20, 9 << 20, 16 << 20, 17 << 20, 33 << 20]) + r.below(100_000)
    };
    let block = content(r, 40);
    let mut c = Vec::with_capacity(size + 100_000);
    while c.len() < size {
        c.extend_from_slice(&block);
        c.extend_from_slice(b"line\r\n.\r\n");
    }
    let s = if r.bool() { Some(SourceSpec { chunk: Chunk::Upto(200_000), ..SourceSpec::random(r) }) } else { None };
    let (cfg, plan) = c01_plan(ctx);
    let mut k = Knobs::random(&mut ctx.rng);
    k.write_chunk = *ctx.rng.pick(&[Chunk::All, Chunk::Upto(600_000)]);
    let t = run(Scenario::new(cfg, plan, vec![send_to(c, s), send_to(b"second\r\n".to_vec(), None)], k));
    ctx.count("contents of more than 4 MiB", 1);
    c01_judge(ctx, &t);
}

// ---- C02

fn c02_base(ctx: &mut Ctx) -> Scenario {
    let mut o = GenOpts::sends(4);
    o.atoms = 30;
    let mut sc = scenario(&mut ctx.rng, &o);
    let mut big = false;
    for op in sc.ops.iter_mut() {
        if let Op::Send { source, content: c, .. } = op {
            *source = Some(SourceSpec::random(&mut ctx.rng));
            if ctx.rng.below(12) == 0 {
                for _ in 0..ctx.rng.range(5, 60) {
                    c.extend_from_slice(&content(&mut ctx.rng, 30));
                }
            }
            if ctx.rng.below(if ctx.thorough { 800 } else { 400 }) == 0 {
                c.resize(ctx.rng.range(200_000, 3_500_000), b'm');
                c.extend_from_slice(&content(&mut ctx.rng, 4));
                if let Some(s) = source {
                    s.chunk = Chunk::Upto(20_000);
                }
                big = true;
            }
        }
    }
    if big {
        sc.knobs.write_chunk = Chunk::Upto(60_000);
    }
    sc
}
fn c02_sources(ctx: &mut Ctx, t: &Trace) {
    for (i, s) in t.sources.iter().enumerate() {
        let Some(s) = s else { continue };
        let Op::Send { content, .. } = &t.sc.ops[i] else { continue };
        if t.rec(i).map(|r| r.res.is_ok()).unwrap_or(false) {
            if s.failed && !source_interrupted(t, i) {
                ctx.fail(format!("operation {i} succeeded although its reader failed"), || t.dump());
            }
            if s.given != content.len() || s.eof_seen == 0 {
                ctx.fail(format!("operation {i} succeeded after reading {} of {} bytes", s.given, content.len()), || t.dump());
            }
            ctx.count("readers read to their end", 1);
        }
        if s.failed {
            ctx.count("readers that failed", 1);
        }
        ctx.count("deferred reads", s.polls.saturating_sub(1));
    }
}
fn c02_same(ctx: &mut Ctx) {
    let sc = c02_base(ctx);
    let mut plain = sc.clone();
    for op in plain.ops.iter_mut() {
        if let Op::Send { source, .. } = op {
            *source = None;
        }
    }
    plain.knobs = Knobs::plain();
    let t = run(sc);
    ctx.observe(&t);
    history(ctx, &t);
    c02_sources(ctx, &t);
    if ctx.failed() {
        return;
    }
    let p = run(plain);
    if t.pipe.wire != p.pipe.wire {
        ctx.fail("the bytes written for a reader differ from those for the same bytes", || format!("{}\n---- bytes given directly:\n{}", t.dump(), p.dump()));
    }
    for (a, b) in t.recs.iter().zip(&p.recs) {
        if norm(&a.res) != norm(&b.res) {
            ctx.fail("the result for a reader differs from that for the same bytes", || format!("{}\n---- bytes given directly:\n{}", t.dump(), p.dump()));
        }
    }
}
/// Readers of many megabytes, complete or failing near their end
fn c02_huge(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let size = (if ctx.idx == 0 { 40usize << 20 } else { *r.pick(&[4usize << 20, 8 << 20, 10 << 20, 16 << 20, 25 << 20]) }) + r.below(100_000);
    let block = content(r, 40);
    let mut c = Vec::with_capacity(size + 100_000);
    while c.len() < size {
        c.extend_from_slice(&block);
        c.extend_from_slice(b"line\r\n.\r\n");
    }
    let mut s = SourceSpec { chunk: Chunk::Upto(*r.pick(&[100_000, 1_000_000])), ..SourceSpec::random(r) };
    let fail = ctx.idx > 0 && r.below(3) == 0;
    if fail {
        s.fail_at = Some(c.len() - r.below(1000));
    }
    let (cfg, plan) = c01_plan(ctx);
    let mut k = Knobs::random(&mut ctx.rng);
    k.write_chunk = *ctx.rng.pick(&[Chunk::All, Chunk::Upto(600_000)]);
    let t = run(Scenario::new(cfg, plan, vec![send_to(c, Some(s)), send_to(b"second\r\n".to_vec(), None)], k));
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    ctx.count("readers of more than 4 MiB", 1);
    if t.rec(0).map(|r| r.res.is_ok()) != Some(!fail) {
        ctx.fail(format!("a reader of {size} bytes, failing: {fail}, but the result is {:?}", t.rec(0).map(|r| &r.res)), || format!("{size} bytes"));
    }
    history(ctx, &t);
    c02_sources(ctx, &t);
}
fn source_kind(op: &Op) -> Option<std::io::ErrorKind> {
    match op {
        Op::Send { source: Some(s), .. } => Some(s.kind),
        _ => None,
    }
}
fn c02_fail(ctx: &mut Ctx) {
    let mut sc = c02_base(ctx);
    let n = sc.ops.len();
    // A last message that has to arrive
    sc.ops.push(send_to(content(&mut ctx.rng, 6), None));
    let mut failing = vec![];
    for k in 0..n {
        if k == 0 || ctx.rng.bool() {
            if let Op::Send { source: Some(s), content, .. } = &mut sc.ops[k] {
                s.fail_at = Some(ctx.rng.below(content.len() + 1));
                failing.push(k);
            }
        }
    }
    sc.plan.rset.clear();
    sc.plan.txs.clear();
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    for &k in &failing {
        let Some(rec) = t.rec(k) else { continue };
        match &rec.res {
            Res::Err(ErrK::Io(kind, m)) if Some(*kind) == source_kind(&t.sc.ops[k]) && m.contains("injected source error") => {}
            r => ctx.fail(format!("operation {k}: the reader failed, but the result is {r:?}"), || t.dump()),
        }
        if t.items(rec).iter().any(|(_, i)| i.kind == Kind::Fin) {
            ctx.fail(format!("operation {k}: the reader failed, but the message was ended"), || t.dump());
        }
    }
    for k in 0..=n {
        if !failing.contains(&k) {
            ctx.count("messages sent after a failure", 1);
            match t.rec(k).map(|r| &r.res) {
                Some(Res::Ok(_)) => {}
                r => ctx.fail(format!("operation {k} after a failed reader: {r:?}"), || t.dump()),
            }
        }
    }
    history(ctx, &t);
    c02_sources(ctx, &t);
}

/// Readers which fail once, with any kind of error, and would give the rest when read on
fn c02_once(ctx: &mut Ctx) {
    let mut sc = c02_base(ctx);
    sc.plan.rset.clear();
    sc.plan.txs.clear();
    sc.ops.push(send_to(content(&mut ctx.rng, 6), None));
    for op in sc.ops.iter_mut() {
        if let Op::Send { source: Some(s), content, .. } = op {
            s.fail_at = Some(ctx.rng.below(content.len() + 1));
            s.kind = *ctx.rng.pick(&[std::io::ErrorKind::Interrupted, std::io::ErrorKind::Interrupted, std::io::ErrorKind::WouldBlock, s.kind]);
            s.once = true;
        }
    }
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    for (k, op) in t.sc.ops.iter().enumerate() {
        let Some(rec) = t.rec(k) else { continue };
        match (&rec.res, source_kind(op)) {
            (Res::Ok(_), None | Some(std::io::ErrorKind::Interrupted)) => {}
            (Res::Err(ErrK::Io(kind, m)), Some(want)) if *kind == want && m.contains("injected source error") => {
                if t.items(rec).iter().any(|(_, i)| matches!(i.kind, Kind::Fin | Kind::Data)) {
                    ctx.fail(format!("operation {k}: the reader failed, but the message was begun"), || t.dump());
                }
            }
            (r, _) => ctx.fail(format!("operation {k}: {r:?}"), || t.dump()),
        }
    }
    history(ctx, &t);
    c02_sources(ctx, &t);
}
/// A failing reader changes nothing for the other operations.
fn c02_among(ctx: &mut Ctx) {
    let mut o = GenOpts::history(5);
    o.min_ops = 2;
    o.refuse = *ctx.rng.pick(&[60, 200, 400]);
    o.odd = 0;
    let mut sc = scenario(&mut ctx.rng, &o);
    sc.plan.rset.clear();
    let without = run(sc.clone());
    ctx.observe(&without);
    let c = content(&mut ctx.rng, 8);
    let at = ctx.rng.below(sc.ops.len() + 1);
    let s = SourceSpec { fail_at: Some(ctx.rng.below(c.len() + 1)), ..SourceSpec::random(&mut ctx.rng) };
    sc.ops.insert(at, send_to(c, Some(s)));
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) || !ctx.sane(&without) {
        return;
    }
    let both = || format!("{}\n---- without operation {at}:\n{}", t.dump(), without.dump());
    if t.rec(at).map(|r| r.res.is_ok()).unwrap_or(false) {
        ctx.fail(format!("operation {at} succeeded although its reader failed"), both);
    }
    for k in 0..without.sc.ops.len() {
        let (a, b) = (t.rec(if k < at { k } else { k + 1 }), without.rec(k));
        if a.map(|r| norm(&r.res)) != b.map(|r| norm(&r.res)) {
            ctx.fail(format!("operation {k} returned {:?} instead of {:?} without a failing reader in front of it", a.map(|r| &r.res), b.map(|r| &r.res)), both);
            return;
        }
    }
    if t.server.delivered.len() != without.server.delivered.len() {
        ctx.fail("other messages were delivered because of a failing reader", both);
    }
    if without.recs.iter().any(|r| !r.res.is_ok()) {
        ctx.count("readers that failed among refusals", 1);
    }
    history(ctx, &t);
}

// ---- C03 / C06

// pipelining x recipients (1..=3) x first refused step x its class x second refused step x DATA without recipients
const C03_SYS: u64 = 2 * 3 * 7 * 4 * 7 * 2;
fn systematic(ctx: &mut Ctx) -> (Scenario, bool) {
    let mut n = ctx.idx;
    let mut d = |k: u64| {
        let r = n % k;
        n /= k;
        r as usize
    };
    let (pl, n_rcpt, s1, class, s2, dwr) = (d(2) == 1, d(3) + 1, d(7), d(4), d(7), d(2) == 1);
    let r = &mut ctx.rng;
    let mut t = Tx { mail: reply_class(r, 2, "mail"), rcpt: (0..n_rcpt).map(|i| reply_class(r, 2, &format!("rcpt{i}"))).collect(), data: reply_code(r, 354, "data"), fin: reply_class(r, 2, "fin") };
    // 0 none, 1 mail, 2.. rcpt, 5 data, 6 final
    let mut put = |r: &mut Rng, s: usize, class: usize, l: &str| {
        let rep = |r: &mut Rng, odd: u16| match class {
            0 => reply_class(r, 4, l),
            1 => reply_class(r, 5, l),
            _ => reply_class(r, odd, l),
        };
        match s {
            1 if class < 2 => t.mail = rep(r, 2),
            2..=4 if class < 2 && s - 2 < n_rcpt => t.rcpt[s - 2] = rep(r, 2),
            5 => t.data = rep(r, 2),
            6 => t.fin = rep(r, 3),
            _ => {}
        }
    };
    put(r, s1, class, "refused first");
    put(r, s2, class % 2, "refused second");
    let mut plan = Plan::plain(&["PIPELINING"]);
    plan.data_without_rcpt = dwr;
    plan.txs = vec![t];
    let cfg = ClientCfg { pipelining: Some(pl), ..ClientCfg::plain() };
    let to = (0..n_rcpt).map(|i| format!("r{i}@example.org")).collect();
    let ops = vec![Op::Send { from: Some("a@example.org".into()), to, content: content(r, 4), source: None }];
    let k = Knobs::random(r);
    (Scenario::new(cfg, plan, ops, k), pl)
}
fn c03_judge(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    history(ctx, t);
}
fn c03_systematic(ctx: &mut Ctx) {
    let (sc, _) = systematic(ctx);
    let t = run(sc);
    ctx.st.enumerated += 1;
    c03_judge(ctx, &t);
}
fn c03_random(ctx: &mut Ctx) {
    let mut o = GenOpts::sends(3);
    o.refuse = *ctx.rng.pick(&[0, 80, 200, 400]);
    o.odd = 60;
    o.close = 60;
    o.reader = true;
    o.max_rcpt = 12;
    let sc = scenario(&mut ctx.rng, &o);
    let t = run(sc);
    c03_judge(ctx, &t);
}
fn c06_pair(ctx: &mut Ctx, mut sc: Scenario) {
    sc.cfg.pipelining = Some(false);
    let mut pl = sc.clone();
    pl.cfg.pipelining = Some(true);
    pl.knobs = Knobs::random(&mut ctx.rng);
    let a = run(sc);
    let b = run(pl);
    ctx.observe(&a);
    ctx.observe(&b);
    ctx.count("pairs compared", 1);
    if !ctx.sane(&a) || !ctx.sane(&b) {
        return;
    }
    let both = || format!("---- lock-step:\n{}\n---- pipelined:\n{}", a.dump(), b.dump());
    let ra: Vec<_> = a.recs.iter().map(|r| norm(&r.res)).collect();
    let rb: Vec<_> = b.recs.iter().map(|r| norm(&r.res)).collect();
    if ra != rb {
        ctx.fail(format!("lock-step: {:?}, pipelined: {:?}", a.recs.last().map(|r| &r.res), b.recs.last().map(|r| &r.res)), both);
        return;
    }
    let da: Vec<_> = a.server.delivered.iter().map(|d| (&d.from, &d.to, &d.content)).collect();
    let db: Vec<_> = b.server.delivered.iter().map(|d| (&d.from, &d.to, &d.content)).collect();
    if da != db {
        ctx.fail("lock-step and pipelined sending delivered different messages", both);
        return;
    }
    if da.is_empty() {
        ctx.count("pairs refused", 1);
    } else {
        ctx.count("pairs delivered", 1);
    }
    let n = order(ctx, &b);
    ctx.count("commands written ahead of a reply", n);
    deliveries(ctx, &a);
    deliveries(ctx, &b);
}
fn c06_systematic(ctx: &mut Ctx) {
    let (sc, _) = systematic(ctx);
    ctx.st.enumerated += 1;
    c06_pair(ctx, sc);
}
fn c06_random(ctx: &mut Ctx) {
    let mut o = GenOpts::sends(1);
    o.pipelining = Some(true);
    o.refuse = *ctx.rng.pick(&[0, 60, 150, 300]);
    o.odd = 40;
    o.close = 100;
    o.reader = true;
    o.max_rcpt = 12;
    let mut sc = scenario(&mut ctx.rng, &o);
    if ctx.rng.below(40) == 0 {
        if let Op::Send { to, .. } = &mut sc.ops[0] {
            *to = (0..ctx.rng.range(90, 260)).map(|i| format!("r{i}@example.org")).collect();
        }
    }
    c06_pair(ctx, sc);
}

fn c06_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::sends(1);
    o.pipelining = Some(true);
    o.refuse = *ctx.rng.pick(&[0, 20, 60]);
    o.odd = 40;
    o.reader = true;
    let sc = heavy(&mut ctx.rng, &o);
    c06_pair(ctx, sc);
}

// ---- C04

fn c04_count(ctx: &mut Ctx, t: &Trace) {
    for op in &t.sc.ops {
        if let Op::Send { from, to, .. } = op {
            if from.is_none() {
                ctx.count("sends with a null sender", 1);
            }
            let mut u = to.clone();
            u.sort();
            u.dedup();
            if u.len() != to.len() {
                ctx.count("sends with a duplicate recipient", 1);
            }
            if to.len() > 300 {
                ctx.count("sends with more than 300 recipients", 1);
            }
        }
    }
    for i in &t.server.items {
        match i.kind {
            Kind::Rcpt => ctx.count("RCPT commands", 1),
            Kind::Rset => ctx.count("RSET commands", 1),
            Kind::Mail => ctx.count("MAIL commands", 1),
            _ => {}
        }
    }
}
fn c04_judge(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    c04_count(ctx, t);
    if ctx.sane(t) {
        envelope(ctx, t);
        dialogue(ctx, t);
        deliveries(ctx, t);
    }
}
fn c04_accepted(ctx: &mut Ctx) {
    let mut o = GenOpts::sends(4);
    o.max_rcpt = 20;
    o.atoms = 4;
    let sc = scenario(&mut ctx.rng, &o);
    let t = run(sc);
    c04_judge(ctx, &t);
    for rec in &t.recs {
        if !rec.res.is_ok() {
            ctx.fail(format!("operation {:?} of an accepting server returned {:?}", rec.op, rec.res), || t.dump());
        }
    }
}
fn c04_histories(ctx: &mut Ctx) {
    let mut o = GenOpts::history(6);
    o.refuse = *ctx.rng.pick(&[50, 150, 300]);
    o.atoms = 4;
    let sc = scenario(&mut ctx.rng, &o);
    let t = run(sc);
    c04_judge(ctx, &t);
}
fn c04_many(ctx: &mut Ctx) {
    let mut o = GenOpts::sends(2);
    o.max_rcpt = 600;
    o.refuse = *ctx.rng.pick(&[0, 0, 1, 5]);
    let mut sc = scenario(&mut ctx.rng, &o);
    if let Op::Send { to, .. } = &mut sc.ops[0] {
        let n = if ctx.rng.below(5) == 0 { ctx.rng.range(1000, 4000) } else { ctx.rng.range(80, 500) };
        *to = (0..n).map(|_| addr(&mut ctx.rng)).collect();
    }
    sc.knobs.release_chunk = Chunk::Upto(2000);
    let t = run(sc);
    c04_judge(ctx, &t);
}

fn c04_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.refuse = *ctx.rng.pick(&[0, 50, 150]);
    o.atoms = 4;
    let sc = heavy(&mut ctx.rng, &o);
    let t = run(sc);
    c04_judge(ctx, &t);
}

// ---- C05

fn c05_judge(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    if !ctx.sane(t) {
        return;
    }
    let n = order(ctx, t);
    ctx.count("commands written ahead of a reply", n);
    ctx.count("commands that waited for a reply", (t.server.items.len() as u64).saturating_sub(n + 1));
    dialogue(ctx, t);
}
fn c05_lockstep(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.refuse = *ctx.rng.pick(&[0, 0, 100]);
    o.starttls = true;
    let r = &mut ctx.rng;
    o.pipelining = Some(r.bool());
    let mut sc = scenario(r, &o);
    if o.pipelining == Some(true) {
        sc.cfg.pipelining = Some(false);
    }
    if r.bool() {
        sc.knobs.policy = Policy::Lazy;
    }
    if r.bool() {
        sc.knobs.release_chunk = Chunk::One;
    }
    let t = run(sc);
    if pipelined(&t) {
        ctx.fail("generator: pipelined", || t.dump());
    }
    c05_judge(ctx, &t);
}
fn c05_pipelined(ctx: &mut Ctx) {
    let mut o = GenOpts::sends(3);
    o.pipelining = Some(true);
    o.max_rcpt = 50;
    o.refuse = *ctx.rng.pick(&[0, 0, 30]);
    let mut sc = scenario(&mut ctx.rng, &o);
    sc.knobs.policy = Policy::Lazy;
    let t = run(sc);
    c05_judge(ctx, &t);
    if ctx.failed() {
        return;
    }
    // The server does nothing before the client waits, so nothing but waiting can separate the commands.
    for rec in &t.recs {
        let Some(i) = rec.op else { continue };
        let items = t.items(rec);
        let Some(m) = items.iter().position(|(_, i)| i.kind == Kind::Mail) else { continue };
        let tx: Vec<_> = items[m..].iter().take_while(|(_, i)| matches!(i.kind, Kind::Mail | Kind::Rcpt | Kind::Data)).collect();
        let small = tx.len() <= 52;
        ctx.count("transactions of up to 50 recipients", small as u64);
        for p in tx.windows(2) {
            let e = exposed_at(&t, p[1].1.from);
            if small && e >= tx[0].1.r_to {
                ctx.fail(format!("operation {i}: {:?} {:?} waited for the reply to MAIL on a pipelining connection", p[1].1.kind, p[1].1.line()), || t.dump());
                return;
            }
            // For more, waiting for some replies is necessary (C09), but never for each.
            if e >= p[0].1.r_to {
                ctx.fail(format!("operation {i}: {:?} waited for the reply to {:?} on a pipelining connection", p[1].1.kind, p[0].1.kind), || t.dump());
                return;
            }
        }
    }
}
fn c05_histories(ctx: &mut Ctx) {
    let mut o = GenOpts::history(6);
    o.pipelining = Some(true);
    o.starttls = true;
    let mut sc = scenario(&mut ctx.rng, &o);
    if ctx.rng.below(4) == 0 {
        sc.cfg.pipelining = Some(false);
    }
    let t = run(sc);
    c05_judge(ctx, &t);
}

fn c05_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.starttls = true;
    o.atoms = 4;
    let mut sc = heavy(&mut ctx.rng, &o);
    if ctx.rng.bool() {
        sc.knobs.policy = Policy::Lazy;
    }
    let t = run(sc);
    c05_judge(ctx, &t);
}

// ---- C07

pub fn c07_judge(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    let mut refused = false;
    for r in &t.recs {
        if refused {
            ctx.count("operations after a refused one", 1);
        }
        refused |= is_reply_err(&r.res);
    }
    history(ctx, t);
    envelope(ctx, t);
}
fn c07_histories(ctx: &mut Ctx) {
    let mut o = GenOpts::history(7);
    o.refuse = *ctx.rng.pick(&[30, 120, 250]);
    o.close = *ctx.rng.pick(&[0, 0, 40]);
    o.atoms = 5;
    o.starttls = true;
    let mut sc = scenario(&mut ctx.rng, &o);
    for op in sc.ops.iter_mut() {
        if let Op::Send { source: Some(s), content, .. } = op {
            if ctx.rng.below(4) == 0 {
                s.fail_at = Some(ctx.rng.below(content.len() + 1));
            }
        }
    }
    let t = run(sc);
    c07_judge(ctx, &t);
}
fn c07_pipelined(ctx: &mut Ctx) {
    let mut o = GenOpts::history(6);
    o.pipelining = Some(true);
    o.refuse = *ctx.rng.pick(&[30, 120, 250]);
    o.atoms = 5;
    let sc = scenario(&mut ctx.rng, &o);
    let t = run(sc);
    c07_judge(ctx, &t);
}
/// Refusals of every step of the first send, then another one
fn c07_two(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut o = GenOpts::sends(1);
    o.min_ops = 2;
    o.max_ops = 3;
    o.max_rcpt = 3;
    o.atoms = 4;
    let mut sc = scenario(r, &o);
    let step = r.below(5);
    let bad = reply_neg(r, "refused");
    if let Some(t) = sc.plan.txs.first_mut() {
        let n = t.rcpt.len();
        match step {
            0 => t.mail = bad,
            1 => t.rcpt[r.below(n)] = bad,
            2 => t.rcpt.iter_mut().for_each(|x| *x = bad.clone()),
            3 => t.data = bad,
            _ => t.fin = bad,
        }
    }
    let t = run(sc);
    c07_judge(ctx, &t);
}
fn c07_cancelled(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.min_ops = 2;
    o.refuse = *ctx.rng.pick(&[0, 0, 80]);
    o.atoms = 5;
    let mut sc = scenario(&mut ctx.rng, &o);
    let k = ctx.rng.below(sc.ops.len() - 1);
    sc.cancel = vec![(k, ctx.rng.below(*ctx.rng.clone().pick(&[3, 10, 30, 200])) as u64)];
    let t = run(sc);
    c07_judge(ctx, &t);
}
fn c07_late(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.min_ops = 2;
    o.refuse = *ctx.rng.pick(&[0, 0, 80]);
    o.atoms = 5;
    let mut sc = scenario(&mut ctx.rng, &o);
    let clean = run(sc.clone());
    let from = clean.recs.first().map(|r| r.r1).unwrap_or(0);
    let total = clean.pipe.out.len().max(from);
    sc.knobs.read_fault = Some((ctx.rng.range(from, total), RFault::Once));
    let t = run(sc);
    c07_judge(ctx, &t);
}

/// One reply is malformed, and what looks like replies follows it: none of that belongs to a later command.
fn c07_malformed(ctx: &mut Ctx) {
    let mut o = GenOpts::history(5);
    o.min_ops = 2;
    o.refuse = *ctx.rng.pick(&[0, 0, 80]);
    o.atoms = 4;
    o.max_rcpt = 4;
    o.starttls = true;
    let mut sc = scenario(&mut ctx.rng, &o);
    let r = &mut ctx.rng;
    let mut raw = vec![];
    for _ in 0..r.range(1, 2) {
        let bad: &[u8] = r.pick(&[&b"999-strange\r\n"[..], b"hello\r\n", b"\r\n", b"25\r\n", b"25 0\r\n", b"250_x\r\n", b"250-a\r\n251 b\r\n", b"250-a\r\n550 b\r\n", b"250 \xff\r\n", b"650 x\r\n", b" 250 x\r\n", b"2500 x\r\n", b"550\r x\n250\r\n", b"999 end\r\n", b"100 continue\r\n"]);
        raw.extend_from_slice(bad);
    }
    for k in 0..r.range(1, 9) {
        let c = *r.pick(&[250, 250, 250, 354, 334, 550, 220, 235]);
        raw.extend_from_slice(format!("{c} stale {k}\r\n").as_bytes());
    }
    let bad = Reply::raw(&raw);
    let nt = sc.plan.txs.len();
    match r.below(8) {
        0 if !sc.plan.auths.is_empty() => {
            let k = r.below(sc.plan.auths.len());
            let a = &mut sc.plan.auths[k];
            let j = r.below(a.len());
            a.truncate(j);
            a.push(AStep::Fin(bad));
        }
        1 if !sc.plan.rset.is_empty() => sc.plan.rset[0] = bad,
        _ if nt > 0 => {
            let k = r.below(nt);
            let t = &mut sc.plan.txs[k];
            let n = t.rcpt.len();
            match r.below(4) {
                0 => t.mail = bad,
                1 => t.rcpt[r.below(n)] = bad,
                2 => t.data = bad,
                _ => t.fin = bad,
            }
        }
        _ => sc.plan.auths = vec![vec![AStep::Fin(bad)]],
    }
    let t = run(sc);
    let first = t.server.items.iter().find(|i| i.reply.code == 0).map(|i| i.from);
    if let Some(at) = first {
        ctx.count("malformed replies in histories", 1);
        for rec in t.recs.iter().filter(|r| r.w0 > at && r.op.is_some()) {
            ctx.count("operations after a malformed reply", 1);
            if rec.res.is_ok() && rec.w0 != rec.w1 {
                ctx.fail(format!("operation {:?} succeeded though an earlier reply was malformed", rec.op), || t.dump());
                return;
            }
        }
    }
    c07_judge(ctx, &t);
}

/// Long messages, histories, replies and lists of recipients, and trouble in them
fn c07_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::history(5);
    o.refuse = *ctx.rng.pick(&[0, 30, 120]);
    o.atoms = 4;
    let mut sc = heavy(&mut ctx.rng, &o);
    for k in 0..2 {
        sc.ops.push(send_to(format!("after {k}\r\n").into_bytes(), None));
    }
    match ctx.rng.below(4) {
        0 => {}
        1 => {
            let clean = run(sc.clone());
            let mut k = sc.knobs.clone();
            fault(ctx, &clean, &mut k);
            if k.read_fault.map(|f| f.1 != RFault::Once).unwrap_or(false) || ctx.rng.bool() {
                k.read_fault = Some((ctx.rng.below(clean.pipe.out.len().max(1)), RFault::Once));
                k.write_fault = None;
                k.flush_fault = None;
            }
            sc.knobs = k;
        }
        2 => {
            let k = ctx.rng.below(sc.ops.len() - 2);
            sc.cancel = vec![(k, ctx.rng.below(*ctx.rng.clone().pick(&[3, 10, 30, 200])) as u64)];
        }
        _ => {
            // While the message is being written, or its reply awaited
            let mut long = vec![];
            for (k, op) in sc.ops.iter().enumerate() {
                if let Op::Send { content, .. } = op {
                    if content.len() > 4000 {
                        long.push(k);
                    }
                }
            }
            if !long.is_empty() {
                let k = *ctx.rng.pick(&long);
                sc.knobs.write_chunk = *ctx.rng.pick(&[Chunk::Upto(3000), Chunk::Upto(20_000), Chunk::Upto(200_000)]);
                sc.knobs.pend_write = 500;
                sc.knobs.policy = Policy::Lazy;
                sc.cancel = vec![(k, ctx.rng.range(4, *ctx.rng.clone().pick(&[12, 30, 100])) as u64)];
            }
        }
    }
    let t = run(sc);
    c07_judge(ctx, &t);
}

// ---- C08

fn c08_judge(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    if !ctx.sane(t) {
        return;
    }
    if t.pipe.waited_unflushed > 0 {
        ctx.fail(format!("the client waited for a reply with {} bytes not flushed", t.pipe.waited_unflushed), || t.dump());
    }
    for r in &t.recs {
        if r.unflushed > 0 && !matches!(r.res, Res::Abandoned) {
            ctx.fail(format!("operation {:?} returned with {} bytes not flushed", r.op, r.unflushed), || t.dump());
        }
    }
}
fn c08_with(ctx: &mut Ctx, pl: Option<bool>) {
    let mut o = GenOpts::history(5);
    o.starttls = true;
    o.pipelining = pl;
    o.refuse = *ctx.rng.pick(&[0, 80, 200]);
    let mut sc = scenario(&mut ctx.rng, &o);
    sc.knobs.hold = Some(*ctx.rng.pick(&[usize::MAX, usize::MAX, 8192, 100, 10]));
    if ctx.rng.below(60) == 0 {
        for op in sc.ops.iter_mut() {
            if let Op::Send { to, .. } = op {
                *to = (0..ctx.rng.range(90, 260)).map(|i| format!("r{i}@example.org")).collect();
            }
        }
    }
    if ctx.rng.below(8) == 0 {
        if let Some(Op::Send { content: c, .. }) = sc.ops.first_mut() {
            c.extend(std::iter::repeat(b'x').take(ctx.rng.range(8000, 40_000)));
        }
    }
    let t = run(sc);
    c08_judge(ctx, &t);
}
fn c08(ctx: &mut Ctx) {
    c08_with(ctx, None)
}
fn c08_pipelined(ctx: &mut Ctx) {
    c08_with(ctx, Some(true))
}

fn c08_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.starttls = true;
    o.refuse = *ctx.rng.pick(&[0, 60]);
    let mut sc = heavy(&mut ctx.rng, &o);
    sc.knobs.hold = Some(*ctx.rng.pick(&[usize::MAX, usize::MAX, 8192, 100]));
    let t = run(sc);
    c08_judge(ctx, &t);
}

// ---- C09

fn c09(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let n = match r.below(3) {
        0 => r.range(90, 210),
        1 => r.range(300, 900),
        _ => r.range(900, if ctx.thorough { 5000 } else { 1500 }),
    };
    let alen = *r.pick(&[6usize, 30, 120, 240, 500, 900]);
    let rlen = *r.pick(&[0usize, 30, 200, 500, 500]);
    let mut to = vec![];
    for i in 0..n {
        let mut a = format!("{i}@");
        while a.len() < alen {
            a.push(addr_char(r));
        }
        to.push(a);
    }
    let mut plan = Plan::plain(&["PIPELINING", "8BITMIME", "SMTPUTF8"]);
    let refuse = *r.pick(&[0u32, 0, 1, 500]);
    let mut tx = default_tx(0);
    for i in 0..n {
        let code = if r.pm(refuse) { 550 } else { 250 };
        let mut s = format!("rcpt {i} ");
        while s.len() < rlen {
            s.push('x');
        }
        tx.rcpt.push(Reply::one(code, &s));
    }
    plan.txs = vec![tx];
    let mut c = content(r, 5);
    if r.bool() {
        c.extend(std::iter::repeat(b'y').take(r.range(60_000, 200_000)));
    }
    let ops = vec![Op::Send { from: Some("a@example.org".into()), to, content: c, source: None }, send_to(b"second\r\n".to_vec(), None)];
    let mut k = Knobs::random(r);
    k.cap_c2s = 65_536;
    k.cap_s2c = 65_536;
    k.hold = *r.pick(&[None, Some(8192)]);
    for c in [&mut k.write_chunk, &mut k.read_chunk, &mut k.release_chunk] {
        if *c != Chunk::All {
            *c = *r.pick(&[Chunk::Upto(300), Chunk::Upto(10_000)]);
        }
    }
    let t = run(Scenario::new(ClientCfg::plain(), plan, ops, k));
    ctx.observe(&t);
    c04_count(ctx, &t);
    ctx.count("largest number of reply bytes not taken", 0);
    history(ctx, &t);
}

// ---- C20

fn c20(ctx: &mut Ctx) {
    let mut o = GenOpts::history(2);
    o.refuse = *ctx.rng.pick(&[0, 0, 100]);
    o.atoms = 4;
    o.max_rcpt = 3;
    o.reader = false;
    o.starttls = true;
    let mut sc = scenario(&mut ctx.rng, &o);
    // Short replies, so that every offset can be tried
    let short = |r: &mut Reply| {
        if r.raw.len() > 120 {
            *r = Reply::one(r.code, "short");
        }
    };
    for t in sc.plan.txs.iter_mut() {
        short(&mut t.mail);
        t.rcpt.iter_mut().for_each(short);
        short(&mut t.data);
        short(&mut t.fin);
    }
    sc.knobs.settle = false;
    let clean = run(sc.clone());
    ctx.observe(&clean);
    history(ctx, &clean);
    if ctx.failed() {
        return;
    }
    let mut runs: Vec<Knobs> = vec![];
    for off in 0..clean.pipe.out.len() {
        for k in [RFault::Eof, RFault::Err, RFault::Once] {
            let mut x = sc.knobs.clone();
            x.read_fault = Some((off, k));
            runs.push(x);
        }
    }
    for off in 0..clean.pipe.wire.len() {
        for k in [WFault::Err, WFault::Once, WFault::Zero] {
            let mut x = sc.knobs.clone();
            x.write_fault = Some((off, k));
            runs.push(x);
        }
    }
    for n in 0..clean.pipe.flushes {
        for k in [WFault::Err, WFault::Once] {
            let mut x = sc.knobs.clone();
            x.flush_fault = Some((n, k));
            runs.push(x);
        }
    }
    for x in runs.iter_mut() {
        x.kind = *ctx.rng.pick(&KINDS);
    }
    let cost = runs.len() * (clean.pipe.out.len() + clean.pipe.wire.len() + 500);
    // All of them, except for the few sessions in which that would take very long
    let step = 1 + cost / if ctx.thorough { 300_000_000 } else { 10_000_000 };
    let first = if step > 1 { ctx.rng.below(step) } else { 0 };
    for k in runs.into_iter().skip(first).step_by(step) {
        let fault = (k.read_fault, k.write_fault, k.flush_fault);
        let mut s = sc.clone();
        s.knobs = k;
        let t = run(s);
        ctx.shape(crate::rng::hash_bytes(format!("{:?}{}", fault, ctx.idx).as_bytes()));
        c20_judge(ctx, &clean, &t);
        if let Some(f) = &mut ctx.failure {
            f.msg = format!("fault {:?}: {}", fault, f.msg);
            return;
        }
    }
}
fn c20_judge(ctx: &mut Ctx, clean: &Trace, t: &Trace) {
    ctx.observe(t);
    ctx.count("faults injected", 1);
    if t.pipe.io_errors == 0 {
        ctx.count("faults not reached", 1);
    }
    history(ctx, t);
    // Nothing new, nothing twice
    if !clean.pipe.wire.starts_with(&t.pipe.wire) {
        ctx.fail("after a fault, bytes were written that are not written without it", || format!("{}\n---- without the fault:\n{}", t.dump(), clean.dump()));
    }
    // What happened before the fault is not affected.
    let mut hit = false;
    let mut spoilt = false;
    for (a, b) in t.recs.iter().zip(&clean.recs) {
        if !hit && norm(&a.res) != norm(&b.res) {
            hit = true;
            if !matches!(a.res, Res::Err(ErrK::Io(..))) && !(is_reply_err(&a.res) && t.pipe.io_errors > 0) && !(spoilt && a.w0 == a.w1 && !a.res.is_ok()) {
                ctx.fail(format!("operation {:?} met the fault, but the result is {:?}", a.op, a.res), || t.dump());
            }
        } else if hit && a.res.is_ok() && a.w0 != a.w1 {
            ctx.fail(format!("operation {:?} succeeded after the connection failed", a.op), || t.dump());
        }
        spoilt |= spoils(t, a);
    }
}
/// Any of the faults, at a random point of a session or near the end of one of its parts
fn fault(ctx: &mut Ctx, clean: &Trace, k: &mut Knobs) {
    let r = &mut ctx.rng;
    k.kind = *r.pick(&KINDS);
    let (out, wire) = (clean.pipe.out.len(), clean.pipe.wire.len());
    let near = |r: &mut Rng, ends: Vec<usize>, max: usize| {
        if ends.is_empty() || r.below(4) == 0 {
            r.below(max.max(1))
        } else {
            (*r.pick(&ends) + r.below(8)).saturating_sub(4).min(max.saturating_sub(1))
        }
    };
    match r.below(5) {
        0 | 1 => {
            let ends = clean.server.items.iter().map(|i| i.r_to).collect();
            k.read_fault = Some((near(r, ends, out), *r.pick(&[RFault::Eof, RFault::Err, RFault::Once])));
        }
        2 | 3 => {
            let ends = clean.server.items.iter().map(|i| i.from).chain(Some(wire)).collect();
            k.write_fault = Some((near(r, ends, wire), *r.pick(&[WFault::Err, WFault::Once, WFault::Zero])));
        }
        _ => k.flush_fault = Some((r.below(clean.pipe.flushes.max(1)), *r.pick(&[WFault::Err, WFault::Once]))),
    }
}
fn c20_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.refuse = *ctx.rng.pick(&[0, 0, 60]);
    o.starttls = true;
    o.atoms = 4;
    let mut sc = heavy(&mut ctx.rng, &o);
    sc.knobs.settle = false;
    for c in [&mut sc.knobs.write_chunk, &mut sc.knobs.release_chunk] {
        if *c == Chunk::Upto(3000) {
            *c = Chunk::Upto(30_000);
        }
    }
    let clean = run(sc.clone());
    ctx.observe(&clean);
    history(ctx, &clean);
    for _ in 0..4 {
        if ctx.failed() {
            return;
        }
        let mut s = sc.clone();
        fault(ctx, &clean, &mut s.knobs);
        let what = format!("{:?} {:?} {:?}", s.knobs.read_fault, s.knobs.write_fault, s.knobs.flush_fault);
        let t = run(s);
        c20_judge(ctx, &clean, &t);
        if let Some(f) = &mut ctx.failure {
            f.msg = format!("fault {what}: {}", f.msg);
        }
    }
}

// ---- C21

fn compare_runs(ctx: &mut Ctx, base: &Trace, t: &Trace, what: &str) {
    ctx.count("runs compared", 1);
    ctx.count("leaps of the clock", t.leaps);
    let both = || format!("{}\n---- {what}:\n{}", t.dump(), base.dump());
    if t.pipe.wire != base.pipe.wire {
        ctx.fail(format!("other bytes were written than {what}"), both);
        return;
    }
    let ra: Vec<_> = t.recs.iter().map(|r| (r.op, norm(&r.res), r.w0, r.w1)).collect();
    let rb: Vec<_> = base.recs.iter().map(|r| (r.op, norm(&r.res), r.w0, r.w1)).collect();
    if ra != rb {
        let k = ra.iter().zip(&rb).position(|(x, y)| x != y).unwrap_or(0);
        ctx.fail(format!("operation {:?} returned {:?} instead of {:?} {what}", ra[k].0, ra[k].1, rb[k].1), both);
        return;
    }
    if t.server.delivered.len() != base.server.delivered.len() {
        ctx.fail(format!("other messages were delivered than {what}"), both);
    }
}
fn c21(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.starttls = true;
    o.close = 40;
    let mut sc = scenario(&mut ctx.rng, &o);
    if ctx.rng.below(30) == 0 {
        if let Some(Op::Send { content: c, .. }) = sc.ops.first_mut() {
            c.extend(std::iter::repeat(b'z').take(ctx.rng.range(1000, 30_000)));
        }
    }
    let mut b = sc.clone();
    b.knobs = Knobs::plain();
    let base = run(b);
    ctx.observe(&base);
    history(ctx, &base);
    for _ in 0..4 {
        let mut v = sc.clone();
        v.knobs = Knobs::random(&mut ctx.rng);
        let t = run(v);
        ctx.observe(&t);
        if ctx.sane(&t) {
            compare_runs(ctx, &base, &t, "with a plain transport");
        }
        if ctx.failed() {
            return;
        }
    }
}
fn c21_hostile(ctx: &mut Ctx) {
    let sc = crate::c_proto::hostile_scenario(&mut ctx.rng);
    let mut b = sc.clone();
    b.knobs = Knobs::plain();
    let base = run(b);
    ctx.observe(&base);
    if !ctx.sane(&base) {
        return;
    }
    for _ in 0..3 {
        let mut v = sc.clone();
        v.knobs = Knobs::random(&mut ctx.rng);
        let t = run(v);
        ctx.observe(&t);
        if ctx.sane(&t) {
            compare_runs(ctx, &base, &t, "with a plain transport");
        }
    }
}
/// Lock-step over transports that hold next to nothing
fn c21_small(ctx: &mut Ctx) {
    let mut o = GenOpts::history(3);
    o.starttls = true;
    o.pipelining = Some(false);
    let sc = scenario(&mut ctx.rng, &o);
    let mut b = sc.clone();
    b.knobs = Knobs::plain();
    let base = run(b);
    ctx.observe(&base);
    let mut v = sc.clone();
    v.knobs = Knobs::random(&mut ctx.rng);
    v.knobs.cap_s2c = *ctx.rng.pick(&[1, 2, 7, 64, 4096]);
    let t = run(v);
    ctx.observe(&t);
    if ctx.sane(&t) {
        compare_runs(ctx, &base, &t, "with a plain transport");
    }
}

fn c21_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.starttls = true;
    o.refuse = 40;
    o.atoms = 4;
    let sc = heavy(&mut ctx.rng, &o);
    let mut b = sc.clone();
    b.knobs = Knobs::plain();
    let base = run(b);
    ctx.observe(&base);
    history(ctx, &base);
    for _ in 0..2 {
        let mut v = sc.clone();
        v.knobs = Knobs::random(&mut ctx.rng);
        coarse(&mut ctx.rng, &mut v.knobs);
        let t = run(v);
        ctx.observe(&t);
        if ctx.sane(&t) {
            compare_runs(ctx, &base, &t, "with a plain transport");
        }
        if ctx.failed() {
            return;
        }
    }
}

// ---- C22

fn digest(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    ctx.sane(t);
    let d = t.digest();
    ctx.st.digests.push((ctx.workload, ctx.idx, d));
    if ctx.verbose {
        println!("DIGEST {d:016x}");
    }
}
fn c22_histories(ctx: &mut Ctx) {
    let mut o = GenOpts::history(6);
    o.starttls = true;
    o.close = 30;
    let mut sc = scenario(&mut ctx.rng, &o);
    for op in sc.ops.iter_mut() {
        if let Op::Send { source: Some(s), content, .. } = op {
            if ctx.rng.below(4) == 0 {
                s.fail_at = Some(ctx.rng.below(content.len() + 1));
            }
        }
    }
    let t = run(sc);
    digest(ctx, &t);
}
fn c22_faults(ctx: &mut Ctx) {
    let mut o = GenOpts::history(3);
    o.starttls = true;
    o.atoms = 5;
    let mut sc = scenario(&mut ctx.rng, &o);
    sc.knobs.policy = *ctx.rng.pick(&[Policy::Eager, Policy::Lazy]);
    let r = &mut ctx.rng;
    match r.below(4) {
        0 => sc.knobs.read_fault = Some((r.below(400), *r.pick(&[RFault::Eof, RFault::Err, RFault::Once]))),
        1 => sc.knobs.write_fault = Some((r.below(400), *r.pick(&[WFault::Err, WFault::Once, WFault::Zero]))),
        2 => sc.knobs.flush_fault = Some((r.below(12), *r.pick(&[WFault::Err, WFault::Once]))),
        _ => {}
    }
    let t = run(sc);
    digest(ctx, &t);
}
fn c22_hostile(ctx: &mut Ctx) {
    let sc = crate::c_proto::hostile_scenario(&mut ctx.rng);
    let t = run(sc);
    digest(ctx, &t);
}
fn c22_contents(ctx: &mut Ctx) {
    let mut o = GenOpts::sends(3);
    o.atoms = 60;
    o.reader = true;
    let mut sc = scenario(&mut ctx.rng, &o);
    if ctx.rng.below(10) == 0 {
        if let Some(Op::Send { content: c, .. }) = sc.ops.first_mut() {
            let n = ctx.rng.range(1, 3) * 8192 - 3;
            c.resize(n, b'q');
            c.extend_from_slice(&content(&mut ctx.rng, 5));
        }
    }
    let t = run(sc);
    digest(ctx, &t);
}

fn c22_heavy(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.starttls = true;
    o.refuse = 40;
    o.atoms = 4;
    let mut sc = heavy(&mut ctx.rng, &o);
    sc.knobs.policy = *ctx.rng.pick(&[Policy::Eager, Policy::Lazy]);
    if ctx.rng.bool() {
        let clean = run(sc.clone());
        fault(ctx, &clean, &mut sc.knobs);
    }
    let t = run(sc);
    digest(ctx, &t);
}

// ---- C23

pub fn c23_scenarios(r: &mut Rng, n: usize) -> Vec<Scenario> {
    (0..n)
        .map(|_| {
            let mut o = GenOpts::history(4);
            o.starttls = true;
            o.atoms = 5;
            o.refuse = *r.pick(&[0, 60, 150]);
            scenario(r, &o)
        })
        .collect()
}
fn c23_interleaved(ctx: &mut Ctx) {
    let n = ctx.rng.range(2, 6);
    let scs = c23_scenarios(&mut ctx.rng, n);
    let alone: Vec<_> = scs.iter().map(|s| run(s.clone())).collect();
    let mut r = ctx.rng.fork();
    let (together, sw) = run_many(scs, &mut r);
    ctx.count("switches between sessions", sw);
    for (a, b) in together.iter().zip(&alone) {
        ctx.observe(a);
        ctx.count("sessions compared", 1);
        if a.digest() != b.digest() {
            ctx.fail("a session behaves differently while others are running", || format!("---- interleaved:\n{}\n---- alone:\n{}", a.dump(), b.dump()));
            return;
        }
        history(ctx, a);
    }
}
/// Many connections in the middle of logging in at the same time
fn c23_logins(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let n = r.range(6, 40);
    let mut creds = vec![];
    let scs: Vec<Scenario> = (0..n)
        .map(|k| {
            let mut plan = Plan::plain(*r.pick(&[&["AUTH LOGIN PLAIN XOAUTH2"][..], &["AUTH LOGIN"], &["PIPELINING", "AUTH PLAIN LOGIN"]]));
            let mech = if r.below(4) == 0 { *r.pick(&MECHS) } else { Mechanism::Login };
            let (user, secret) = (format!("user{k}"), format!("secret{k}-{}", r.next()));
            let mut ops = vec![];
            for j in 0..r.range(1, 2) {
                plan.auths.push(auth_steps(r, mech, &format!("auth{k}.{j}"), 150));
                ops.push(Op::Auth { mech, user: user.clone(), secret: secret.clone() });
            }
            if r.below(3) == 0 {
                ops.push(send_to(format!("message {k}\r\n").into_bytes(), None));
            }
            creds.push((mech, user, secret));
            let mut sc = Scenario::new(ClientCfg::plain(), plan, ops, Knobs::random(r));
            sc.knobs.settle = r.bool();
            sc
        })
        .collect();
    let alone: Vec<_> = scs.iter().map(|s| run(s.clone())).collect();
    let mut r = ctx.rng.fork();
    let (together, sw) = run_many(scs, &mut r);
    ctx.count("switches between sessions", sw);
    for (k, (a, b)) in together.iter().zip(&alone).enumerate() {
        ctx.observe(a);
        ctx.count("sessions compared", 1);
        if a.digest() != b.digest() {
            ctx.fail("a session behaves differently while others are running", || format!("---- interleaved:\n{}\n---- alone:\n{}", a.dump(), b.dump()));
            return;
        }
        history(ctx, a);
        let (mech, user, secret) = &creds[k];
        for rec in a.recs.iter().filter(|x| x.op.is_some()) {
            if matches!(a.sc.ops[rec.op.unwrap()], Op::Auth { .. }) && !a.items(rec).is_empty() {
                crate::c_proto::decode_auth(ctx, a, rec, *mech, user, secret);
            }
        }
    }
}
fn c23_threads(ctx: &mut Ctx) {
    let groups: Vec<Vec<Scenario>> = (0..4).map(|_| c23_scenarios(&mut ctx.rng, 4)).collect();
    let alone: Vec<Vec<(u64, String)>> = groups
        .iter()
        .map(|g| {
            g.iter()
                .map(|s| {
                    let t = run(s.clone());
                    (t.digest(), t.dump())
                })
                .collect()
        })
        .collect();
    let got: Vec<Vec<(u64, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = groups
            .iter()
            .map(|g| {
                s.spawn(move || {
                    let (ts, _) = run_many(g.clone(), &mut Rng::new(7));
                    ts.iter().map(|t| (t.digest(), t.dump())).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    ctx.st.evals += 16;
    for (g, a) in got.iter().zip(&alone) {
        ctx.count("sessions on several threads", g.len() as u64);
        if g.len() != a.len() {
            ctx.fail("a thread running sessions panicked", || String::new());
            return;
        }
        for (x, y) in g.iter().zip(a) {
            ctx.shape(x.0);
            ctx.count("sessions compared", 1);
            if x.0 != y.0 {
                ctx.fail("a session behaves differently while others are running on other threads", || format!("---- together:\n{}\n---- alone:\n{}", x.1, y.1));
                return;
            }
        }
    }
}

// ---- C24

fn c24_check(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    for (i, s) in t.sources.iter().enumerate() {
        let Some(s) = s else { continue };
        ctx.count("readers monitored", 1);
        ctx.count("reader polls", s.polls);
        if s.addrs.len() > 1 || s.self_ptr_broken {
            ctx.fail(format!("the reader of operation {i} was polled at {} addresses", s.addrs.len()), || t.dump());
        }
        if s.drops != 1 {
            ctx.fail(format!("the reader of operation {i} was dropped {} times", s.drops), || t.dump());
        }
        if s.polled_after_drop {
            ctx.fail(format!("the reader of operation {i} was polled after it was dropped"), || t.dump());
        }
        ctx.shape(crate::rng::hash_bytes(format!("{:?}{}{}{}", t.sc.abandon, s.polls, s.given, s.failed).as_bytes()));
    }
}
fn c24_scenario(ctx: &mut Ctx, n: usize) -> Scenario {
    let mut o = GenOpts::sends(n);
    o.refuse = *ctx.rng.pick(&[0, 0, 100]);
    o.atoms = 10;
    o.max_rcpt = 3;
    let mut sc = scenario(&mut ctx.rng, &o);
    for op in sc.ops.iter_mut() {
        if let Op::Send { source, content, .. } = op {
            let mut s = SourceSpec::random(&mut ctx.rng);
            if ctx.rng.below(4) == 0 {
                s.fail_at = Some(ctx.rng.below(content.len() + 1));
            }
            *source = Some(s);
        }
    }
    sc
}
fn c24_readers(ctx: &mut Ctx) {
    let mut sc = c24_scenario(ctx, 4);
    if ctx.rng.below(4) == 0 {
        sc.cancel = vec![(ctx.rng.below(sc.ops.len()), ctx.rng.below(30) as u64)];
    }
    let t = run(sc);
    ctx.sane(&t);
    c24_check(ctx, &t);
}
fn c24_abandoned(ctx: &mut Ctx) {
    let mut sc = c24_scenario(ctx, 2);
    // Fewer suspension points, all of them tried
    if sc.knobs.read_chunk == Chunk::One {
        sc.knobs.read_chunk = Chunk::All;
    }
    // Under Miri a session takes seconds: a few of the points only.
    let (start, step) = if cfg!(miri) { (ctx.rng.below(12), 12) } else { (0, 1) };
    for k in (start..400).step_by(step) {
        let k = k as u64;
        let mut s = sc.clone();
        s.abandon = Some(k);
        let t = run(s);
        let done = !t.recs.iter().any(|r| r.res == Res::Abandoned);
        c24_check(ctx, &t);
        if let Some(r) = t.recs.iter().find(|r| matches!(r.res, Res::Panic(_))) {
            ctx.fail(format!("abandoned after {k} polls: {:?}", r.res), || t.dump());
        }
        if done && k > 0 {
            break;
        }
        ctx.count("sends abandoned", 1);
        // Nothing that was not written completely may be delivered.
        deliveries(ctx, &t);
        if ctx.failed() {
            return;
        }
    }
}

/// The message polled by itself, as an I/O object
fn c24_alone(ctx: &mut Ctx) {
    use async_smtp::{EmailAddress, Envelope, SendableEmail};
    use std::pin::Pin;
    use std::task::{Context, Poll, Waker};
    let r = &mut ctx.rng;
    let data: Vec<u8> = (0..r.range(0, 40)).map(|_| r.next() as u8).collect();
    let env = || Envelope::new(None, vec![EmailAddress::new("a@b".into()).unwrap()]).unwrap();
    let from_reader = r.below(4) != 0;
    let mut probe = None;
    let email = if from_reader {
        let mut spec = SourceSpec::random(r);
        if r.below(4) == 0 {
            spec.fail_at = Some(r.below(data.len() + 1));
        }
        let (src, p) = crate::source::make(spec, data.clone());
        probe = Some(p);
        SendableEmail::new_with_reader(env(), src)
    } else {
        SendableEmail::new(env(), data.clone())
    };
    let give_up = if r.below(3) == 0 { r.below(20) } else { usize::MAX };
    let flag = std::sync::Arc::new(Flag(std::sync::atomic::AtomicBool::new(false)));
    let waker = Waker::from(flag);
    let mut cx = Context::from_waker(&waker);
    let mut m = email.message();
    let mut got = vec![];
    let mut n_polls = 0;
    let mut done = false;
    let mut failed = false;
    let mut wrong = String::new();
    while n_polls < give_up && n_polls < 100_000 {
        n_polls += 1;
        if r.below(4) == 0 {
            // The message itself may move between polls; the reader may not.
            m = *Box::new(m);
        }
        let room = r.range(1, 16);
        let before = probe.as_ref().map(|p| p.report().given).unwrap_or(0);
        match read_some(Pin::new(&mut m), &mut cx, room) {
            Poll::Pending => {
                if !from_reader {
                    wrong = "bytes are not ready".into();
                }
            }
            Poll::Ready(Err(e)) => {
                failed = true;
                if e.to_string() != "injected source error" {
                    wrong = format!("another error: {e}");
                }
                break;
            }
            Poll::Ready(Ok(v)) => {
                let after = probe.as_ref().map(|p| p.report().given).unwrap_or(0);
                if from_reader && after - before != v.len() {
                    wrong = format!("the reader gave {} bytes and the message {}", after - before, v.len());
                }
                if v.is_empty() {
                    done = true;
                    break;
                }
                got.extend_from_slice(&v);
            }
        }
        if !wrong.is_empty() {
            break;
        }
    }
    drop(m);
    ctx.st.evals += 1;
    ctx.count("messages read alone", 1);
    ctx.shape(crate::rng::hash_bytes(format!("{from_reader}{done}{failed}{n_polls}{}", got.len()).as_bytes()));
    if wrong.is_empty() && (!data.starts_with(&got) || (done && got != data)) {
        wrong = format!("read {got:?} of {data:?}");
    }
    if let Some(p) = probe {
        let s = p.report();
        ctx.count("readers monitored", 1);
        ctx.count("reader polls", s.polls);
        if s.addrs.len() > 1 || s.self_ptr_broken || s.drops != 1 || s.polled_after_drop {
            wrong = format!("reader monitor: {s:?}");
        }
        if s.failed != failed {
            wrong = "the reader's error was not passed on".into();
        }
        if wrong.is_empty() && s.polls != n_polls as u64 {
            ctx.count("polls of the reader other than of the message", 1);
        }
    }
    if !wrong.is_empty() {
        ctx.fail(format!("message polled alone: {wrong}"), String::new);
    }
}
#[cfg(feature = "rt-tokio")]
fn read_some(m: std::pin::Pin<&mut async_smtp::Message>, cx: &mut std::task::Context, room: usize) -> std::task::Poll<std::io::Result<Vec<u8>>> {
    let mut store = vec![std::mem::MaybeUninit::<u8>::uninit(); room];
    let mut b = tokio::io::ReadBuf::uninit(&mut store);
    tokio::io::AsyncRead::poll_read(m, cx, &mut b).map(|r| r.map(|_| b.filled().to_vec()))
}
#[cfg(feature = "rt-async-std")]
fn read_some(m: std::pin::Pin<&mut async_smtp::Message>, cx: &mut std::task::Context, room: usize) -> std::task::Poll<std::io::Result<Vec<u8>>> {
    let mut b = vec![0; room];
    async_std::io::Read::poll_read(m, cx, &mut b).map(|r| r.map(|n| b[..n].to_vec()))
}
/// Short sends over a quick transport, completed or abandoned
fn c24_short(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let data: Vec<u8> = content(r, 3).into_iter().take(40).collect();
    let mut spec = SourceSpec::random(r);
    spec.pend = *r.pick(&[0, 300]);
    if spec.chunk == Chunk::One {
        spec.chunk = Chunk::Upto(7);
    }
    if r.below(5) == 0 {
        spec.fail_at = Some(r.below(data.len() + 1));
    }
    let from_reader = r.below(5) != 0;
    let mut k = Knobs::plain();
    k.seed = r.next();
    k.policy = *r.pick(&[Policy::Eager, Policy::Lazy]);
    k.write_chunk = *r.pick(&[Chunk::All, Chunk::Upto(20)]);
    let mut plan = Plan::plain(if r.bool() { &["PIPELINING"] } else { &[] });
    let mut tx = default_tx(0);
    match r.below(6) {
        0 => tx.mail = Reply::one(450, "no"),
        1 => tx.fin = Reply::one(554, "no"),
        _ => {}
    }
    plan.txs = vec![tx];
    let ops = vec![send_to(data, if from_reader { Some(spec) } else { None }), Op::Quit];
    let mut sc = Scenario::new(ClientCfg::plain(), plan, ops, k);
    match r.below(4) {
        0 => sc.abandon = Some(r.below(14) as u64),
        1 => sc.cancel = vec![(0, r.below(8) as u64)],
        _ => {}
    }
    let t = run(sc);
    ctx.sane(&t);
    c24_check(ctx, &t);
    deliveries(ctx, &t);
}

#[allow(dead_code)]
pub fn rng_for(ctx: &mut Ctx) -> Rng {
    ctx.rng.fork()
}
