//! Dialogue around sending: C11, C12, C13, C16, C17, C18, C19, C25
use crate::ctx::Ctx;
use crate::gen::*;
use crate::net::*;
use crate::oracle::*;
use crate::rng::{hash_bytes, Rng};
use crate::server::*;
use crate::session::*;
use crate::source::SourceSpec;
use crate::{Check, Workload};
use async_smtp::authentication::{Credentials, IntoCredentials, Mechanism};
use async_smtp::commands::AuthCommand;
use async_smtp::extension::{Extension, ServerInfo};
use async_smtp::response::Response;

fn w(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Workload {
    Workload { name, quick, thorough, exhaustive: false, f }
}
fn wx(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Workload {
    Workload { name, quick, thorough, exhaustive: true, f }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            rule: "every code 200-359 and 400-559 as the reply to every kind of step (exhaustive), with random texts; I/O failures at random offsets of every operation; distinct by step and code or by dialogue shape",
            workloads: vec![wx("every-code-every-step", CARRIERS * 280, CARRIERS * 280 * 20, c11_codes), w("long-replies", 9000, 150_000, c11_long), w("io-failures", 18_000, 300_000, c11_io)],
            floors: vec![("operations refused (4yz)", 1000), ("operations refused (5yz)", 1000), ("operations failed (I/O)", 1500)],
        },
        Check {
            id: "C12",
            rule: "random EHLO replies (every feature set, letter cases, parameters, look-alikes, text in the first line), parsed directly and acted on by a session; distinct by EHLO reply",
            workloads: vec![w("parsed", 180_000, 3_000_000, c12_parsed), w("acted-on", 24_000, 400_000, c12_session)],
            floors: vec![("features offered", 50_000), ("look-alike lines", 20_000), ("sessions acting on features", 6000)],
        },
        Check {
            id: "C13",
            rule: "all combinations of 8BITMIME and SMTPUTF8 offers and client settings, lock-step and pipelined, several sends per connection with refusals between them, plain and 8-bit content; distinct by dialogue shape",
            workloads: vec![w("parameters", 30_000, 500_000, c13)],
            floors: vec![("MAIL with BODY=8BITMIME", 2000), ("MAIL without BODY", 2000), ("MAIL with SMTPUTF8", 700), ("MAIL without SMTPUTF8", 2000)],
        },
        Check {
            id: "C16",
            rule: "logins with arbitrary credentials, mechanism preferences and offers; every exchange is decoded by an independent strict decoder; distinct by dialogue shape and credentials",
            workloads: vec![w("login", 24_000, 400_000, c16_login), w("prompts", 24_000, 400_000, c16_prompts), w("rendered", 60_000, 1_000_000, c16_rendered)],
            floors: vec![("PLAIN exchanges decoded", 1500), ("LOGIN answers decoded", 3000), ("XOAUTH2 exchanges decoded", 1500), ("logins without a mechanism", 500), ("prompts not to be answered", 1000), ("answers compared", 5000)],
        },
        Check {
            id: "C17",
            rule: "authentication dialogues with 0-15 challenges, malformed challenges and final replies of every class, followed by another operation; systematic and random; distinct by dialogue shape",
            workloads: vec![w("dialogues", 30_000, 500_000, c17), w("cancelled-in-vain", 3000, 50_000, c17_vain), wx("challenge-counts", 16 * 3 * 6 * 2, 16 * 3 * 6 * 2, c17_counts)],
            floors: vec![("authentications accepted", 1000), ("authentications refused", 500), ("authentications cancelled", 1000), ("cancellations not accepted", 1000), ("operations after an authentication", 4000)],
        },
        Check {
            id: "C18",
            rule: "STARTTLS with and without an offer, after histories of other operations, with replies of each class and arbitrary bytes following them, over random splits; distinct by dialogue shape",
            workloads: vec![w("starttls", 36_000, 600_000, c18), w("intermediate-replies", 3000, 50_000, c18_odd)],
            floors: vec![("streams handed over", 2500), ("bytes left for the caller", 10_000), ("not offered", 1000), ("STARTTLS refused", 300), ("intermediate replies", 1000)],
        },
        Check {
            id: "C19",
            rule: "connection set-up with every kind of client name, greeting and EHLO reply, and quit after random histories; distinct by dialogue shape and client name",
            workloads: vec![w("set-up", 30_000, 500_000, c19_setup), w("quit", 18_000, 300_000, c19_quit)],
            floors: vec![("connections set up", 4000), ("greetings refused", 500), ("EHLO refused", 500), ("without greeting", 1000), ("QUIT accepted", 1000), ("QUIT refused", 500)],
        },
        Check {
            id: "C25",
            rule: "arbitrary, mutated and truncated server bytes against every operation, with logging on in half of the cases, and arbitrary strings into the parsers; distinct by server bytes",
            workloads: vec![
                w("mutated", 42_000, 700_000, c25_mutated),
                w("arbitrary", 30_000, 500_000, c25_arbitrary),
                w("malformed-replies", 24_000, 400_000, c25_replies),
                w("odd-replies", 18_000, 300_000, c25_odd),
                w("silent-server", 9000, 100_000, c25_silent),
                w("long-replies", 180, 1500, c25_long),
                w("parsers", 180_000, 3_000_000, c25_parsers),
            ],
            floors: vec![("operations failed (other)", 2000), ("operations failed (I/O)", 2000), ("log records formatted", 20_000), ("hostile bytes read", 100_000)],
        },
    ]
}

// ---- Carriers: a session in which one chosen reply is r

const CARRIERS: u64 = 22;
/// Session, and the operation (None: set-up) that receives r
pub fn carrier(rng: &mut Rng, which: u64, r: Reply) -> (Scenario, Option<usize>) {
    let pl = which % 2 == 1;
    let which = which / 2;
    let mut plan = Plan::plain(&["PIPELINING", "STARTTLS", "AUTH PLAIN LOGIN XOAUTH2"]);
    let mut cfg = ClientCfg::plain();
    cfg.pipelining = Some(pl);
    let mut tx = default_tx(0);
    tx.rcpt = vec![Reply::one(250, "rcpt 0.0"), Reply::one(250, "rcpt 0.1")];
    let send = Op::Send { from: Some("a@example.org".into()), to: vec!["b@example.org".into(), "c@example.org".into()], content: b"text\r\n".to_vec(), source: None };
    let auth = |m| Op::Auth { mech: m, user: "u".into(), secret: "s".into() };
    let mut ops = vec![send.clone()];
    let mut at = Some(0);
    match which {
        0 => {
            plan.greeting = Some(r);
            at = None;
        }
        1 => {
            plan.ehlo = r;
            at = None;
        }
        2 => tx.mail = r,
        3 => tx.rcpt[rng.below(2)] = r,
        4 => tx.data = r,
        5 => tx.fin = r,
        6 => {
            // RSET after a refused recipient
            tx.rcpt = vec![Reply::one(550, "no"), Reply::one(550, "no")];
            tx.data = Reply::one(503, "no");
            plan.rset = vec![r];
            ops.push(send.clone());
            at = Some(1);
        }
        7 => {
            plan.auths = vec![vec![AStep::Fin(r)]];
            ops = vec![auth(*rng.pick(&MECHS))];
        }
        8 => {
            plan.auths = vec![vec![AStep::Chal(b64(b"Username:")), AStep::Chal(b64(b"Password:")), AStep::Fin(r)]];
            ops = vec![auth(Mechanism::Login)];
        }
        9 => {
            plan.quit = r;
            ops = vec![Op::Quit];
        }
        _ => {
            plan.starttls = r;
            ops = vec![Op::Starttls];
        }
    }
    plan.txs = vec![tx];
    (Scenario::new(cfg, plan, ops, Knobs::random(rng)), at)
}

// ---- C11

pub fn c11_judge(ctx: &mut Ctx, r: &Reply, at: Option<usize>, t: &Trace) {
    let Some(rec) = t.recs.iter().find(|x| x.op == at) else {
        ctx.fail("the operation was not run", || t.dump());
        return;
    };
    match r.class() {
        4 | 5 => {
            if !refusal_eq(&rec.res, r) {
                ctx.fail(format!("operation {at:?}: refused with {} {:?}, result {:?}", r.code, r.lines, rec.res), || t.dump());
            }
        }
        _ => {
            // A later refusal caused by the odd reply has its own text.
            let mut own = match &rec.res {
                Res::Err(ErrK::Transient(x)) | Res::Err(ErrK::Permanent(x)) => *x == *r,
                _ => false,
            };
            let items = t.items(rec);
            if is_reply_err(&rec.res) && !items.iter().any(|(_, i)| refusal_eq(&rec.res, &i.reply)) && at.is_some() {
                own = true;
            }
            if own || (at.is_none() && is_reply_err(&rec.res)) {
                ctx.fail(format!("operation {at:?}: the reply {} became {:?}", r.code, rec.res), || t.dump());
            }
        }
    }
}
fn c11_codes(ctx: &mut Ctx) {
    let n = ctx.idx % (CARRIERS * 280);
    let which = n % CARRIERS;
    let k = n / CARRIERS;
    let code = if k < 160 { 200 + k } else { 400 + (k - 160) };
    if code % 100 >= 60 {
        return;
    }
    let r = reply_code(&mut ctx.rng, code as u16, "carried");
    let (sc, at) = carrier(&mut ctx.rng, which, r.clone());
    let t = run(sc);
    ctx.st.enumerated += 1;
    ctx.observe(&t);
    c11_judge(ctx, &r, at, &t);
}
/// Replies of many lines, in every step
fn c11_long(ctx: &mut Ctx) {
    let which = ctx.idx % CARRIERS;
    let r = &mut ctx.rng;
    let n = match r.below(4) {
        0 => r.range(5, 20),
        1 => r.range(20, 70),
        2 => *r.pick(&[32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]),
        _ => {
            let max = if r.below(10) == 0 { 1100 } else { 300 };
            r.range(70, max)
        }
    };
    let mut lines: Vec<String> = (0..n).map(|k| if r.below(4) == 0 { text(r) } else { format!("line {k}") }).collect();
    lines[n - 1] = "carried".into();
    let class = *r.pick(&[4, 5, 5, 2, 3]);
    let code = reply_class(r, class, "").code;
    let rep = if r.below(6) == 0 { Reply::bare(code, lines) } else { Reply::new(code, lines) };
    let (mut sc, at) = carrier(r, which, rep.clone());
    if sc.knobs.read_chunk == Chunk::One {
        sc.knobs.read_chunk = Chunk::Upto(300);
    }
    let t = run(sc);
    ctx.observe(&t);
    ctx.count("lines of long replies", n as u64);
    c11_judge(ctx, &rep, at, &t);
}
fn c11_io(ctx: &mut Ctx) {
    let mut o = GenOpts::history(3);
    o.starttls = true;
    o.atoms = 5;
    let mut sc = scenario(&mut ctx.rng, &o);
    let clean = run(sc.clone());
    let r = &mut ctx.rng;
    match r.below(5) {
        0 | 1 => sc.knobs.read_fault = Some((r.below(clean.pipe.out.len() + 1), *r.pick(&[RFault::Eof, RFault::Err, RFault::Once]))),
        2 | 3 => sc.knobs.write_fault = Some((r.below(clean.pipe.wire.len() + 1), *r.pick(&[WFault::Err, WFault::Once, WFault::Zero]))),
        _ => sc.knobs.flush_fault = Some((r.below(clean.pipe.flushes + 1), *r.pick(&[WFault::Err, WFault::Once]))),
    }
    let t = run(sc);
    ctx.observe(&t);
    if ctx.sane(&t) {
        results(ctx, &t);
    }
}

// ---- C12

fn features_of(f: &Feat) -> Vec<Extension> {
    let mut v = vec![];
    if f.pipelining {
        v.push(Extension::Pipelining);
    }
    if f.eightbit {
        v.push(Extension::EightBitMime);
    }
    if f.utf8 {
        v.push(Extension::SmtpUtfEight);
    }
    if f.starttls {
        v.push(Extension::StartTls);
    }
    v.extend(f.mechs.iter().map(|m| Extension::Authentication(*m)));
    v
}
fn c12_parsed(ctx: &mut Ctx) {
    let f = features(&mut ctx.rng, None);
    let r = ehlo_reply(&mut ctx.rng, &f);
    ctx.st.evals += 1;
    ctx.shape(hash_bytes(&r.raw));
    ctx.count("features offered", features_of(&f).len() as u64);
    ctx.count("look-alike lines", (f.lines.len().saturating_sub(features_of(&f).len().min(f.lines.len()))) as u64);
    let text = String::from_utf8(r.raw.clone()).expect("utf8");
    let show = || format!("EHLO reply {:?}", r.lines);
    let resp: Response = match text.parse() {
        Ok(x) => x,
        Err(e) => {
            ctx.fail(format!("a well-formed EHLO reply was not accepted: {e}"), show);
            return;
        }
    };
    ctx.sample(show);
    let info = match ServerInfo::from_response(&resp) {
        Ok(x) => x,
        Err(e) => {
            ctx.fail(format!("a well-formed EHLO reply was not accepted: {e}"), show);
            return;
        }
    };
    let mut want = features_of(&f);
    for e in info.features.iter() {
        if !want.contains(e) {
            ctx.fail(format!("{e} is taken as offered"), show);
        }
    }
    want.retain(|e| !info.features.contains(e));
    if let Some(e) = want.first() {
        ctx.fail(format!("{e} is offered, but not recognized"), show);
    }
    for (e, on) in [(Extension::Pipelining, f.pipelining), (Extension::EightBitMime, f.eightbit), (Extension::SmtpUtfEight, f.utf8), (Extension::StartTls, f.starttls)] {
        if info.supports_feature(e) != on {
            ctx.fail(format!("supports_feature({e}) is {}", !on), show);
        }
    }
    for m in MECHS {
        if info.supports_auth_mechanism(m) != f.mechs.contains(&m) {
            ctx.fail(format!("supports_auth_mechanism({m}) is {}", !f.mechs.contains(&m)), show);
        }
    }
    if info.name != r.lines[0].split(' ').next().unwrap_or("") {
        ctx.fail(format!("the server's name is {:?}", info.name), show);
    }
    let _ = info.to_string();
}
fn c12_session(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let f = features(r, None);
    let mut plan = Plan::plain(&[]);
    plan.ehlo = ehlo_reply(r, &f);
    let mut cfg = ClientCfg::plain();
    cfg.utf8 = Some(true);
    let mut mechs = MECHS.to_vec();
    r.shuffle(&mut mechs);
    mechs.truncate(r.range(1, 3));
    let want_mech = mechs.iter().find(|m| f.mechs.contains(m)).copied();
    if let Some(m) = want_mech {
        plan.auths.push(if m == Mechanism::Login { vec![AStep::Chal(b64(b"Username:")), AStep::Chal(b64(b"Password:"))] } else { vec![] });
    }
    let mut o = GenOpts::sends(1);
    o.max_rcpt = 3;
    o.atoms = 3;
    let ops = vec![Op::TryLogin { mechs: mechs.clone(), user: "u".into(), secret: "s".into() }, send_op(r, &o), Op::Starttls];
    let mut k = Knobs::random(r);
    k.policy = Policy::Lazy;
    let t = run(Scenario::new(cfg, plan, ops, k));
    ctx.observe(&t);
    ctx.count("sessions acting on features", 1);
    if !ctx.sane(&t) {
        return;
    }
    for r in &t.recs {
        let ok = match r.op {
            Some(2) => r.res.is_ok() == f.starttls,
            _ => r.res.is_ok(),
        };
        if !ok {
            ctx.fail(format!("operation {:?} returned {:?}", r.op, r.res), || t.dump());
            return;
        }
    }
    let find = |k: Kind| t.server.items.iter().find(|i| i.kind == k);
    let used = find(Kind::Auth).map(|i| i.line());
    match (want_mech, &used) {
        (None, None) => {}
        (Some(m), Some(l)) if l.split(' ').nth(1) == Some(&m.to_string()) => {}
        x => ctx.fail(format!("accepted mechanisms {mechs:?}, offered {:?}: {x:?}", f.mechs), || t.dump()),
    }
    let mail = find(Kind::Mail).map(|i| i.line()).unwrap_or_default();
    let params = mail.rsplit('>').next().unwrap_or("").to_string();
    for (p, on) in [(" BODY=8BITMIME", f.eightbit), (" SMTPUTF8", f.utf8)] {
        if params.contains(p) != on {
            ctx.fail(format!("{mail:?}, though {p} is {}", if on { "offered" } else { "not offered" }), || t.dump());
        }
    }
    if find(Kind::Starttls).is_some() != f.starttls {
        ctx.fail("STARTTLS was not sent exactly when it was offered", || t.dump());
    }
    let n = order(ctx, &t);
    if (n > 0) != f.pipelining {
        ctx.fail(format!("{n} commands written ahead, though pipelining is {}", if f.pipelining { "offered" } else { "not offered" }), || t.dump());
    }
}

// ---- C13

fn c13(ctx: &mut Ctx) {
    let mut o = GenOpts::history(5);
    o.refuse = *ctx.rng.pick(&[0, 0, 100, 250]);
    o.atoms = 6;
    o.auth = ctx.rng.bool();
    let mut sc = scenario(&mut ctx.rng, &o);
    let r = &mut ctx.rng;
    if r.below(12) == 0 && !cfg!(miri) {
        // Long messages, long lines, many recipients
        for op in sc.ops.iter_mut() {
            if let Op::Send { to, content, .. } = op {
                match r.below(4) {
                    0 => {
                        let n = r.range(1000, 150_000);
                        content.extend(b"a line of a long message\r\n".iter().cycle().take(n));
                    }
                    1 => content.extend(std::iter::repeat(b'x').take(r.range(990, 120_000))),
                    2 => *to = (0..r.range(20, 300)).map(|i| format!("r{i}@example.org")).collect(),
                    _ => {}
                }
            }
        }
        sc.knobs.write_chunk = Chunk::Upto(20_000);
        sc.knobs.cap_c2s = sc.knobs.cap_c2s.max(4096);
    }
    let f = ref_features(&sc.plan.ehlo.lines);
    let utf8 = f.utf8 && sc.cfg.utf8 == Some(true);
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    for i in &t.server.items {
        let line = i.line();
        match i.kind {
            Kind::Mail => {
                let rest = line.split_once('>').map(|x| x.1).unwrap_or("?");
                let mut p: Vec<&str> = if rest.is_empty() { vec![] } else { rest[1..].split(' ').collect() };
                if !rest.is_empty() && !rest.starts_with(' ') {
                    ctx.fail(format!("{line:?}"), || t.dump());
                }
                p.sort();
                let mut want = vec![];
                if f.eightbit {
                    want.push("BODY=8BITMIME");
                }
                if utf8 {
                    want.push("SMTPUTF8");
                }
                ctx.count(if f.eightbit { "MAIL with BODY=8BITMIME" } else { "MAIL without BODY" }, 1);
                ctx.count(if utf8 { "MAIL with SMTPUTF8" } else { "MAIL without SMTPUTF8" }, 1);
                if p != want {
                    ctx.fail(format!("{line:?} has parameters {p:?} instead of {want:?}"), || t.dump());
                }
            }
            Kind::Rcpt => {
                if !line.ends_with('>') {
                    ctx.fail(format!("{line:?} has parameters"), || t.dump());
                }
            }
            _ => {}
        }
    }
}

// ---- C16

/// What a server gets out of the exchange, as (user, secret) texts found, or an error
pub fn decode_auth(ctx: &mut Ctx, t: &Trace, rec: &OpRec, mech: Mechanism, user: &str, secret: &str) {
    let items: Vec<&Item> = t.items(rec).into_iter().map(|x| x.1).filter(|i| matches!(i.kind, Kind::Auth | Kind::AuthResp)).collect();
    let Some(first) = items.first() else {
        ctx.fail("nothing was sent", || t.dump());
        return;
    };
    let line = first.line();
    let bad = |ctx: &mut Ctx, m: String| ctx.fail(m, || t.dump());
    match mech {
        Mechanism::Plain | Mechanism::Xoauth2 => {
            let want = if mech == Mechanism::Plain { format!("\0{user}\0{secret}") } else { format!("user={user}\x01auth=Bearer {secret}\x01\x01") };
            let prefix = format!("AUTH {mech} ");
            let Some(arg) = line.strip_prefix(&prefix) else {
                return bad(ctx, format!("{line:?} does not start with {prefix:?}"));
            };
            match unb64(arg.as_bytes()) {
                Some(d) if d == want.as_bytes() => {}
                d => return bad(ctx, format!("the initial response decodes to {:?} instead of {want:?}", d.map(|d| String::from_utf8_lossy(&d).into_owned()))),
            }
            ctx.count(if mech == Mechanism::Plain { "PLAIN exchanges decoded" } else { "XOAUTH2 exchanges decoded" }, 1);
            for i in &items[1..] {
                if i.text != b"*" {
                    return bad(ctx, format!("an unexpected challenge was answered with {:?}", i.line()));
                }
            }
        }
        Mechanism::Login => {
            if line != "AUTH LOGIN" {
                return bad(ctx, format!("{line:?} instead of AUTH LOGIN"));
            }
            for p in items.windows(2) {
                let ans = p[1].line();
                let prompt = if p[0].reply.code == 334 { unb64(p[0].reply.lines[0].as_bytes()).and_then(|x| String::from_utf8(x).ok()) } else { None };
                let prompt = prompt.unwrap_or_default();
                let low = prompt.trim_end_matches(['\0', ':', ' ']).to_ascii_lowercase();
                let is_user = USER_PROMPTS.contains(&prompt.as_str());
                let is_pass = PASS_PROMPTS.contains(&prompt.as_str());
                let like_user = low == "username" || low == "user name";
                let like_pass = low == "password";
                let dec = unb64(ans.as_bytes());
                if ans == "*" {
                    if is_user || is_pass {
                        return bad(ctx, format!("the prompt {prompt:?} was not answered"));
                    }
                    continue;
                }
                let want = if is_user || like_user {
                    user
                } else if is_pass || like_pass {
                    secret
                } else {
                    return bad(ctx, format!("the prompt {prompt:?} was answered with {ans:?}"));
                };
                if dec.as_deref() != Some(want.as_bytes()) {
                    return bad(ctx, format!("the prompt {prompt:?} was answered with {ans:?}, which does not decode to {want:?}"));
                }
                ctx.count("LOGIN answers decoded", 1);
            }
        }
    }
}
fn c16_login(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let f = features(r, None);
    let mut plan = Plan::plain(&[]);
    plan.ehlo = ehlo_reply(r, &f);
    let mut ops = vec![];
    let mut wants = vec![];
    let n = r.range(1, 3);
    let mut at = vec![];
    // Mail before and between, accepted or not
    let o = GenOpts { refuse: 300, max_rcpt: 2, atoms: 2, ..GenOpts::sends(1) };
    for k in 0..n {
        while r.below(3) == 0 {
            let op = send_op(r, &o);
            if let Op::Send { to, .. } = &op {
                let mut t = tx(r, plan.txs.len(), to.len(), &o);
                if t.mail.class() != 2 || t.rcpt.iter().any(|x| x.class() != 2) {
                    // A go-ahead all the same would leave the connection of no use.
                    t.data = reply_neg(r, "data");
                }
                plan.txs.push(t);
            }
            ops.push(op);
        }
        at.push(ops.len());
        let (user, secret) = (any_string(r), any_string(r));
        let mut mechs: Vec<Mechanism> = (0..r.below(5)).map(|_| *r.pick(&MECHS)).collect();
        if r.bool() {
            mechs = MECHS.to_vec();
            r.shuffle(&mut mechs);
        }
        let want = mechs.iter().find(|m| f.mechs.contains(m)).copied();
        if let Some(m) = want {
            plan.auths.push(auth_steps(r, m, &format!("auth{k}"), 200));
        }
        ops.push(Op::TryLogin { mechs, user: user.clone(), secret: secret.clone() });
        wants.push((want, user, secret));
    }
    let t = run(Scenario::new(ClientCfg::plain(), plan, ops, Knobs::random(r)));
    ctx.observe(&t);
    ctx.shape(hash_bytes(&t.pipe.wire));
    if !ctx.sane(&t) {
        return;
    }
    for (k, (want, user, secret)) in at.iter().copied().zip(&wants) {
        let Some(rec) = t.rec(k) else { continue };
        match want {
            None => {
                ctx.count("logins without a mechanism", 1);
                if rec.w0 != rec.w1 {
                    ctx.fail(format!("operation {k}: no accepted mechanism is offered, but {} bytes were written", rec.w1 - rec.w0), || t.dump());
                }
            }
            Some(m) => decode_auth(ctx, &t, rec, *m, user, secret),
        }
    }
    dialogue(ctx, &t);
    results(ctx, &t);
}
fn c16_prompts(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (user, secret) = (any_string(r), any_string(r));
    const OTHER: [&str; 22] = [
        "", " ", "Color?", "User", "Pass", "Passphrase", "Username: Password:", "Your name", "UsernamePassword", "Token", "PIN", "OTP:", "Password: Username:", "Secret", "\0", "Usernam", "asswor", "ü", "Login", "Account", "Old Password", "Username or email",
    ];
    const LIKE: [&str; 6] = ["username:", "PASSWORD:", "User Name\0", "Password:\0", "user name:", "password"];
    let mut steps = vec![];
    let mut other = 0;
    for _ in 0..r.range(1, 6) {
        let p = match r.below(6) {
            0 | 1 => r.pick(&USER_PROMPTS).to_string(),
            2 | 3 => r.pick(&PASS_PROMPTS).to_string(),
            4 => {
                other += 1;
                if r.below(4) == 0 {
                    any_string(r)
                } else {
                    r.pick(&OTHER).to_string()
                }
            }
            _ => r.pick(&LIKE).to_string(),
        };
        steps.push(AStep::Chal(b64(p.as_bytes())));
    }
    steps.push(AStep::Fin(reply_code(r, 235, "done")));
    let mut plan = Plan::plain(&["AUTH LOGIN"]);
    plan.auths = vec![steps];
    let op = if r.bool() { Op::Auth { mech: Mechanism::Login, user: user.clone(), secret: secret.clone() } } else { Op::TryLogin { mechs: vec![Mechanism::Plain, Mechanism::Login], user: user.clone(), secret: secret.clone() } };
    let t = run(Scenario::new(ClientCfg::plain(), plan, vec![op], Knobs::random(r)));
    ctx.observe(&t);
    ctx.shape(hash_bytes(&t.pipe.wire));
    ctx.count("prompts not to be answered", other);
    if ctx.sane(&t) {
        if let Some(rec) = t.rec(0) {
            decode_auth(ctx, &t, rec, Mechanism::Login, &user, &secret);
        }
    }
}
fn c16_rendered(ctx: &mut Ctx) {
    let (user, secret) = (any_string(&mut ctx.rng), any_string(&mut ctx.rng));
    // However they were put together
    let c = match ctx.rng.below(4) {
        0 => (user.clone(), secret.as_str()).into_credentials(),
        1 => Credentials::new(user.clone(), secret.clone()).into_credentials(),
        _ => Credentials::new(user.clone(), secret.clone()),
    };
    let m = *ctx.rng.pick(&MECHS);
    ctx.st.evals += 1;
    ctx.shape(hash_bytes(format!("{m}{user}\0{secret}").as_bytes()));
    if ctx.rng.below(4) == 0 {
        c16_answers(ctx, m, &c, &user, &secret);
        return;
    }
    let show = || format!("mechanism {m}, user {user:?}, secret {secret:?}");
    let (line, want) = match m {
        Mechanism::Login => {
            let (p, w) = if ctx.rng.bool() { (*ctx.rng.pick(&USER_PROMPTS), &user) } else { (*ctx.rng.pick(&PASS_PROMPTS), &secret) };
            (AuthCommand::new(m, c, Some(p.to_string())), w.clone())
        }
        Mechanism::Plain => (AuthCommand::new(m, c, None), format!("\0{user}\0{secret}")),
        Mechanism::Xoauth2 => (AuthCommand::new(m, c, None), format!("user={user}\x01auth=Bearer {secret}\x01\x01")),
    };
    match line {
        Err(e) => ctx.fail(format!("no command: {e}"), show),
        Ok(l) => {
            let s = l.to_string();
            let arg = if m == Mechanism::Login { s.strip_suffix("\r\n") } else { s.strip_prefix(&format!("AUTH {m} ")).and_then(|x| x.strip_suffix("\r\n")) };
            let d = arg.and_then(|a| unb64(a.as_bytes()));
            if d.as_deref() != Some(want.as_bytes()) {
                ctx.fail(format!("{s:?} does not carry {want:?}"), show);
            }
        }
    }
}

/// What a mechanism answers to which challenge, or to none
fn c16_answers(ctx: &mut Ctx, m: Mechanism, c: &Credentials, user: &str, secret: &str) {
    let r = &mut ctx.rng;
    let p = match r.below(5) {
        0 => None,
        1 => Some(r.pick(&USER_PROMPTS).to_string()),
        2 => Some(r.pick(&PASS_PROMPTS).to_string()),
        3 => Some(String::new()),
        _ => Some(any_string(r)),
    };
    let known = |l: &[&str]| p.as_deref().is_some_and(|p| l.contains(&p));
    let want = match (m, &p) {
        (Mechanism::Plain, None) => Some(format!("\0{user}\0{secret}")),
        (Mechanism::Xoauth2, None) => Some(format!("user={user}\x01auth=Bearer {secret}\x01\x01")),
        (Mechanism::Login, Some(_)) if known(&USER_PROMPTS) => Some(user.to_string()),
        (Mechanism::Login, Some(_)) if known(&PASS_PROMPTS) => Some(secret.to_string()),
        _ => None,
    };
    // Prompts that differ from the usual ones in case or blanks may be understood, too.
    if want.is_none() && p.as_deref().is_some_and(|p| { let l = p.trim().to_lowercase(); l.contains("name") || l.contains("pass") || l.contains("login") }) {
        return;
    }
    let show = || format!("mechanism {m}, user {user:?}, secret {secret:?}, challenge {p:?}");
    let got = m.response(c, p.as_deref()).ok();
    ctx.count("answers compared", 1);
    if got != want {
        ctx.fail(format!("answers {got:?} instead of {want:?}"), show);
    }
    if m.supports_initial_response() == (m == Mechanism::Login) {
        ctx.fail(format!("supports_initial_response is {}", m.supports_initial_response()), show);
    }
    // An answer is made for a challenge only, and for that one.
    let Some(p) = &p else { return };
    let code = *ctx.rng.pick(&[334, 334, 235, 250, 354, 535, 454]);
    let resp: Response = format!("{code} {}\r\n", b64(p.as_bytes())).parse().expect("reply");
    let got = AuthCommand::new_from_response(m, c.clone(), &resp).ok().map(|c| c.to_string());
    let want = want.filter(|_| code == 334 && !p.is_empty()).map(|w| format!("{}\r\n", b64(w.as_bytes())));
    if got != want {
        ctx.fail(format!("to a reply of code {code}, answers {got:?} instead of {want:?}"), show);
    }
}

// ---- C17

fn c17_judge(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    if !ctx.sane(t) {
        return;
    }
    for rec in &t.recs {
        let Some(i) = rec.op else { continue };
        if !matches!(t.sc.ops[i], Op::Auth { .. } | Op::TryLogin { .. }) {
            ctx.count("operations after an authentication", 1);
            continue;
        }
        let items = t.items(rec);
        let answers = items.iter().filter(|(_, x)| x.kind == Kind::AuthResp && x.text != b"*").count();
        let cancelled = items.iter().any(|(_, x)| x.kind == Kind::AuthResp && x.text == b"*");
        if answers > 10 {
            ctx.fail(format!("operation {i} answered {answers} challenges"), || t.dump());
        }
        if cancelled {
            ctx.count("authentications cancelled", 1);
            if items.last().map(|x| x.1.text != b"*").unwrap_or(true) {
                ctx.fail(format!("operation {i} went on after cancelling"), || t.dump());
            }
            if rec.res.is_ok() {
                ctx.fail(format!("operation {i} was cancelled, but succeeded"), || t.dump());
            }
        } else if rec.res.is_ok() {
            ctx.count("authentications accepted", 1);
        } else {
            ctx.count("authentications refused", 1);
        }
        // The exchange must be over.
        if let Some((_, last)) = items.last() {
            if last.reply.code == 334 {
                ctx.fail(format!("operation {i} returned {:?} while the server is waiting for an answer", rec.res), || t.dump());
            }
        }
    }
    dialogue(ctx, t);
    results(ctx, t);
    deliveries(ctx, t);
}
fn c17_scenario(r: &mut Rng, mech: Mechanism, steps: Vec<AStep>) -> Scenario {
    let mut plan = Plan::plain(if r.bool() { &["PIPELINING", "AUTH PLAIN LOGIN XOAUTH2", "STARTTLS"] } else { &["AUTH PLAIN LOGIN XOAUTH2", "STARTTLS"] });
    plan.auths = vec![steps];
    let (user, secret) = (any_string(r), any_string(r));
    let mut ops = vec![if r.below(4) == 0 { Op::TryLogin { mechs: vec![mech], user, secret } } else { Op::Auth { mech, user, secret } }];
    let mut o = GenOpts::sends(1);
    o.max_rcpt = 2;
    o.atoms = 3;
    for k in 0..r.range(1, 2) {
        match r.below(6) {
            0 => {
                let m = *r.pick(&MECHS);
                plan.auths.push(auth_steps(r, m, &format!("later auth{k}"), 200));
                ops.push(Op::Auth { mech: m, user: "u2".into(), secret: "s2".into() });
            }
            1 => {
                ops.push(Op::Quit);
                break;
            }
            2 => {
                ops.push(Op::Starttls);
                break;
            }
            _ => ops.push(send_op(r, &o)),
        }
    }
    Scenario::new(ClientCfg::plain(), plan, ops, Knobs::random(r))
}
fn c17(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mech = *r.pick(&[Mechanism::Login, Mechanism::Login, Mechanism::Plain, Mechanism::Xoauth2]);
    let mut steps = vec![];
    let n = match r.below(4) {
        0 => 0,
        1 => r.range(9, 15),
        _ => r.range(1, 4),
    };
    let long_form = r.below(4) == 0;
    for _ in 0..n {
        let c = match r.below(14) {
            0 => String::new(),
            1 => "!!!".into(),
            2 => "A".into(),
            3 => "/w==".into(),
            4 => b64(&[0xff, 0xfe]),
            5 => b64(b"Color?"),
            6 => "VXNlcm5hbWU6=".into(),
            7 | 8 | 9 => b64(r.pick(&PASS_PROMPTS).as_bytes()),
            _ => b64(r.pick(&USER_PROMPTS).as_bytes()),
        };
        if long_form {
            let x = if n >= 9 { b64(b"Username:") } else { c.clone() };
            let more = (0..r.below(3)).map(|_| text(r));
            let mut l: Vec<String> = std::iter::once(x).chain(more.collect::<Vec<_>>()).collect();
            if r.below(6) == 0 {
                l[0] = format!("{} {}", l[0], text(r));
            }
            steps.push(AStep::Any(if r.below(4) == 0 { Reply::bare(334, l) } else { Reply::new(334, l) }));
        } else if n >= 9 && r.below(8) != 0 {
            steps.push(AStep::Chal(b64(b"Username:")));
        } else {
            steps.push(AStep::Chal(c));
        }
    }
    let fin = match r.below(6) {
        0 => reply_class(r, 4, "auth"),
        1 => reply_class(r, 5, "auth"),
        2 => {
            let mut x = reply_class(r, 3, "auth");
            while x.code == 334 {
                x = reply_class(r, 3, "auth");
            }
            x
        }
        3 => reply_class(r, 2, "auth"),
        _ => reply_code(r, 235, "auth"),
    };
    // After a 3yz reply the server's state is anyone's guess: nothing may follow.
    let odd = fin.class() == 3;
    steps.push(AStep::Fin(fin));
    let mut sc = c17_scenario(r, mech, steps);
    if r.below(6) == 0 {
        echo_challenges(r, &mut sc);
    }
    if odd {
        sc.ops.truncate(1);
    }
    let t = run(sc);
    c17_judge(ctx, &t);
}
/// Servers which do not accept a cancellation: the authentication ends all the same.
fn c17_vain(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mech = *r.pick(&MECHS);
    let mut steps: Vec<AStep> = (0..if r.bool() { r.below(3) } else { r.range(10, 14) }).map(|_| AStep::Chal(b64(b"Username:"))).collect();
    steps.push(AStep::Chal(if r.bool() { "!!!".into() } else { b64(b"Color?") }));
    steps.push(AStep::Fin(reply_code(r, 235, "auth")));
    let mut sc = c17_scenario(r, mech, steps);
    sc.ops.truncate(1);
    let n = *r.pick(&[1, 2, 50, 300]);
    sc.plan.cancel = (0..n)
        .map(|_| match r.below(3) {
            0 => reply_code(r, 334, "again"),
            1 => Reply::one(334, &b64(b"Username:")),
            _ => Reply::one(334, ""),
        })
        .collect();
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    let Some(rec) = t.rec(0) else { return };
    let lines = t.items(rec).len();
    if lines > 16 {
        ctx.fail(format!("the authentication went on for {lines} lines"), || t.dump());
    }
    if t.items(rec).iter().any(|(_, x)| x.kind == Kind::AuthResp && x.text == b"*") {
        ctx.count("cancellations not accepted", 1);
        if rec.res.is_ok() {
            ctx.fail("the authentication was cancelled, but succeeded", || t.dump());
        }
    }
}
fn c17_counts(ctx: &mut Ctx) {
    let mut n = ctx.idx;
    let mut d = |k: u64| {
        let r = n % k;
        n /= k;
        r as usize
    };
    let (chals, mech, fin, end) = (d(16), MECHS[d(3)], d(6), d(2));
    let r = &mut ctx.rng;
    let mut steps: Vec<AStep> = (0..chals).map(|k| AStep::Chal(b64(if (k + end) % 2 == 0 { b"Username:" } else { b"Password:" }))).collect();
    let fin = match fin {
        0 => reply_class(r, 4, "auth"),
        1 => reply_class(r, 5, "auth"),
        2 => reply_code(r, 535, "auth"),
        3 => reply_class(r, 2, "auth"),
        _ => reply_code(r, 235, "auth"),
    };
    let ok = fin.class() == 2;
    steps.push(AStep::Fin(fin));
    let sc = c17_scenario(r, mech, steps);
    let t = run(sc);
    ctx.st.enumerated += 1;
    c17_judge(ctx, &t);
    // With prompts that have to be answered, the server decides.
    if let Some(rec) = t.rec(0) {
        let want = ok && if mech == Mechanism::Login { chals <= 10 } else { chals == 0 };
        if rec.res.is_ok() != want {
            ctx.fail(format!("{chals} challenges: {:?}", rec.res), || t.dump());
        }
    }
}

// ---- C18

fn c18(ctx: &mut Ctx) {
    let mut o = GenOpts::history(3);
    o.min_ops = 0;
    o.quit = false;
    o.refuse = *ctx.rng.pick(&[0, 0, 150]);
    o.atoms = 4;
    let mut sc = scenario(&mut ctx.rng, &o);
    let r = &mut ctx.rng;
    sc.plan.starttls = if r.below(6) == 0 { reply_neg(r, "starttls") } else { reply_class(r, 2, "starttls") };
    sc.plan.after_starttls = match r.below(4) {
        0 => vec![],
        1 => b"250 injected\r\n".to_vec(),
        2 => (0..r.range(1, 600)).map(|_| r.next() as u8).collect(),
        _ => content(r, 3),
    };
    sc.ops.push(Op::Starttls);
    if r.below(4) == 0 {
        echo(r, &sc.cfg, &mut sc.plan, &sc.ops);
    }
    let last = sc.ops.len() - 1;
    let offered = ref_features(&sc.plan.ehlo.lines).starttls;
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    results(ctx, &t);
    let Some(rec) = t.rec(last) else { return };
    let item = t.server.items.iter().find(|i| i.kind == Kind::Starttls);
    if !offered {
        ctx.count("not offered", 1);
        if item.is_some() || rec.w0 != rec.w1 || rec.res.is_ok() {
            ctx.fail("STARTTLS is not offered, but something was written", || t.dump());
        }
        return;
    }
    let Some(item) = item else {
        // Possible on a spoilt connection only; judged above
        if rec.res.is_ok() {
            ctx.fail("success without STARTTLS", || t.dump());
        }
        return;
    };
    if item.line() != "STARTTLS" {
        ctx.fail(format!("{:?}", item.line()), || t.dump());
    }
    if rec.w0 != item.from || t.pipe.wire.len() != item.to {
        ctx.fail("something else than STARTTLS was written", || t.dump());
    }
    if rec.unflushed > 0 {
        ctx.fail(format!("{} bytes not flushed", rec.unflushed), || t.dump());
    }
    match (&rec.res, &rec.rest) {
        (Res::Ok(_), Some(rest)) => {
            ctx.count("streams handed over", 1);
            ctx.count("bytes left for the caller", rest.len() as u64);
            if item.reply.class() != 2 {
                ctx.fail("the stream was handed over after a refusal", || t.dump());
            }
            if t.pipe.shut {
                ctx.fail("the stream was closed before it was handed over", || t.dump());
            }
            if *rest != t.sc.plan.after_starttls {
                ctx.fail(format!("the stream is left at {:?} instead of {:?}", String::from_utf8_lossy(rest), String::from_utf8_lossy(&t.sc.plan.after_starttls)), || t.dump());
            }
        }
        (Res::Ok(_), None) => ctx.fail("generator: no stream", || t.dump()),
        _ => ctx.count("STARTTLS refused", 1),
    }
}

/// A 3yz reply to STARTTLS is not expected; whether it counts as positive is left to the client, but nothing after it
/// may be taken for a reply.
fn c18_odd(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut plan = Plan::plain(&["STARTTLS", "PIPELINING"]);
    plan.starttls = reply_class(r, 3, "starttls");
    plan.after_starttls = match r.below(4) {
        0 => vec![],
        1 => b"220 go ahead\r\n".to_vec(),
        2 => reply_class(r, 2, "more").raw,
        _ => content(r, 3),
    };
    let t = run(Scenario::new(ClientCfg::plain(), plan, vec![Op::Starttls], Knobs::random(r)));
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    let Some(rec) = t.rec(0) else { return };
    ctx.count("intermediate replies", 1);
    if !t.pipe.wire.ends_with(b"\r\nSTARTTLS\r\n") {
        ctx.fail("something else than STARTTLS was written", || t.dump());
    }
    if let (Res::Ok(_), Some(rest)) = (&rec.res, &rec.rest) {
        if *rest != t.sc.plan.after_starttls {
            ctx.fail(format!("the stream is left at {:?} instead of {:?}", String::from_utf8_lossy(rest), String::from_utf8_lossy(&t.sc.plan.after_starttls)), || t.dump());
        }
    }
}

// ---- C19

fn c19_setup(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let f = features(r, None);
    let mut c = cfg(r);
    if let Some(async_smtp::extension::ClientId::Domain(d)) = &mut c.hello {
        if r.bool() {
            let n = if r.below(8) == 0 { r.range(200, 3000) } else { r.range(1, 60) };
            *d = (0..n).map(|_| r.range(0x20, 0x7e) as u8 as char).collect();
        }
    }
    let mut plan = Plan::plain(&[]);
    plan.ehlo = ehlo_reply(r, &f);
    plan.greeting = None;
    if c.greeting {
        let mut g = match r.below(4) {
            0 => reply_neg(r, "greeting"),
            1 => reply_class(r, 2, "greeting"),
            _ => reply_code(r, 220, "greeting"),
        };
        if r.below(8) == 0 && g.class() != 2 {
            g = g.closing();
        }
        plan.greeting = Some(g);
    }
    if r.below(4) == 0 {
        plan.ehlo = reply_neg(r, "ehlo");
        if r.below(4) == 0 {
            plan.ehlo.close = true;
        }
    }
    let o = GenOpts::sends(1);
    let ops = if r.bool() { vec![send_op(r, &o)] } else { vec![] };
    if r.below(4) == 0 {
        echo(r, &c, &mut plan, &ops);
    }
    let mut k = Knobs::random(r);
    if r.bool() {
        k.release_chunk = Chunk::One;
    }
    let t = run(Scenario::new(c.clone(), plan.clone(), ops, k));
    ctx.observe(&t);
    ctx.shape(hash_bytes(c.hello_text().as_bytes()));
    if !ctx.sane(&t) {
        return;
    }
    results(ctx, &t);
    order(ctx, &t);
    dialogue(ctx, &t);
    let line = format!("EHLO {}\r\n", c.hello_text());
    let rec = t.setup();
    let setup = &t.pipe.wire[..rec.w1];
    if !c.greeting {
        ctx.count("without greeting", 1);
    }
    let refused = plan.greeting.as_ref().map(|g| g.class() != 2).unwrap_or(false);
    if refused {
        ctx.count("greetings refused", 1);
        if !t.pipe.wire.is_empty() || rec.res.is_ok() {
            ctx.fail("something was written after the greeting refused the connection", || t.dump());
        }
        return;
    }
    if setup != line.as_bytes() {
        ctx.fail(format!("set-up wrote {:?} instead of {line:?}", String::from_utf8_lossy(setup)), || t.dump());
    }
    if plan.ehlo.class() != 2 {
        ctx.count("EHLO refused", 1);
        if t.pipe.wire.len() != line.len() || rec.res.is_ok() {
            ctx.fail("something was written after EHLO was refused", || t.dump());
        }
        return;
    }
    ctx.count("connections set up", 1);
    if !rec.res.is_ok() {
        ctx.fail(format!("set-up returned {:?}", rec.res), || t.dump());
    }
}
fn c19_quit(ctx: &mut Ctx) {
    let mut o = GenOpts::history(3);
    o.min_ops = 0;
    o.quit = false;
    o.refuse = *ctx.rng.pick(&[0, 0, 150]);
    o.atoms = 4;
    let mut sc = scenario(&mut ctx.rng, &o);
    let r = &mut ctx.rng;
    sc.plan.quit = if r.below(3) == 0 { reply_neg(r, "quit") } else { reply_class(r, 2, "quit") };
    if r.below(4) == 0 {
        sc.plan.quit.close = true;
    }
    sc.ops.push(Op::Quit);
    if r.below(4) == 0 {
        echo(r, &sc.cfg, &mut sc.plan, &sc.ops);
    }
    let last = sc.ops.len() - 1;
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    results(ctx, &t);
    dialogue(ctx, &t);
    let Some(rec) = t.rec(last) else { return };
    if rec.w0 == rec.w1 {
        // Judged by results(): on a spoilt connection only
        return;
    }
    if &t.pipe.wire[rec.w0..rec.w1] != b"QUIT\r\n" {
        ctx.fail(format!("quit wrote {:?}", String::from_utf8_lossy(&t.pipe.wire[rec.w0..rec.w1])), || t.dump());
    }
    ctx.count(if rec.res.is_ok() { "QUIT accepted" } else { "QUIT refused" }, 1);
}

// ---- C25

fn fuzz_ops(r: &mut Rng) -> Vec<Op> {
    let mut ops = vec![];
    let mut o = GenOpts::sends(1);
    o.max_rcpt = 4;
    o.atoms = 4;
    o.reader = true;
    for _ in 0..r.range(1, 4) {
        match r.below(5) {
            0 => ops.push(Op::Auth { mech: *r.pick(&MECHS), user: any_string(r), secret: any_string(r) }),
            1 => ops.push(Op::TryLogin { mechs: MECHS.to_vec(), user: any_string(r), secret: any_string(r) }),
            2 if r.below(3) == 0 => ops.push(Op::Quit),
            _ => ops.push(send_op(r, &o)),
        }
    }
    if r.below(4) == 0 {
        ops.push(Op::Starttls);
    }
    ops
}
fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..r.range(1, 6) {
        if v.is_empty() {
            return;
        }
        let i = r.below(v.len());
        match r.below(10) {
            0 => v[i] ^= 1 << r.below(8),
            1 => v[i] = r.next() as u8,
            2 => {
                v.remove(i);
            }
            3 => v.insert(i, *r.pick(&[b'\r', b'\n', b' ', b'-', b'0', 0, 0xff, 0xc3])),
            4 => v.truncate(i),
            5 => {
                let j = (i + r.below(40)).min(v.len());
                let part = v[i..j].to_vec();
                let at = r.below(v.len());
                for (k, b) in part.into_iter().enumerate() {
                    v.insert(at + k, b);
                }
            }
            6 => {
                let j = (i + r.below(40)).min(v.len());
                v.drain(i..j);
            }
            7 => {
                // A digit of a code
                if let Some(p) = v[i..].windows(2).position(|x| x == b"\r\n") {
                    let at = i + p + 2 + r.below(4);
                    if at < v.len() {
                        v[at] = *r.pick(b"0123456789 -x");
                    }
                }
            }
            8 => {
                let s: &[u8] = r.pick(&[&b"\r\n"[..], b"250 ok\r\n", b"250-\r\n", b"334 \r\n", b"334 VXNlcm5hbWU6\r\n", b"354\r\n", b"550-x\r\n250 y\r\n", b"\xff\xfe\r\n", "250 \u{feff}\r\n".as_bytes(), b"2", b"99999\r\n"]);
                for (k, b) in s.iter().enumerate() {
                    v.insert(i + k, *b);
                }
            }
            _ => v[i] = b'\n',
        }
    }
}
pub fn hostile_scenario(r: &mut Rng) -> Scenario {
    if r.below(3) == 0 {
        let bytes = arbitrary_bytes(r);
        let mut plan = Plan::plain(&[]);
        plan.hostile = Some(bytes);
        let c = cfg(r);
        return Scenario::new(c, plan, fuzz_ops(r), Knobs::random(r));
    }
    let mut o = GenOpts::history(4);
    o.starttls = true;
    o.atoms = 3;
    o.refuse = 60;
    let mut sc = scenario(r, &o);
    let mut b = sc.clone();
    b.knobs = Knobs::plain();
    let clean = run(b);
    let mut v = clean.pipe.out;
    mutate(r, &mut v);
    sc.plan.hostile = Some(v);
    sc
}
fn arbitrary_bytes(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    // Far enough for operations to be reached
    if r.below(4) != 0 {
        v.extend_from_slice(b"220 hi\r\n");
        v.extend_from_slice(r.pick(&[&b"250 x\r\n"[..], b"250-x\r\n250-PIPELINING\r\n250-STARTTLS\r\n250 AUTH PLAIN LOGIN XOAUTH2\r\n", b"250-x\r\n250 AUTH LOGIN\r\n"]));
    }
    for _ in 0..r.below(12) {
        match r.below(12) {
            0 => (0..r.below(50)).for_each(|_| v.push(r.next() as u8)),
            1 => v.extend_from_slice(format!("{:03} text\r\n", r.below(1000)).as_bytes()),
            2 => v.extend_from_slice(format!("{:03}-text\r\n", r.below(1000)).as_bytes()),
            3 => v.extend_from_slice(&reply_class(r, 2, "x").raw),
            4 => v.extend_from_slice(&reply_class(r, 3, "x").raw),
            5 => v.extend_from_slice(&reply_neg(r, "x").raw),
            6 => v.extend_from_slice(format!("334 {}\r\n", b64(any_string(r).as_bytes())).as_bytes()),
            7 => v.extend_from_slice(format!("334 {}\r\n", any_string(r)).as_bytes()),
            8 => v.extend_from_slice(r.pick(&[&b"\r\n"[..], b"\n", b"\r", b"250", b"250 ", b"250-", b" ", b"25", b"\0", b"250 a\n", b"250 a\r250 b\r\n", b"\xff"])),
            9 => v.extend_from_slice(b"334 VXNlcm5hbWU6\r\n"),
            10 => v.extend_from_slice(b"354 go\r\n"),
            _ => v.extend_from_slice(b"250 ok\r\n"),
        }
    }
    v
}
fn c25_judge(ctx: &mut Ctx, t: &Trace) {
    ctx.observe(t);
    if let Some(h) = &t.sc.plan.hostile {
        ctx.shape(hash_bytes(h));
    }
    ctx.count("hostile bytes read", t.pipe.consumed as u64);
    if !ctx.sane(t) {
        return;
    }
    // An operation that met the end of the connection cannot have succeeded.
    for r in &t.recs {
        if r.res.is_ok() && r.r0 == r.r1 && r.w1 > r.w0 {
            ctx.fail(format!("operation {:?} succeeded without reading a reply", r.op), || t.dump());
        }
    }
}
fn c25_mutated(ctx: &mut Ctx) {
    let sc = hostile_scenario(&mut ctx.rng);
    let t = run(sc);
    c25_judge(ctx, &t);
}
fn c25_arbitrary(ctx: &mut Ctx) {
    let mut plan = Plan::plain(&[]);
    plan.hostile = Some(arbitrary_bytes(&mut ctx.rng));
    let c = cfg(&mut ctx.rng);
    let ops = fuzz_ops(&mut ctx.rng);
    let k = Knobs::random(&mut ctx.rng);
    let t = run(Scenario::new(c, plan, ops, k));
    c25_judge(ctx, &t);
}
/// A malformed reply where a reply is expected, from a server that otherwise behaves
fn c25_replies(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut raw = reply_code(r, *r.clone().pick(&[250, 354, 550, 334, 220]), "x").raw;
    mutate(r, &mut raw);
    if r.below(6) == 0 {
        raw = arbitrary_bytes(r);
    }
    let mut rep = Reply::raw(&raw);
    rep.close = true;
    let (sc, _) = carrier(r, ctx.idx % CARRIERS, rep);
    let t = run(sc);
    ctx.shape(hash_bytes(&raw));
    c25_judge(ctx, &t);
}
/// Well-formed replies with odd texts at every step
fn c25_odd(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let code = *r.pick(&[250, 250, 250, 354, 550, 334, 220, 235, 421, 299]);
    let n = r.range(1, 5);
    let lines: Vec<String> = (0..n)
        .map(|_| match r.below(8) {
            0 | 1 => String::new(),
            2 => ["AUTH", "AUTH ", " AUTH", "AUTH\u{a0}PLAIN", "STARTTLS", " ", "  ", "\t", "\u{a0}", "\u{2003}", "=", "\0"][r.below(12)].into(),
            3 => b64(any_string(r).as_bytes()),
            4 => any_string(r).replace(['\r', '\n'], ""),
            5 => "\u{e4}\u{20ac}\u{1F600}".repeat(r.below(60)),
            6 => {
                let n = *r.pick(&[10, 40, 150, 700]);
                let k = *r.pick(&["AUTH", "SIZE", "PIPELINING", "X"]);
                format!("{k} {}", (0..r.below(n)).map(|_| *r.pick(&["PLAIN", "LOGIN", "XOAUTH2", "X", "", "A=B"])).collect::<Vec<_>>().join(" "))
            }
            _ => text(r),
        })
        .collect();
    let rep = if r.below(4) == 0 { Reply::bare(code, lines) } else { Reply::new(code, lines) };
    let h = hash_bytes(&rep.raw);
    let (sc, _) = carrier(r, ctx.idx % CARRIERS, rep);
    ctx.shape(h);
    let t = run(sc);
    ctx.observe(&t);
    ctx.count("hostile bytes read", t.pipe.consumed as u64);
    ctx.sane(&t);
}
/// A server that sends something and stays silent: waiting is all the client may do.
fn c25_silent(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut o = GenOpts::history(3);
    o.atoms = 3;
    let mut sc = scenario(r, &o);
    // The final replies are incomplete.
    let cut = |r: &mut Rng, x: &mut Reply| {
        let n = r.below(x.raw.len());
        x.raw.truncate(n);
        x.code = 0;
    };
    match r.below(4) {
        0 => cut(r, &mut sc.plan.ehlo),
        1 => {
            if let Some(g) = &mut sc.plan.greeting {
                cut(r, g)
            }
        }
        _ => {
            let k = r.below(sc.plan.txs.len().max(1));
            if let Some(t) = sc.plan.txs.get_mut(k) {
                match r.below(4) {
                    0 => cut(r, &mut t.mail),
                    1 => cut(r, &mut t.rcpt[0]),
                    2 => cut(r, &mut t.data),
                    _ => cut(r, &mut t.fin),
                }
            }
        }
    }
    let t = run(sc);
    ctx.observe(&t);
    ctx.count("hostile bytes read", t.pipe.consumed as u64);
    ctx.count("operations left waiting", t.recs.iter().filter(|r| r.res == Res::Stall).count() as u64);
    if let Some(r) = t.recs.iter().find(|r| matches!(r.res, Res::Panic(_) | Res::Spin(_))) {
        ctx.fail(format!("operation {:?}: {:?}", r.op, r.res), || t.dump());
    }
    if t.recs.iter().any(|r| r.res == Res::Stall) && (t.stall_write || t.stall_unflushed > 0) {
        ctx.fail("the client waits for something else than input", || t.dump());
    }
}
fn c25_long(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut raw = vec![];
    match r.below(5) {
        0 => {
            for i in 0..r.range(100, 1500) {
                raw.extend_from_slice(format!("250-line {i}\r\n").as_bytes());
            }
            if r.bool() {
                raw.extend_from_slice(b"250 end\r\n");
            }
        }
        1 => {
            raw.extend_from_slice(b"250 ");
            raw.extend(std::iter::repeat(b'x').take(r.range(10_000, 2_000_000)));
            if r.bool() {
                raw.extend_from_slice(b"\r\n");
            }
        }
        2 => raw.extend(std::iter::repeat(b'2').take(r.range(10_000, 1_000_000))),
        3 => {
            for _ in 0..r.range(100, 2000) {
                raw.extend_from_slice(b"250-a\n");
            }
        }
        _ => {
            for _ in 0..r.range(3, 40) {
                raw.extend_from_slice(format!("334 {}\r\n", b64(b"Username:")).as_bytes());
            }
        }
    }
    let mut rep = Reply::raw(&raw);
    rep.close = true;
    let (mut sc, _) = carrier(r, ctx.idx % CARRIERS, rep);
    for c in [&mut sc.knobs.read_chunk, &mut sc.knobs.release_chunk] {
        if *c != Chunk::All {
            *c = Chunk::Upto(5000);
        }
    }
    let t = run(sc);
    c25_judge(ctx, &t);
}
fn c25_parsers(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    ctx.st.evals += 1;
    let s = match r.below(4) {
        0 => String::from_utf8_lossy(&arbitrary_bytes(r)).into_owned(),
        1 => any_string(r),
        2 => {
            let mut v = reply_class(r, 2, "x").raw;
            mutate(r, &mut v);
            String::from_utf8_lossy(&v).into_owned()
        }
        _ => {
            let n = r.below(4);
            format!("{}{}\r\n", ["250", "334", "2", ""][n], any_string(r))
        }
    };
    ctx.shape(hash_bytes(s.as_bytes()));
    let mech = *ctx.rng.pick(&MECHS);
    let mut resp = s.parse::<Response>().ok();
    if resp.is_none() && ctx.rng.bool() {
        if let Ok(mut x) = "250 x\r\n".parse::<Response>() {
            x.message = s.split('\n').map(|y| y.to_string()).collect();
            if ctx.rng.below(4) == 0 {
                x.message.clear();
            }
            resp = Some(x);
        }
    }
    if let Some(x) = resp {
        let _ = ServerInfo::from_response(&x).map(|i| i.to_string());
        let _ = (x.first_word().map(str::len), x.first_line().map(str::len), x.is_positive(), x.has_code(334));
        let e: async_smtp::error::Error = x.clone().into();
        let _ = format!("{e} {e:?}");
        if let Ok(mut c) = "334 x\r\n".parse::<Response>() {
            c.message = x.message.clone();
            let _ = AuthCommand::new_from_response(mech, Credentials::new("u".into(), "p".into()), &c).map(|c| c.to_string());
        }
    }
    let _ = mech.response(&Credentials::new(s.clone(), s.clone()), Some(&s));
    let _ = SourceSpec::random(&mut ctx.rng);
}
