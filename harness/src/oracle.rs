//! Oracles over the trace of a run. They look at what crossed the API and the transport only.
use crate::ctx::Ctx;
use crate::server::*;
use crate::session::*;
use async_smtp::authentication::Mechanism;

/// The content a server must recover from a message
pub fn content_ok(given: &[u8], got: &[u8]) -> bool {
    if given.is_empty() || given.ends_with(b"\r\n") {
        return given == got;
    }
    if got.len() < given.len() || &got[..given.len()] != given {
        return false;
    }
    let tail = &got[given.len()..];
    tail == b"\r\n" || (given.ends_with(b"\r") && tail == b"\n")
}

#[derive(Clone, Debug)]
pub enum Want {
    Ok(Reply),
    Refusal(Reply),
    /// An error which is not a reply
    Error(&'static str),
    /// The connection failed
    Lost,
    /// The same, after a challenge; what was wrong with the challenge may be reported.
    LostInAuth,
    /// Nothing was transmitted
    Silent,
}

pub fn is_reply_err(r: &Res) -> bool {
    matches!(r, Res::Err(ErrK::Transient(_)) | Res::Err(ErrK::Permanent(_)))
}
pub fn refusal_eq(r: &Res, reply: &Reply) -> bool {
    match r {
        Res::Err(ErrK::Transient(x)) => reply.class() == 4 && *x == *reply,
        Res::Err(ErrK::Permanent(x)) => reply.class() == 5 && *x == *reply,
        _ => false,
    }
}
pub fn got(it: &Item, rec: &OpRec) -> bool {
    it.r_to <= rec.r1
}
fn expected_class(k: Kind) -> u16 {
    match k {
        Kind::Data => 3,
        _ => 2,
    }
}

pub fn want_send(t: &Trace, rec: &OpRec) -> Want {
    let items = t.items(rec);
    if items.is_empty() {
        return if rec.w0 == rec.w1 { Want::Silent } else { Want::Lost };
    }
    for (_, it) in &items {
        if it.reply.code == 0 {
            return Want::Error("a malformed reply");
        }
        if !got(it, rec) {
            return Want::Lost;
        }
        let c = it.reply.class();
        if c == 4 || c == 5 {
            return Want::Refusal(it.reply.clone());
        }
        if c != expected_class(it.kind) {
            return Want::Error("a reply of an unexpected class");
        }
        if it.kind == Kind::Fin {
            return Want::Ok(it.reply.clone());
        }
    }
    Want::Lost
}

pub fn want_auth(t: &Trace, rec: &OpRec) -> Want {
    let items = t.items(rec);
    if items.is_empty() {
        return if rec.w0 == rec.w1 { Want::Silent } else { Want::Lost };
    }
    for (_, it) in &items {
        if it.kind == Kind::AuthResp && it.text == b"*" {
            return Want::Error("authentication was cancelled");
        }
        if it.reply.code == 0 {
            return Want::Error("a malformed reply");
        }
        if !got(it, rec) {
            return Want::Lost;
        }
        let c = it.reply.class();
        if c == 4 || c == 5 {
            return Want::Refusal(it.reply.clone());
        }
        if it.kind == Kind::Rset {
            if c != 2 {
                return Want::Error("a reply of an unexpected class");
            }
            continue;
        }
        if c == 2 {
            return Want::Ok(it.reply.clone());
        }
        if it.reply.code != 334 {
            return Want::Error("a reply of an unexpected class");
        }
    }
    if items.last().map(|(_, i)| i.reply.code == 334).unwrap_or(false) {
        // The cancellation did not get through.
        return Want::LostInAuth;
    }
    Want::Lost
}

pub fn want_simple(t: &Trace, rec: &OpRec) -> Want {
    let items = t.items(rec);
    match items.first() {
        None => {
            if rec.w0 == rec.w1 {
                Want::Silent
            } else {
                Want::Lost
            }
        }
        Some((_, it)) => {
            if it.reply.code == 0 {
                return Want::Error("a malformed reply");
            }
            if !got(it, rec) {
                return Want::Lost;
            }
            match it.reply.class() {
                4 | 5 => Want::Refusal(it.reply.clone()),
                2 => Want::Ok(it.reply.clone()),
                _ => Want::Error("a reply of an unexpected class"),
            }
        }
    }
}
pub fn want_setup(t: &Trace, rec: &OpRec) -> Want {
    for it in t.server.items.iter().take(2) {
        if !matches!(it.kind, Kind::Greeting | Kind::Ehlo) {
            break;
        }
        if it.reply.code == 0 {
            return Want::Error("a malformed reply");
        }
        if !got(it, rec) {
            return Want::Lost;
        }
        match it.reply.class() {
            4 | 5 => return Want::Refusal(it.reply.clone()),
            2 => {}
            _ => return Want::Error("a reply of an unexpected class"),
        }
        if it.kind == Kind::Ehlo {
            return Want::Ok(it.reply.clone());
        }
    }
    Want::Lost
}

pub fn offered(t: &Trace) -> Vec<Mechanism> {
    ref_features(&t.sc.plan.ehlo.lines).mechs
}

/// Independent reading of an EHLO reply
#[derive(Default, Debug, Clone)]
pub struct RefFeat {
    pub pipelining: bool,
    pub eightbit: bool,
    pub utf8: bool,
    pub starttls: bool,
    pub mechs: Vec<Mechanism>,
}
pub fn ref_features(lines: &[String]) -> RefFeat {
    let mut f = RefFeat::default();
    for l in lines.iter().skip(1) {
        let mut w = l.split(' ').filter(|x| !x.is_empty());
        match w.next().unwrap_or("").to_ascii_uppercase().as_str() {
            "PIPELINING" => f.pipelining = true,
            "8BITMIME" => f.eightbit = true,
            "SMTPUTF8" => f.utf8 = true,
            "STARTTLS" => f.starttls = true,
            "AUTH" => {
                for m in w {
                    for k in crate::gen::MECHS {
                        if m == k.to_string() && !f.mechs.contains(&k) {
                            f.mechs.push(k);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    f
}
pub fn pipelined(t: &Trace) -> bool {
    ref_features(&t.sc.plan.ehlo.lines).pipelining && t.sc.cfg.pipelining != Some(false)
}

/// After this, the client may refuse to go on.
pub fn spoils(t: &Trace, rec: &OpRec) -> bool {
    match &rec.res {
        // Before the first attempt to write, the server knows nothing of it.
        Res::Abandoned => rec.tried > 0 || rec.w0 != rec.w1,
        Res::Err(ErrK::Other(..)) => {
            // A cancelled authentication is over when the server has said so.
            match t.items(rec).last() {
                Some((_, i)) if i.kind == Kind::AuthResp && i.text == b"*" => !matches!(i.reply.class(), 4 | 5) || rec.faults > 0,
                _ => true,
            }
        }
        Res::Err(ErrK::Io(..)) => rec.w0 != rec.w1 || rec.faults > 0,
        Res::Err(_) => {
            let items = t.items(rec);
            // A go-ahead in spite of the refusal, or replies that never came
            items.iter().any(|(_, i)| (i.kind == Kind::Data && i.reply.class() == 3) || !got(i, rec)) || items.last().map(|(_, i)| i.to < rec.w1).unwrap_or(false)
        }
        _ => false,
    }
}
fn source_failed(t: &Trace, op: usize) -> bool {
    t.sources.get(op).and_then(|s| s.as_ref()).map(|s| s.failed).unwrap_or(false)
}
/// Its reader was interrupted once, which may also be no failure.
pub fn source_interrupted(t: &Trace, op: usize) -> bool {
    matches!(&t.sc.ops[op], Op::Send { source: Some(s), .. } if s.once && s.kind == std::io::ErrorKind::Interrupted)
}

pub fn compare(t: &Trace, rec: &OpRec, want: &Want, spoilt: bool, with_reply: bool) -> Result<(), String> {
    let faulty = t.pipe.io_errors > 0;
    match want {
        Want::Ok(reply) => match &rec.res {
            Res::Ok(Some(r)) if with_reply => {
                if *r == *reply {
                    Ok(())
                } else {
                    Err(format!("returned {r:?} instead of the reply {:?} {:?}", reply.code, reply.lines))
                }
            }
            Res::Ok(None) if !with_reply => Ok(()),
            r => Err(format!("the server confirmed it, but the result is {r:?}")),
        },
        Want::Refusal(reply) => {
            if refusal_eq(&rec.res, reply) {
                return Ok(());
            }
            // More was to be written when the transport failed.
            if t.pipe.write_errors > 0 && matches!(rec.res, Res::Err(ErrK::Io(..))) {
                return Ok(());
            }
            Err(format!("the first refusal was {} {:?}, but the result is {:?}", reply.code, reply.lines, rec.res))
        }
        Want::Error(why) => match &rec.res {
            Res::Err(_) if !is_reply_err(&rec.res) || *why == "authentication was cancelled" => Ok(()),
            r => Err(format!("{why}, but the result is {r:?}")),
        },
        Want::LostInAuth if faulty && matches!(rec.res, Res::Err(ErrK::Other(..))) => Ok(()),
        Want::Lost | Want::LostInAuth => match &rec.res {
            Res::Err(ErrK::Io(..)) if faulty => Ok(()),
            Res::Abandoned => Ok(()),
            // Unparsable replies come with the end of the connection.
            Res::Err(ErrK::Other(..)) if t.sc.plan.hostile.is_some() => Ok(()),
            r => Err(format!("the last reply is missing, but the result is {r:?}")),
        },
        Want::Silent => match &rec.res {
            Res::Err(ErrK::Io(..)) if faulty => Ok(()),
            Res::Abandoned => Ok(()),
            Res::Err(ErrK::Other(..)) if spoilt => Ok(()),
            Res::Err(ErrK::Other(..)) => Err(format!("refused to transmit anything though the connection is usable: {:?}", rec.res)),
            r => Err(format!("transmitted nothing, but the result is {r:?}")),
        },
    }
}

/// Results of all operations against the server's replies
pub fn results(ctx: &mut Ctx, t: &Trace) {
    let mut spoilt = false;
    for rec in &t.recs {
        if rec.res.is_broken() {
            continue;
        }
        if rec.res == Res::Abandoned {
            spoilt |= spoils(t, rec);
            continue;
        }
        let v = match rec.op {
            None => compare(t, rec, &want_setup(t, rec), false, false),
            Some(i) => match &t.sc.ops[i] {
                Op::Send { .. } => {
                    if source_failed(t, i) && !(rec.res.is_ok() && source_interrupted(t, i)) {
                        if matches!(rec.res, Res::Err(_)) {
                            Ok(())
                        } else {
                            Err(format!("the message could not be read, but the result is {:?}", rec.res))
                        }
                    } else {
                        compare(t, rec, &want_send(t, rec), spoilt, true)
                    }
                }
                Op::Auth { .. } => compare(t, rec, &want_auth(t, rec), spoilt, true),
                Op::TryLogin { mechs, .. } => {
                    let off = offered(t);
                    if !mechs.iter().any(|m| off.contains(m)) {
                        if rec.w0 == rec.w1 && (rec.res == Res::Ok(None) || matches!(rec.res, Res::Err(_))) {
                            Ok(())
                        } else {
                            Err(format!("no mechanism is offered, but {} bytes were written, result {:?}", rec.w1 - rec.w0, rec.res))
                        }
                    } else {
                        compare(t, rec, &want_auth(t, rec), spoilt, false)
                    }
                }
                Op::Quit => compare(t, rec, &want_simple(t, rec), spoilt, false),
                Op::Starttls => {
                    let off = ref_features(&t.sc.plan.ehlo.lines).starttls;
                    if !off {
                        if rec.w0 == rec.w1 && matches!(rec.res, Res::Err(_)) && !is_reply_err(&rec.res) {
                            Ok(())
                        } else {
                            Err(format!("STARTTLS is not offered, but {} bytes were written, result {:?}", rec.w1 - rec.w0, rec.res))
                        }
                    } else {
                        compare(t, rec, &want_simple(t, rec), spoilt, false)
                    }
                }
            },
        };
        if let Err(e) = v {
            ctx.fail(format!("operation {:?}: {e}", rec.op), || t.dump());
            return;
        }
        spoilt |= spoils(t, rec);
    }
}

/// Exactly the sends that returned success were delivered, once each, in order, unchanged.
pub fn deliveries(ctx: &mut Ctx, t: &Trace) {
    let mut used = vec![0usize; t.recs.len()];
    for d in &t.server.delivered {
        let at = t.server.items[d.item].from;
        let Some(k) = t.recs.iter().position(|r| r.op.is_some() && r.w0 <= at && at < r.w1) else {
            ctx.fail("a message was delivered that no send transmitted", || t.dump());
            return;
        };
        used[k] += 1;
        let rec = &t.recs[k];
        let Op::Send { from, to, content, .. } = &t.sc.ops[rec.op.unwrap()] else {
            ctx.fail("a message was delivered by an operation that is no send", || t.dump());
            return;
        };
        if used[k] > 1 {
            ctx.fail(format!("the message of operation {:?} was delivered twice", rec.op), || t.dump());
            return;
        }
        if d.from != from.clone().unwrap_or_default() || d.to != *to {
            ctx.fail(format!("operation {:?}: delivered from <{}> to {:?}", rec.op, d.from, d.to), || t.dump());
            return;
        }
        if !content_ok(content, &d.content) {
            ctx.fail(format!("operation {:?}: the delivered message is not the given one", rec.op), || t.dump());
            return;
        }
        let received = got(&t.server.items[d.item], rec);
        if !rec.res.is_ok() && rec.res != Res::Abandoned && (received || !matches!(rec.res, Res::Err(ErrK::Io(..)) | Res::Stall)) {
            ctx.fail(format!("operation {:?} delivered its message, but the result is {:?}", rec.op, rec.res), || t.dump());
            return;
        }
    }
    for (k, rec) in t.recs.iter().enumerate() {
        if let (Some(i), Res::Ok(_)) = (rec.op, &rec.res) {
            if matches!(t.sc.ops[i], Op::Send { .. }) && used[k] != 1 {
                ctx.fail(format!("operation {:?} returned success, but its message was not delivered", rec.op), || t.dump());
                return;
            }
        }
    }
}

/// Nothing a strict server objects to, and nothing after a refused message's go-ahead
pub fn dialogue(ctx: &mut Ctx, t: &Trace) {
    if let Some(c) = t.server.complaints.first() {
        ctx.fail(format!("the client broke the dialogue: {c}"), || t.dump());
        return;
    }
    if let Some((from, d)) = &t.server.open_data {
        // Who asked for this go-ahead?
        let rec = t.recs.iter().find(|r| r.w0 < *from && *from <= r.w1);
        if let Some(rec) = rec {
            if is_reply_err(&rec.res) && !d.is_empty() {
                ctx.fail(format!("after the refusal in operation {:?}, {} bytes were transmitted as message content", rec.op, d.len()), || t.dump());
            }
        }
        // Whatever follows in a later operation is taken as content.
        let last = t.recs.iter().filter(|r| r.w1 > r.w0).last();
        if let Some(last) = last {
            if last.w0 > *from || (last.w0 == *from && last.w1 > *from) {
                ctx.fail(format!("operation {:?} wrote while the server was waiting for another message's content", last.op), || t.dump());
            }
        }
    }
}

/// Whether each send is made of exactly the commands of its envelope
pub fn envelope(ctx: &mut Ctx, t: &Trace) {
    let mut failed_before = false;
    for rec in &t.recs {
        let Some(i) = rec.op else { continue };
        let Op::Send { from, to, .. } = &t.sc.ops[i] else { continue };
        let items = t.items(rec);
        let bad = |ctx: &mut Ctx, m: String| ctx.fail(format!("operation {i}: {m}"), || t.dump());
        let mut k = 0;
        let n_rset = items.iter().filter(|(_, x)| x.kind == Kind::Rset).count();
        if n_rset > 0 {
            if n_rset > 1 || items[0].1.kind != Kind::Rset {
                return bad(ctx, format!("{n_rset} RSET commands, or not in front of MAIL"));
            }
            if !failed_before {
                return bad(ctx, "RSET although no transaction failed before".into());
            }
            k = 1;
        }
        let mut want = vec![(Kind::Mail, format!("<{}>", from.clone().unwrap_or_default()))];
        want.extend(to.iter().map(|a| (Kind::Rcpt, format!("<{a}>"))));
        want.push((Kind::Data, String::new()));
        want.push((Kind::Fin, String::new()));
        let rest = &items[k..];
        for (j, (_, it)) in rest.iter().enumerate() {
            let Some((kind, path)) = want.get(j) else {
                return bad(ctx, format!("extra command {:?}", it.line()));
            };
            if it.kind != *kind {
                return bad(ctx, format!("{:?} {:?} where {:?} {} was expected", it.kind, it.line(), kind, path));
            }
            let line = it.line();
            let p = match kind {
                Kind::Mail => line.get(10..),
                Kind::Rcpt => line.get(8..),
                _ => continue,
            };
            let p = p.unwrap_or("");
            if !(p == path || (p.starts_with(path.as_str()) && p[path.len()..].starts_with(' '))) {
                return bad(ctx, format!("{line:?} does not name {path}"));
            }
        }
        if rec.res.is_ok() && rest.len() != want.len() {
            return bad(ctx, format!("success after {} of {} steps", rest.len(), want.len()));
        }
        // Bytes that are no complete line, or a second message
        if rec.res.is_ok() {
            if let Some((_, l)) = rest.last() {
                if l.to != rec.w1 {
                    return bad(ctx, format!("{} bytes follow the end of data", rec.w1 - l.to));
                }
            }
        }
        if !rec.res.is_ok() && !items.is_empty() {
            failed_before = true;
        }
    }
}

pub fn exposed_at(t: &Trace, off: usize) -> usize {
    let w = &t.pipe.writes;
    let k = w.partition_point(|e| e.off + e.len <= off);
    w.get(k).map(|e| e.exposed).unwrap_or(0)
}

/// Commands and replies: who waited for whom. Returns the number of commands written ahead of a reply.
pub fn order(ctx: &mut Ctx, t: &Trace) -> u64 {
    let pl = pipelined(t);
    let items = &t.server.items;
    let mut ahead = 0;
    for (k, it) in items.iter().enumerate() {
        if it.kind == Kind::Greeting {
            continue;
        }
        let seen = exposed_at(t, it.from);
        let prev = if k > 0 { items[k - 1].r_to } else { 0 };
        if seen >= prev {
            continue;
        }
        let in_tx = matches!(it.kind, Kind::Rcpt | Kind::Data);
        // Only a transaction's own commands may be written ahead.
        let same = t.recs.iter().any(|r| r.w0 <= it.from && it.from < r.w1 && items[..k].iter().rev().take_while(|p| p.r_to > seen).all(|p| p.from >= r.w0 && matches!(p.kind, Kind::Mail | Kind::Rcpt)));
        if pl && in_tx && same {
            ahead += 1;
            continue;
        }
        ctx.fail(
            format!("{:?} {:?} was written before the reply to {:?} was received (pipelining {})", it.kind, it.line().chars().take(60).collect::<String>(), items[k - 1].line().chars().take(60).collect::<String>(), pl),
            || t.dump(),
        );
        return ahead;
    }
    // Content that is not complete
    if let Some((from, d)) = &t.server.open_data {
        if !d.is_empty() {
            if let Some(p) = items.iter().rev().find(|i| i.kind == Kind::Data) {
                if exposed_at(t, *from) < p.r_to {
                    ctx.fail("message content was written before the server asked for it", || t.dump());
                }
            }
        }
    }
    ahead
}

/// All of the above
pub fn history(ctx: &mut Ctx, t: &Trace) {
    if !ctx.sane(t) {
        return;
    }
    dialogue(ctx, t);
    results(ctx, t);
    deliveries(ctx, t);
}
