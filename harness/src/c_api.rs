//! Parsing and rendering: C10, C14, C15, C26
use crate::c_proto::{c11_judge, carrier};
use crate::ctx::Ctx;
use crate::dict;
use crate::gen::*;
use crate::net::*;
use crate::oracle::*;
use crate::rng::{hash_bytes, Rng};
use crate::server::*;
use crate::session::*;
use crate::{Check, Workload};
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::commands::*;
use async_smtp::extension::{ClientId, Extension, MailBodyParameter, MailParameter, RcptParameter};
use async_smtp::response::Response;
use async_smtp::util::XText;
use async_smtp::{EmailAddress, Envelope};

fn w(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Workload {
    Workload { name, quick, thorough, exhaustive: false, f }
}
fn wx(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> Workload {
    Workload { name, quick, thorough, exhaustive: true, f }
}

const SCALARS: u64 = 0x11_0000 / 4096; // 272 blocks

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C10",
            rule: "reply texts parsed by the client and by an independent reference parser: every code and separator, every string of a small alphabet up to a length, well-formed and mutated replies; sessions receiving well-formed and malformed replies at every step; distinct by input",
            workloads: vec![
                wx("every-code", 1000, 1000, c10_codes),
                wx("short-strings", EXH10_QUICK, EXH10_THOROUGH, c10_short),
                w("well-formed", 90_000, 2_000_000, c10_well),
                w("mutated", 180_000, 3_000_000, c10_mutated),
                w("in-sessions", 18_000, 300_000, c10_sessions),
                w("long-in-sessions", 240, 3000, c10_long),
                w("malformed-in-sessions", 24_000, 400_000, c10_malformed),
                w("not-text-in-sessions", 9_000, 150_000, c10_not_text),
            ],
            floors: vec![("well-formed replies", 40_000), ("malformed replies", 100_000), ("replies received in sessions", 20_000), ("malformed replies in sessions", 5000), ("bytes in long replies", 50_000_000)],
        },
        Check {
            id: "C14",
            rule: "every Unicode scalar value alone and inside an address (exhaustive), random strings, envelopes, and sessions with arbitrary valid addresses; distinct by address",
            workloads: vec![wx("every-character", SCALARS, SCALARS, c14_chars), wx("short-addresses", 128 * 128, 128 * 128, c14_pairs), w("random", 180_000, 3_000_000, c14_random), w("on-the-wire", 15_000, 250_000, c14_wire)],
            floors: vec![("addresses accepted", 50_000), ("addresses rejected", 1_000_000), ("addresses on the wire", 8000)],
        },
        Check {
            id: "C15",
            rule: "every Unicode scalar value alone and between others (exhaustive) and random strings, rendered and decoded by a strict decoder; distinct by string",
            workloads: vec![wx("every-character", SCALARS, SCALARS, c15_chars), wx("short-strings", 128 * 128, 128 * 128, c15_pairs), w("random", 180_000, 3_000_000, c15_random)],
            floors: vec![("values decoded", 1_000_000), ("characters escaped", 20_000)],
        },
        Check {
            id: "C26",
            rule: "every command with random arguments against an independent rendering, and sessions whose lines are compared with the rendered commands; distinct by rendered line",
            workloads: vec![w("rendered", 240_000, 4_000_000, c26_render), w("transmitted", 15_000, 250_000, c26_wire)],
            floors: vec![("commands rendered", 60_000), ("lines compared with commands", 10_000)],
        },
    ]
}

// ---- C10

#[derive(Debug, PartialEq)]
enum Ref {
    Complete { code: String, lines: Vec<String>, len: usize },
    Incomplete,
    Bad,
}
/// RFC 5321, section 4.2, byte by byte
fn ref_parse(s: &str) -> Ref {
    let b = s.as_bytes();
    let mut i = 0;
    let mut code: Option<&str> = None;
    let mut lines = vec![];
    loop {
        for (k, (lo, hi)) in [(b'2', b'5'), (b'0', b'5'), (b'0', b'9')].iter().enumerate() {
            match b.get(i + k) {
                None => return Ref::Incomplete,
                Some(c) if c >= lo && c <= hi => {}
                Some(_) => return Ref::Bad,
            }
        }
        let c = &s[i..i + 3];
        // Different codes are an error at the latest when the reply is complete.
        let differs = code.map(|x| x != c).unwrap_or(false);
        if differs {
            return Ref::Bad;
        }
        code = Some(c);
        i += 3;
        let (last, from) = match b.get(i) {
            None => return Ref::Incomplete,
            Some(b'-') => (false, i + 1),
            Some(b' ') => (true, i + 1),
            Some(b'\r') => (true, i),
            Some(_) => return Ref::Bad,
        };
        let Some(n) = s[from..].find("\r\n") else {
            return if from == i && b.len() > i + 1 { Ref::Bad } else { Ref::Incomplete };
        };
        if from == i && n != 0 {
            return Ref::Bad;
        }
        lines.push(s[from..from + n].to_string());
        i = from + n + 2;
        if last {
            return Ref::Complete { code: c.to_string(), lines, len: i };
        }
    }
}
fn has_odd_breaks(s: &str) -> bool {
    let t = s.replace("\r\n", "");
    t.contains('\r') || t.contains('\n')
}
fn c10_one(ctx: &mut Ctx, s: &str) {
    ctx.st.evals += 1;
    let r = ref_parse(s);
    let got = s.parse::<Response>();
    match (&r, &got) {
        (Ref::Complete { code, lines, .. }, Ok(x)) => {
            ctx.count("well-formed replies", 1);
            let c = x.code.to_string();
            if c != *code || x.message != *lines {
                ctx.fail(format!("{s:?} was understood as {c} {:?}", x.message), String::new);
            }
            let n = code.parse::<u16>().unwrap_or(0);
            if !x.has_code(n) || x.has_code(n + 1) || x.is_positive() != (n < 400) {
                ctx.fail(format!("{s:?}: has_code or is_positive disagree with the code"), String::new);
            }
            if x.first_line() != lines.first().map(String::as_str) {
                ctx.fail(format!("{s:?}: first_line is {:?}", x.first_line()), String::new);
            }
        }
        // A bare CR or LF in the text, or a line longer than RFC 5321 permits: accepted as text or not at all
        (Ref::Complete { .. }, Err(_)) if has_odd_breaks(s) || s.split("\r\n").any(|l| l.len() > 510) => {}
        (Ref::Complete { .. }, Err(e)) => ctx.fail(format!("the well-formed reply {s:?} was not accepted: {e}"), String::new),
        (_, Err(_)) => ctx.count("malformed replies", 1),
        (_, Ok(x)) => ctx.fail(format!("the malformed reply {s:?} was understood as {} {:?}", x.code, x.message), String::new),
    }
}
fn c10_codes(ctx: &mut Ctx) {
    let n = ctx.idx;
    for sep in ["", " ", "-", ".", "\t", "  ", "a", "0", "\r", "\u{a0}"] {
        for text in ["", "ok", " ", "250 x", "-", "\u{e4}"] {
            for end in ["\r\n", "", "\n", "\r", "\r\n\r\n"] {
                let s = format!("{n:03}{sep}{text}{end}");
                c10_one(ctx, &s);
                let s = format!("{n:03}-x\r\n{n:03}{sep}{text}{end}");
                c10_one(ctx, &s);
                ctx.st.enumerated += 2;
            }
        }
    }
    for other in 0..100u64 {
        let m = (n + 1 + other * 9) % 1000;
        c10_one(ctx, &format!("{n:03}-x\r\n{m:03} y\r\n"));
        c10_one(ctx, &format!("{n:03}-x\r\n{m:03}-y\r\n{n:03} z\r\n"));
        ctx.st.enumerated += 2;
    }
}
const A10: [char; 8] = ['2', '5', '0', '-', ' ', '\r', '\n', 'a'];
const EXH10_QUICK: u64 = 4 * 64; // 4 prefixes x 64 blocks of the strings of length <= 6
const EXH10_THOROUGH: u64 = 4 * 64 * 8; // length <= 7
fn c10_short(ctx: &mut Ctx) {
    let blocks = if ctx.thorough { 64 * 8 } else { 64 };
    let digits = if ctx.thorough { 7 } else { 6 };
    let prefix = ["", "250", "250-a\r\n", "250-\r\n25"][(ctx.idx / blocks) as usize];
    let block = ctx.idx % blocks;
    for k in 0..4096u64 {
        let mut n = block * 4096 + k;
        let mut s = String::from(prefix);
        for _ in 0..digits {
            s.push(A10[(n % 8) as usize]);
            n /= 8;
        }
        // Shorter strings are those without their trailing '2's
        c10_one(ctx, &s);
        ctx.st.enumerated += 1;
        if s.ends_with('2') {
            let t = s.trim_end_matches('2').to_string();
            c10_one(ctx, &t);
        }
        if ctx.failed() {
            return;
        }
    }
}
fn well(r: &mut Rng) -> Reply {
    let class = *r.pick(&[2, 3, 4, 5]);
    let code = class * 100 + r.below(60) as u16;
    let n = if r.below(20) == 0 { r.range(1, 60) } else { r.range(1, 5) };
    let mut l: Vec<String> = (0..n).map(|_| text(r)).collect();
    if r.below(6) == 0 {
        // Up to the longest line there may be, and longer
        let len = *r.pick(&[500, 505, 506, 506, 507, 600, 1000, 5000]);
        let c = *r.pick(&['x', ' ', '-', '2']);
        l[r.below(n)] = std::iter::repeat(c).take(len).collect();
    }
    if r.below(4) == 0 {
        Reply::bare(code, l)
    } else {
        Reply::new(code, l)
    }
}
fn c10_well(ctx: &mut Ctx) {
    let r = well(&mut ctx.rng);
    ctx.shape(hash_bytes(&r.raw));
    let s = String::from_utf8(r.raw.clone()).expect("utf8");
    ctx.sample(|| format!("{s:?}"));
    match ref_parse(&s) {
        Ref::Complete { lines, len, .. } if lines == r.lines && len == s.len() => {}
        x => ctx.fail(format!("reference parser: {x:?} for {s:?}"), String::new),
    }
    c10_one(ctx, &s);
    // No part of it is a reply.
    let mut n = ctx.rng.below(s.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    if s[..n].parse::<Response>().is_ok() {
        ctx.fail(format!("a part of a reply was understood as a reply: {:?}", &s[..n]), String::new);
    }
}
fn malform(r: &mut Rng) -> String {
    if r.below(40) == 0 {
        // One line among many has another code
        let n = if r.bool() { r.range(2, 40) } else { dict::number(r, 300).unwrap_or(100).max(2) + r.below(30) };
        let code = reply_class(r, 2, "").code;
        let other = loop {
            let class = *r.pick(&[2, 3, 4, 5]);
            let c = reply_class(r, class, "").code;
            if c != code {
                break c;
            }
        };
        let odd = r.below(n);
        return (0..n).map(|k| format!("{}{}{}\r\n", if k == odd { other } else { code }, if k + 1 == n { " " } else { "-" }, text(r))).collect();
    }
    let x = well(r);
    let mut v: Vec<char> = String::from_utf8(x.raw).expect("utf8").chars().collect();
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            break;
        }
        // Mostly at the structure: codes, separators, line ends
        let mut i = r.below(v.len());
        if r.below(4) != 0 {
            let starts: Vec<usize> = std::iter::once(0).chain(v.windows(2).enumerate().filter(|(_, x)| *x == ['\r', '\n']).map(|(k, _)| k + 2)).collect();
            i = (*r.pick(&starts) + r.below(5)).saturating_sub(r.below(3)).min(v.len() - 1);
        }
        match r.below(7) {
            0 => {
                v.remove(i);
            }
            6 => {
                // A line end of another kind
                let ends: Vec<usize> = v.windows(2).enumerate().filter(|(_, x)| *x == ['\r', '\n']).map(|(k, _)| k).collect();
                if let Some(&e) = ends.get(r.below(ends.len())) {
                    match r.below(3) {
                        0 => {
                            v.remove(e);
                        }
                        1 => {
                            v.remove(e + 1);
                        }
                        _ => v.swap(e, e + 1),
                    }
                }
            }
            1 => v[i] = *r.pick(&['0', '1', '2', '3', '4', '5', '6', '9', ' ', '-', 'x', '\u{ff12}', '\u{0662}']),
            2 => v.insert(i, *r.pick(&['0', '2', ' ', '-', '\r', '\n', 'x', '\0'])),
            3 => v.truncate(i),
            4 => v[i] = *r.pick(&['\r', '\n']),
            _ => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
        }
    }
    v.into_iter().collect()
}
fn c10_mutated(ctx: &mut Ctx) {
    let s = malform(&mut ctx.rng);
    ctx.shape(hash_bytes(s.as_bytes()));
    c10_one(ctx, &s);
}
/// Well-formed replies at every step: results, and the position in the stream after each operation
fn c10_sessions(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.starttls = true;
    o.refuse = 120;
    let sc = scenario(&mut ctx.rng, &o);
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    results(ctx, &t);
    for rec in &t.recs {
        let last = match rec.op {
            None => t.server.items.iter().filter(|i| matches!(i.kind, Kind::Greeting | Kind::Ehlo)).last().map(|i| i.r_to),
            Some(_) => t.items(rec).last().map(|x| x.1.r_to),
        };
        if let Some(l) = last {
            if rec.r1 != l {
                ctx.fail(format!("operation {:?} read up to byte {} though its last reply ends at {l}", rec.op, rec.r1), || t.dump());
            }
        }
    }
    ctx.count("replies received in sessions", t.server.items.len() as u64);
}
/// Replies from ten kilobytes to some megabytes
fn c10_long(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (n, len) = match r.below(4) {
        0 => (1, r.range(10_000, 3_000_000)),
        1 => (r.range(2, 6), r.range(10_000, 700_000)),
        2 => (r.range(10, 60), r.range(3000, 40_000)),
        _ => (r.range(200, 900), r.range(20, 700)),
    };
    let unit = *r.pick(&["x", " 250 ok", "-", "\u{e4}", "\u{20ac}x", "250-"]);
    let mut l: Vec<String> = (0..n).map(|k| format!("{k} {}", unit.repeat(1 + r.below(len) / unit.len()))).collect();
    let at = r.below(n);
    l[at].push_str("the end");
    let class = *r.pick(&[2, 3, 4, 5, 5]);
    let rep = reply_class(r, class, "");
    let rep = if r.below(6) == 0 { Reply::bare(rep.code, l) } else { Reply::new(rep.code, l) };
    let s = String::from_utf8(rep.raw.clone()).expect("utf8");
    let which = ctx.idx % 22;
    let (mut sc, at) = carrier(r, which, rep.clone());
    coarse(r, &mut sc.knobs);
    if n < 70 {
        c10_one(ctx, &s);
    }
    let t = run(sc);
    ctx.observe(&t);
    ctx.count("bytes in long replies", rep.raw.len() as u64);
    if !ctx.sane(&t) {
        return;
    }
    if let Some(rec) = t.recs.iter().find(|x| x.op == at) {
        if matches!(rec.res, Res::Err(ErrK::Io(..))) {
            ctx.fail(format!("operation {at:?}: a reply of {} lines and {} bytes led to {:?}", rep.lines.len(), rep.raw.len(), rec.res), String::new);
        }
    }
    c11_judge(ctx, &rep, at, &t);
}
fn c10_malformed(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let s = loop {
        let s = malform(r);
        if !matches!(ref_parse(&s), Ref::Complete { .. }) {
            break s;
        }
    };
    c10_no_reply(ctx, s.as_bytes());
}
/// Well-formed apart from bytes which are not UTF-8
fn c10_not_text(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut v = well(r).raw;
    let from: Vec<usize> = v.windows(2).enumerate().filter(|(_, x)| *x == b"\r\n").map(|(k, _)| k).collect();
    // In front of a line end: part of that line's text (or of its code, which is as bad)
    let bad: &[u8] = r.pick(&[&b"\xff"[..], b"\xfe\xfd", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\x80", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80"]);
    let at = *r.pick(&from);
    v.splice(at..at, bad.iter().copied());
    c10_no_reply(ctx, &v);
}
/// These bytes, sent where a reply is expected, are no reply.
fn c10_no_reply(ctx: &mut Ctx, s: &[u8]) {
    let mut rep = Reply::raw(s);
    rep.close = true;
    let (sc, at) = carrier(&mut ctx.rng, ctx.idx % 22, rep);
    let t = run(sc);
    ctx.observe(&t);
    ctx.shape(hash_bytes(s));
    if !ctx.sane(&t) {
        return;
    }
    ctx.count("malformed replies in sessions", 1);
    let Some(rec) = t.recs.iter().find(|x| x.op == at) else { return };
    if rec.res.is_ok() || is_reply_err(&rec.res) {
        // A forced reply caused by the missing acceptance is a reply of its own.
        let forced = t.items(rec).iter().any(|(_, i)| i.forced && refusal_eq(&rec.res, &i.reply));
        if !forced {
            ctx.fail(format!("operation {at:?}: the malformed reply \"{}\" led to {:?}", s.escape_ascii(), rec.res), || t.dump());
        }
    }
}

// ---- C14

fn valid(s: &str) -> bool {
    s.bytes().all(|b| (0x21..=0x7e).contains(&b) && b != b'<' && b != b'>')
}
fn c14_one(ctx: &mut Ctx, s: &str) {
    let want = valid(s);
    let a = EmailAddress::new(s.to_string());
    let b = s.parse::<EmailAddress>();
    ctx.count(if want { "addresses accepted" } else { "addresses rejected" }, 1);
    if a.is_ok() != want || b.is_ok() != want {
        ctx.fail(format!("the address {s:?} is {}valid, but new: {:?}, parse: {:?}", if want { "" } else { "not " }, a.is_ok(), b.is_ok()), String::new);
        return;
    }
    if let (Ok(a), Ok(b)) = (a, b) {
        let os: &std::ffi::OsStr = a.as_ref();
        let st: &str = b.as_ref();
        if a.to_string() != s || b.to_string() != s || st != s || os != s {
            ctx.fail(format!("the address {s:?} became {a} / {b}"), String::new);
        }
    }
}
fn c14_chars(ctx: &mut Ctx) {
    for k in 0..4096 {
        let Some(c) = char::from_u32((ctx.idx * 4096 + k) as u32) else { continue };
        ctx.st.evals += 1;
        ctx.st.enumerated += 1;
        c14_one(ctx, &c.to_string());
        c14_one(ctx, &format!("a{c}b@example.org"));
        c14_one(ctx, &format!("{c}a@example.org"));
        c14_one(ctx, &format!("a@example.org{c}"));
    }
}
fn c14_pairs(ctx: &mut Ctx) {
    let (a, b) = ((ctx.idx / 128) as u8 as char, (ctx.idx % 128) as u8 as char);
    ctx.st.evals += 1;
    ctx.st.enumerated += 1;
    c14_one(ctx, &format!("{a}{b}"));
    c14_one(ctx, &format!("x{a}{b}"));
    c14_one(ctx, &format!("{a}x{b}"));
    c14_one(ctx, &format!("u@{a}{b}x"));
}
fn c14_random(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut s = match r.below(5) {
        4 => {
            // As found in other places than SMTP
            let a = if r.below(4) == 0 { String::new() } else { addr(r) };
            match r.below(10) {
                0 => format!("{}{a}", ["mailto:", "MailTo:", "smtp:", "SMTP:", "rfc822;", "acct:", "//", "\u{feff}"][r.below(8)]),
                1 => format!("<{a}>"),
                2 => format!("Name <{a}>"),
                3 => format!("\"Name\"<{a}>"),
                4 => format!("{a}{}", [",", ";", ".", ":", "?subject=x", "(comment)", "\"", "'", "\\", "#"][r.below(10)]),
                5 => format!("{}{a}{}", [" ", "\t", "\r\n", "\n", "\0"][r.below(5)], ["", " ", "\r\n"][r.below(3)]),
                6 => format!("'{a}'"),
                7 => format!("({a})"),
                8 => a.replace('@', "%40"),
                _ => format!("{a}{}", [" ", "\t", "\r\n", "\n", "\0", "\u{200b}"][r.below(6)]),
            }
        }
        0 => any_string(r),
        1 => format!("a@b{}", ["\r\nRCPT TO:<evil@x>", "\nDATA", "> SIZE=1", " BODY=8BITMIME", "\u{2028}", "\u{85}", "\u{a0}", "\t", "\u{b}", "\u{c}", "\u{1f}", "\u{7f}", "\u{80}", "\u{ff1c}", ""][r.below(15)]),
        _ => addr(r),
    };
    if r.below(4) == 0 {
        let mut i = r.below(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.insert(i, char::from_u32(r.below(0x180) as u32).unwrap_or('x'));
    }
    if r.below(20) == 0 {
        // One bad character anywhere in a long address
        let len = *r.pick(&[40, 64, 128, 255, 256, 320, 512, 1000, 2000]);
        let mut v: Vec<char> = (0..len).map(|_| addr_char(r)).collect();
        if r.below(4) != 0 {
            let i = if r.bool() { len - 1 - r.below(3) } else { r.below(len) };
            v[i] = *r.pick(&['\r', '\n', ' ', '<', '>', '\0', '\x7f', '\u{80}', 'é', '\u{1F600}', '\t']);
        }
        s = v.into_iter().collect();
    }
    ctx.st.evals += 1;
    ctx.shape(hash_bytes(s.as_bytes()));
    c14_one(ctx, &s);
    let r = &mut ctx.rng;
    let from: Option<EmailAddress> = sender(r).and_then(|x| x.parse().ok());
    let n = r.below(4);
    let to: Vec<EmailAddress> = (0..n).filter_map(|_| addr(r).parse().ok()).collect();
    match Envelope::new(from.clone(), to.clone()) {
        Ok(e) => {
            if to.is_empty() {
                ctx.fail("an envelope without a recipient was built", || format!("{e:?}"));
            } else if e.from() != from.as_ref() || e.to() != to {
                ctx.fail("the envelope differs from what it was built from", || format!("{e:?}"));
            }
        }
        Err(e) => {
            if !to.is_empty() {
                ctx.fail(format!("an envelope with {} recipients was not built: {e}", to.len()), || format!("{to:?}"));
            }
        }
    }
}
fn c14_wire(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut o = GenOpts::sends(2);
    o.atoms = 2;
    let mut sc = scenario(r, &o);
    for op in sc.ops.iter_mut() {
        if let Op::Send { from, to, .. } = op {
            let odd = |r: &mut Rng| match r.below(4) {
                0 => (0..r.range(0, 30)).map(|_| addr_char(r)).collect(),
                1 => (0..r.range(500, 3000)).map(|_| addr_char(r)).collect(),
                2 => ["a,b@c", "a;b@c", "@a,@b:c@d", "\"a\\\"b\"@c", "a@b:25", "SIZE=1", "-", "a@[IPv6:::1]", "%@%", "a\\@b"][r.below(10)].to_string(),
                _ => addr(r),
            };
            *from = Some(odd(r));
            for x in to.iter_mut() {
                *x = odd(r);
            }
        }
    }
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    dialogue(ctx, &t);
    envelope(ctx, &t);
    deliveries(ctx, &t);
    for rec in &t.recs {
        if !rec.res.is_ok() {
            ctx.fail(format!("operation {:?} of an accepting server returned {:?}", rec.op, rec.res), || t.dump());
        }
    }
    ctx.count("addresses on the wire", t.server.items.iter().filter(|i| matches!(i.kind, Kind::Mail | Kind::Rcpt)).count() as u64);
}

// ---- C15

fn ref_xtext(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if (c as u32) <= 0x20 || c as u32 == 0x7f || c == '+' || c == '=' {
            o.push_str(&format!("+{:02X}", c as u32));
        } else {
            o.push(c);
        }
    }
    o
}
fn un_xtext(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '+' {
            let h: String = it.by_ref().take(2).collect();
            if h.len() != 2 || !h.bytes().all(|b| b.is_ascii_digit() || (b'A'..=b'F').contains(&b)) {
                return None;
            }
            o.push(u8::from_str_radix(&h, 16).ok()? as char);
        } else if (c as u32) <= 0x20 || c as u32 == 0x7f || c == '=' {
            return None;
        } else {
            o.push(c);
        }
    }
    Some(o)
}
fn c15_one(ctx: &mut Ctx, s: &str) {
    ctx.count("values decoded", 1);
    let x = XText(s).to_string();
    let esc = x.matches('+').count() as u64;
    ctx.count("characters escaped", esc);
    if un_xtext(&x).as_deref() != Some(s) {
        ctx.fail(format!("{s:?} was written as {x:?}, which decodes to {:?}", un_xtext(&x)), String::new);
        return;
    }
    if x != ref_xtext(s) {
        ctx.fail(format!("{s:?} was written as {x:?} instead of {:?}", ref_xtext(s)), String::new);
        return;
    }
    let m = MailParameter::Other { keyword: "KEY".into(), value: Some(s.to_string()) }.to_string();
    let r = RcptParameter::Other { keyword: "KEY".into(), value: Some(s.to_string()) }.to_string();
    let want = format!("KEY={}", ref_xtext(s));
    if m != want || r != want {
        ctx.fail(format!("the parameter value {s:?} was written as {m:?} / {r:?}"), String::new);
    }
}
fn c15_chars(ctx: &mut Ctx) {
    for k in 0..4096 {
        let Some(c) = char::from_u32((ctx.idx * 4096 + k) as u32) else { continue };
        ctx.st.evals += 1;
        ctx.st.enumerated += 1;
        c15_one(ctx, &c.to_string());
        c15_one(ctx, &format!("a{c}b"));
        c15_one(ctx, &format!("{c}{c}A"));
    }
}
fn c15_pairs(ctx: &mut Ctx) {
    let (a, b) = ((ctx.idx / 128) as u8 as char, (ctx.idx % 128) as u8 as char);
    ctx.st.evals += 1;
    ctx.st.enumerated += 1;
    c15_one(ctx, &format!("{a}{b}"));
    c15_one(ctx, &format!("{a}0{b}F"));
    c15_one(ctx, &format!("\u{e9}{a}{b}\u{1F600}"));
}
fn c15_random(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut s = any_string(r);
    for _ in 0..r.below(8) {
        let c = *r.pick(&['+', '=', ' ', '\0', '\t', '\r', '\n', '\x7f', '\x1f', '!', '~', 'é', '\u{80}', '\u{10FFFF}', '2', 'B', 'b', '\x10', '\x0f']);
        let mut i = r.below(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.insert(i, c);
    }
    ctx.st.evals += 1;
    ctx.shape(hash_bytes(s.as_bytes()));
    ctx.sample(|| format!("{s:?} -> {:?}", XText(&s).to_string()));
    c15_one(ctx, &s);
}

// ---- C26

fn arg(r: &mut Rng) -> String {
    let mut s = any_string(r);
    s.retain(|c| c != '\r' && c != '\n');
    s
}
fn ref_client(c: &ClientId) -> String {
    match c {
        ClientId::Domain(d) => d.clone(),
        ClientId::Ipv4(a) => format!("[{a}]"),
        ClientId::Ipv6(a) => format!("[IPv6:{a}]"),
    }
}
fn keyword(r: &mut Rng) -> String {
    ["SIZE", "AUTH", "X-1", "mt-priority", "RET", "ENVID"][r.below(6)].into()
}
fn mail_param(r: &mut Rng) -> (MailParameter, String) {
    match r.below(6) {
        0 => (MailParameter::Body(MailBodyParameter::SevenBit), "BODY=7BIT".into()),
        1 => (MailParameter::Body(MailBodyParameter::EightBitMime), "BODY=8BITMIME".into()),
        2 => {
            let n = if r.bool() { r.below(100_000) } else { r.next() as usize };
            (MailParameter::Size(n), format!("SIZE={n}"))
        }
        3 => (MailParameter::SmtpUtfEight, "SMTPUTF8".into()),
        4 => {
            let k = keyword(r);
            (MailParameter::Other { keyword: k.clone(), value: None }, k)
        }
        _ => {
            let (k, v) = (keyword(r), any_string(r));
            (MailParameter::Other { keyword: k.clone(), value: Some(v.clone()) }, format!("{k}={}", ref_xtext(&v)))
        }
    }
}
fn rcpt_param(r: &mut Rng) -> (RcptParameter, String) {
    let k = keyword(r);
    if r.bool() {
        (RcptParameter::Other { keyword: k.clone(), value: None }, k)
    } else {
        let v = any_string(r);
        (RcptParameter::Other { keyword: k.clone(), value: Some(v.clone()) }, format!("{k}={}", ref_xtext(&v)))
    }
}
fn c26_render(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (got, want): (String, String) = match r.below(16) {
        14 => match r.below(3) {
            0 => {
                let m = *r.pick(&MECHS);
                (Extension::Authentication(m).to_string(), format!("AUTH {}", ["PLAIN", "LOGIN", "XOAUTH2"][MECHS.iter().position(|x| *x == m).unwrap_or(0)]))
            }
            1 => {
                let (e, w) = *r.pick(&[(Extension::Pipelining, "PIPELINING"), (Extension::EightBitMime, "8BITMIME"), (Extension::SmtpUtfEight, "SMTPUTF8"), (Extension::StartTls, "STARTTLS")]);
                (e.to_string(), w.into())
            }
            _ => (EhloCommand::new(ClientId::hostname()).to_string(), format!("EHLO {}\r\n", own_name())),
        },
        0 => {
            let c = hello(r).unwrap_or_default();
            (EhloCommand::new(c.clone()).to_string(), format!("EHLO {}\r\n", ref_client(&c)))
        }
        1 => {
            let d = arg(r);
            (EhloCommand::new(ClientId::new(d.clone())).to_string(), format!("EHLO {d}\r\n"))
        }
        2 => {
            let c = hello(r).unwrap_or_default();
            (c.to_string(), ref_client(&c))
        }
        3 | 4 => {
            let s = sender(r);
            let n = r.below(4);
            let p: Vec<_> = (0..n).map(|_| mail_param(r)).collect();
            let e = s.as_ref().map(|x| x.parse::<EmailAddress>().expect("valid"));
            let tail: String = p.iter().map(|x| format!(" {}", x.1)).collect();
            (MailCommand::new(e, p.into_iter().map(|x| x.0).collect()).to_string(), format!("MAIL FROM:<{}>{tail}\r\n", s.unwrap_or_default()))
        }
        5 | 6 => {
            let a = addr(r);
            let n = r.below(4);
            let p: Vec<_> = (0..n).map(|_| rcpt_param(r)).collect();
            let tail: String = p.iter().map(|x| format!(" {}", x.1)).collect();
            (RcptCommand::new(a.parse().expect("valid"), p.into_iter().map(|x| x.0).collect()).to_string(), format!("RCPT TO:<{a}>{tail}\r\n"))
        }
        7 => match r.below(5) {
            0 => (DataCommand.to_string(), "DATA\r\n".into()),
            1 => (QuitCommand.to_string(), "QUIT\r\n".into()),
            2 => (NoopCommand.to_string(), "NOOP\r\n".into()),
            3 => (RsetCommand.to_string(), "RSET\r\n".into()),
            _ => (StarttlsCommand.to_string(), "STARTTLS\r\n".into()),
        },
        8 => {
            if r.bool() {
                let a = arg(r);
                (HelpCommand::new(Some(a.clone())).to_string(), format!("HELP {a}\r\n"))
            } else {
                (HelpCommand::new(None).to_string(), "HELP\r\n".into())
            }
        }
        9 => {
            let a = arg(r);
            (VrfyCommand::new(a.clone()).to_string(), format!("VRFY {a}\r\n"))
        }
        10 => {
            let a = arg(r);
            (ExpnCommand::new(a.clone()).to_string(), format!("EXPN {a}\r\n"))
        }
        11 => {
            let (u, s) = (any_string(r), any_string(r));
            let w = format!("AUTH PLAIN {}\r\n", b64(format!("\0{u}\0{s}").as_bytes()));
            (AuthCommand::new(Mechanism::Plain, Credentials::new(u, s), None).map(|c| c.to_string()).unwrap_or_default(), w)
        }
        12 => {
            let (u, s) = (any_string(r), any_string(r));
            let w = format!("AUTH XOAUTH2 {}\r\n", b64(format!("user={u}\x01auth=Bearer {s}\x01\x01").as_bytes()));
            (AuthCommand::new(Mechanism::Xoauth2, Credentials::new(u, s), None).map(|c| c.to_string()).unwrap_or_default(), w)
        }
        13 => {
            let (u, s) = (any_string(r), any_string(r));
            (AuthCommand::new(Mechanism::Login, Credentials::new(u, s), None).map(|c| c.to_string()).unwrap_or_default(), "AUTH LOGIN\r\n".into())
        }
        _ => {
            let (u, s) = (any_string(r), any_string(r));
            let (p, v) = if r.bool() { (*r.pick(&USER_PROMPTS), u.clone()) } else { (*r.pick(&PASS_PROMPTS), s.clone()) };
            let resp: Response = Reply::one(334, &b64(p.as_bytes())).raw.iter().map(|b| *b as char).collect::<String>().parse().expect("challenge");
            (AuthCommand::new_from_response(Mechanism::Login, Credentials::new(u, s), &resp).map(|c| c.to_string()).unwrap_or_default(), format!("{}\r\n", b64(v.as_bytes())))
        }
    };
    ctx.st.evals += 1;
    ctx.count("commands rendered", 1);
    ctx.shape(hash_bytes(got.as_bytes()));
    ctx.sample(|| format!("{got:?}"));
    if got != want {
        ctx.fail(format!("rendered as {got:?} instead of {want:?}"), String::new);
    }
}
/// The name of this machine
fn own_name() -> String {
    #[cfg(not(miri))]
    {
        let mut b = [0u8; 300];
        let ok = unsafe { libc::gethostname(b.as_mut_ptr() as *mut libc::c_char, b.len()) } == 0;
        let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
        if ok {
            if let Ok(s) = std::str::from_utf8(&b[..n]) {
                return s.to_string();
            }
        }
    }
    "localhost".to_string()
}
fn c26_wire(ctx: &mut Ctx) {
    let mut o = GenOpts::history(4);
    o.starttls = true;
    let sc = scenario(&mut ctx.rng, &o);
    let cfg = sc.cfg.clone();
    let f = ref_features(&sc.plan.ehlo.lines);
    let t = run(sc);
    ctx.observe(&t);
    if !ctx.sane(&t) {
        return;
    }
    let mut n = 0;
    for rec in &t.recs {
        let op = rec.op.map(|i| &t.sc.ops[i]);
        let mut rc = 0;
        for (k, it) in t.items(rec) {
            let line = format!("{}\r\n", it.line());
            let want = match (it.kind, op) {
                (Kind::Ehlo, _) => EhloCommand::new(cfg.hello.clone().unwrap_or_default()).to_string(),
                (Kind::Mail, Some(Op::Send { from, .. })) => {
                    let mut p = vec![];
                    if f.eightbit {
                        p.push(MailParameter::Body(MailBodyParameter::EightBitMime));
                    }
                    if f.utf8 && cfg.utf8 == Some(true) {
                        p.push(MailParameter::SmtpUtfEight);
                    }
                    let mut q = p.clone();
                    q.reverse();
                    let e = from.as_ref().map(|x| x.parse::<EmailAddress>().expect("valid"));
                    let a = MailCommand::new(e.clone(), p).to_string();
                    let b = MailCommand::new(e, q).to_string();
                    if line == b {
                        b
                    } else {
                        a
                    }
                }
                (Kind::Rcpt, Some(Op::Send { to, .. })) => {
                    rc += 1;
                    match to.get(rc - 1) {
                        Some(a) => RcptCommand::new(a.parse().expect("valid"), vec![]).to_string(),
                        None => "(no more recipients)".into(),
                    }
                }
                (Kind::Data, _) => DataCommand.to_string(),
                (Kind::Rset, _) => RsetCommand.to_string(),
                (Kind::Quit, _) => QuitCommand.to_string(),
                (Kind::Starttls, _) => StarttlsCommand.to_string(),
                (Kind::Auth, Some(Op::Auth { mech, user, secret })) => AuthCommand::new(*mech, Credentials::new(user.clone(), secret.clone()), None).map(|c| c.to_string()).unwrap_or_default(),
                (Kind::AuthResp, Some(Op::Auth { mech, user, secret })) if it.text != b"*" => {
                    let prev = &t.server.items[k - 1].reply;
                    let resp: Response = String::from_utf8_lossy(&prev.raw).parse().expect("challenge");
                    AuthCommand::new_from_response(*mech, Credentials::new(user.clone(), secret.clone()), &resp).map(|c| c.to_string()).unwrap_or_default()
                }
                _ => continue,
            };
            n += 1;
            if line != want {
                ctx.fail(format!("{line:?} was transmitted, but the command renders as {want:?}"), || t.dump());
                return;
            }
        }
    }
    ctx.count("lines compared with commands", n);
    let _ = Knobs::plain();
}
