//! Generators of scenarios and their parts.
use crate::dict;
use crate::net::{Chunk, Knobs};
use crate::rng::Rng;
use crate::server::*;
use crate::session::*;
use crate::source::SourceSpec;
use async_smtp::authentication::Mechanism;
use async_smtp::extension::ClientId;

pub const MECHS: [Mechanism; 3] = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2];

pub fn addr_char(rng: &mut Rng) -> char {
    loop {
        let c = rng.range(0x21, 0x7e) as u8 as char;
        if c != '<' && c != '>' {
            return c;
        }
    }
}
/// Addresses some programs treat specially, all of them valid here
const SPECIAL: [&str; 44] = [
    "postmaster", "Postmaster", "POSTMASTER@example.org", "MAILER-DAEMON", "mailer-daemon@example.org", "root", "root@localhost", "nobody", "anonymous@example.org", "noreply@example.org", "abuse@example.org", "@", "@example.org", "user@", "@a.example,@b.example:user@example.org", "host!user", "user%host@relay.example",
    "a@b@c", "\"a@b\"@c", "\"\"@example.org", "\"a\\\"b\"@example.org", ".user@example.org", "user.@example.org", "us..er@example.org", "user@example.org.", "user@[IPv6:::1]", "user@[127.0.0.1]", "user@127.0.0.1", "user@localhost", "user@xn--bcher-kva.example", "-user@example.org", "--@example.org",
    "user@-example.org", "user@example.invalid", "bounce+user=example.org@list.example", "SRS0=abc=1a=x.org=user@y.org", "prvs=123=user@example.org", "0", "null", "NULL@example.org", "BODY=8BITMIME", "DATA", "*@example.org", "undisclosed-recipients:;",
];
/// A valid address: any printable ASCII except space and angle brackets
pub fn addr(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 => (0..rng.range(1, 40)).map(|_| addr_char(rng)).collect(),
        1 => format!("\"{}\"@example.org", (0..rng.range(0, 8)).map(|_| addr_char(rng)).collect::<String>()),
        2 => format!("u{}+tag=x@[127.0.0.1]", rng.below(1000)),
        4 if rng.below(3) == 0 => rng.pick(&SPECIAL).to_string(),
        4 if rng.below(3) == 0 => {
            let w: String = dict::word_text(rng).chars().filter(|c| c.is_ascii_graphic() && *c != '<' && *c != '>').collect();
            match rng.below(4) {
                0 => format!("{w}@example.org"),
                1 => format!("user@{w}"),
                2 => format!("{w}user@example.org"),
                _ if w.is_empty() => "u".into(),
                _ => w,
            }
        }
        3 if rng.below(8) == 0 => {
            let n = dict::number(rng, 2000).unwrap_or(64).max(1);
            let tail = if rng.bool() && n > 12 { "@example.org" } else { "" };
            (0..n - tail.len()).map(|_| addr_char(rng)).collect::<String>() + tail
        }
        3 => {
            let n = if rng.below(12) == 0 { rng.range(300, 1500) } else { rng.range(100, 250) };
            (0..n).map(|_| addr_char(rng)).collect()
        }
        _ => format!("user{}@example{}.org", rng.below(10_000), rng.below(10)),
    }
}
pub fn sender(rng: &mut Rng) -> Option<String> {
    match rng.below(8) {
        0 => None,
        _ => Some(addr(rng)),
    }
}
fn variant(rng: &mut Rng, a: &str) -> String {
    let flip = |rng: &mut Rng, s: &str| -> String { s.chars().map(|c| if rng.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
    let (l, d) = a.rsplit_once('@').unwrap_or((a, "example.org"));
    match rng.below(15) {
        13 => format!("{}{a}", ["mailto:", "MAILTO:", "smtp:", "rfc822;", "=?utf-8?q?", "\\", "'"][rng.below(7)]),
        0 => a.to_ascii_uppercase(),
        1 => a.to_ascii_lowercase(),
        2 => flip(rng, a),
        3 => format!("{l}@{}", d.to_ascii_uppercase()),
        4 => format!("{}@{d}", flip(rng, l)),
        5 => format!("{a}."),
        6 => format!("{l}+tag@{d}"),
        7 => format!("\"{l}\"@{d}"),
        8 => format!("{l}.@{d}"),
        9 => format!("@relay.example.org:{a}"),
        10 => format!("{}@{d}", l.replace('.', "")),
        11 => l.to_string(),
        12 => format!("{l}@[{d}]"),
        _ => format!("{a},{a}"),
    }
}
pub fn rcpts(rng: &mut Rng, max: usize) -> Vec<String> {
    let mut n = if rng.below(3) == 0 { rng.range(1, max) } else { rng.range(1, max.min(3)) };
    if max >= 6 {
        match rng.below(200) {
            0 => n = rng.range(95, 140),
            6 => n = dict::number(rng, 300).unwrap_or(n).max(1),
            1..=5 => n = rng.range(9, 45),
            _ => {}
        }
    }
    let mut v: Vec<String> = (0..n).map(|_| addr(rng)).collect();
    // Variations of one address, which are all different recipients
    if v.len() > 1 && rng.below(4) == 0 {
        for _ in 0..rng.range(1, v.len()) {
            let j = rng.below(v.len());
            let i = if rng.bool() { (j + 1) % v.len() } else { rng.below(v.len()) };
            v[i] = variant(rng, &v[j]);
        }
    }
    // duplicates
    if v.len() > 1 && rng.below(4) == 0 {
        let i = rng.below(v.len());
        let j = rng.below(v.len());
        v[i] = v[j].clone();
    }
    v
}
/// What messages begin, end or have inside that some program or other treats specially
pub const IDIOMS: [&[u8]; 64] = [
    b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"From someone@example.org Thu Jan  1 00:00:00 1970\r\n", b">From me\r\n", b"From ", b"\x1a", b"\0", b"\0\0\0\0", b"\r\n\r\n", b"\n", b"\n\n", b"\r",
    b"Bcc: hidden@example.org\r\n", b"bcc: a@b,\r\n c@d\r\n", b"Return-Path: <x@y>\r\n", b"Status: RO\r\n", b"X-Mozilla-Status: 0001\r\n", b"Content-Length: 17\r\n", b"Content-Transfer-Encoding: 8bit\r\n", b"Content-Type: text/plain; charset=utf-8\r\n",
    b" \r\n", b" ", b"\t", b"   \r\n\t\r\n", b" .\r\n", b".\n", b".\r", b". \r\n", b"\x7f", b"\x1b[2J", b"\x0c", b"\x0b\r\n", b"\xc2\x85", b"\xe2\x80\xa8", b"\xc3", b"\x80", b"\xff\xff\xff\xff", b"=\r\n", b"=0D=0A.=0D=0A", b"=2E\r\n", b"begin 644 x\r\n", b"-----BEGIN PGP MESSAGE-----\r\n\r\n", b"- -- \r\n", b"--\r\n", b"-- \r\n",
    b"--boundary--\r\n", b"QUIT\r\n", b"RSET\r\n", b".\r\nQUIT\r\n", b"250 OK\r\n", b"354 go ahead\r\n", b"\r\r\n", b"\n\r\n", b"\n\r", b"\r\n\n", b"\r\n\r", b"EOF\r\n", b"\x04", b"BDAT 10 LAST\r\n", b"Date: \r\n", b"Message-ID: <a@b>\r\n", b"Subject:\r\n", b"..\r\n.\r\n..\r\n",
];
pub fn content(rng: &mut Rng, max_atoms: usize) -> Vec<u8> {
    let mut v = vec![];
    let dressed = rng.below(3) == 0 && max_atoms > 0;
    let idiom = |rng: &mut Rng| if rng.below(4) == 0 { dict::word(rng) } else { *rng.pick(&IDIOMS) };
    if dressed {
        for _ in 0..rng.below(3) {
            v.extend_from_slice(idiom(rng));
        }
    }
    v.extend(soup(rng, max_atoms));
    if dressed {
        for _ in 0..rng.below(3) {
            v.extend_from_slice(idiom(rng));
        }
        if rng.below(6) == 0 && max_atoms >= 8 && !cfg!(miri) {
            sized(rng, &mut v, 10_000);
        }
    }
    v
}
/// Makes the content as long as some number in the source code, or nearly so
pub fn sized(rng: &mut Rng, v: &mut Vec<u8>, max: usize) {
    let Some(n) = dict::number(rng, max) else { return };
    let tail: &[u8] = rng.pick(&[&b""[..], b"", b"\r\n", b"\n", b"\r", b".", b"\r\n.", b".\r\n", b"\r\n\r\n", b"x"]);
    let unit: &[u8] = rng.pick(&[&b"x"[..], b"a long line\r\n", b".", b"\r\n"]);
    let keep = n.saturating_sub(tail.len());
    while v.len() < keep {
        v.extend_from_slice(&unit[..unit.len().min(keep - v.len())]);
    }
    v.truncate(keep);
    v.extend_from_slice(&tail[..tail.len().min(n)]);
}
fn soup(rng: &mut Rng, max_atoms: usize) -> Vec<u8> {
    let n = rng.below(max_atoms + 1);
    let mut v = vec![];
    let long = if max_atoms >= 8 && !cfg!(miri) && rng.below(60) == 0 { rng.below(n.max(1)) } else { usize::MAX };
    for k in 0..n {
        if k == long {
            let len = 1usize << rng.range(11, 16);
            let unit: &[u8] = rng.pick(&[&b"x"[..], b"a long line\r\n", b".", b"\r\n", b"\xff\0"]);
            v.extend(unit.iter().cycle().take(len + rng.below(9)));
        }
        match rng.below(16) {
            15 => v.extend_from_slice(if rng.below(4) == 0 { dict::word(rng) } else { b".x\r\n" }),
            0 => v.extend_from_slice(b"."),
            1 => v.extend_from_slice(b".."),
            2 | 3 => v.extend_from_slice(b"\r\n"),
            4 => v.extend_from_slice(b"\r"),
            5 => v.extend_from_slice(b"\n"),
            6 => v.extend_from_slice(b"\r\n."),
            7 => v.extend_from_slice(b"\r\n.\r\n"),
            8 => v.extend_from_slice(b"\n.\n"),
            9 => v.extend_from_slice(b"\r.\r"),
            10 => v.extend_from_slice(b"MAIL FROM:<evil@x>\r\nRCPT TO:<evil@y>\r\nDATA\r\n"),
            11 => {
                for _ in 0..rng.below(20) {
                    v.push(rng.next() as u8);
                }
            }
            12 => v.extend(std::iter::repeat(b'a' + rng.below(26) as u8).take(rng.below(300))),
            13 => v.extend_from_slice("Subject: hällo\r\n\r\nwörld\r\n".as_bytes()),
            _ => v.extend_from_slice(b"line of text\r\n"),
        }
    }
    v
}
/// Text of a reply line: no CR or LF, any other text
pub fn text(rng: &mut Rng) -> String {
    match rng.below(18) {
        17 => {
            let mut l = dict::line(rng);
            if rng.below(10) == 0 {
                let n = dict::number(rng, 500).unwrap_or(10);
                while l.len() < n {
                    l.push(rng.range(0x20, 0x7e) as u8 as char);
                }
            }
            while l.len() > 480 {
                l.pop();
            }
            l
        }
        0 => String::new(),
        1 => " ".into(),
        2 => "250 nested".into(),
        3 => "-dash".into(),
        4 => "550-5.7.1 x".into(),
        12 => format!("{}.{}.{} enhanced", rng.range(2, 5), rng.below(8), rng.below(20)),
        13 => format!("{}{:02}{}reply-like", rng.range(1, 6), rng.below(60), ["-", " ", "", "\t"][rng.below(4)]),
        14 => {
            // Characters of several bytes at any offset
            let pad = rng.below(6);
            let n = *rng.pick(&[15, 30, 60, 120]);
            format!("{}{}", "x".repeat(pad), ["\u{e4}", "\u{20ac}", "\u{1F600}"][rng.below(3)].repeat(n))
        }
        15 => ["+1", ".", "..", "*", "=", "OK", "<a@b>", "a\0b", "\\r\\n", "354 go", "timeout exceeded, closing connection", "queued as 4.0.0", "error: try again later"][rng.below(13)].into(),
        5 => "\ttab\t ".into(),
        6 => "grüße \u{1F600} \u{85}\u{2028}x".into(),
        7 => "  leading and trailing  ".into(),
        8 => (0..rng.below(60)).map(|_| rng.range(0x20, 0x7e) as u8 as char).collect(),
        9 => (0..rng.range(200, 506)).map(|_| rng.range(0x20, 0x7e) as u8 as char).collect(),
        _ => format!("2.{}.{} ok", rng.below(8), rng.below(9)),
    }
}
fn lines(rng: &mut Rng, label: &str) -> Vec<String> {
    let n = match rng.below(300) {
        _ if cfg!(miri) => rng.range(1, 3),
        0 => rng.range(20, 300),
        1..=5 => rng.range(6, 40),
        6 => dict::number(rng, 300).unwrap_or(1).max(1),
        7..=100 => rng.range(2, 5),
        _ => 1,
    };
    let at = rng.below(n);
    (0..n)
        .map(|i| {
            if i == at {
                match rng.below(3) {
                    0 => format!("{} {label}", text(rng)),
                    1 => format!("{label} {}", text(rng)),
                    _ => label.to_string(),
                }
            } else {
                text(rng)
            }
        })
        .collect()
}
pub fn reply_code(rng: &mut Rng, code: u16, label: &str) -> Reply {
    let l = lines(rng, label);
    if rng.below(8) == 0 {
        if rng.below(3) == 0 {
            return Reply::bare(code, vec![]);
        }
        return Reply::bare(code, l);
    }
    Reply::new(code, l)
}
/// Any code of that class
pub fn reply_class(rng: &mut Rng, class: u16, label: &str) -> Reply {
    let usual: &[u16] = match class {
        2 => &[250, 250, 251, 252, 200, 259, 235, 221],
        3 => &[354, 354, 354, 300, 359],
        4 => &[421, 450, 451, 452, 400, 459],
        _ => &[550, 551, 552, 553, 554, 500, 503, 530, 559],
    };
    let named = if rng.below(16) == 0 { dict::number(rng, 559).filter(|n| *n / 100 == class as usize && n % 100 < 60) } else { None };
    let code = if let Some(n) = named { n as u16 } else if rng.below(4) == 0 { class * 100 + rng.below(60) as u16 } else { *rng.pick(usual) };
    reply_code(rng, code, label)
}
pub fn reply_neg(rng: &mut Rng, label: &str) -> Reply {
    let c = if rng.bool() { 4 } else { 5 };
    reply_class(rng, c, label)
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub min_ops: usize,
    pub max_ops: usize,
    pub auth: bool,
    /// Chance (in 1000) of a refusal at each step
    pub refuse: u32,
    /// Chance (in 1000) of DATA and the final reply being of the wrong positive class
    pub odd: u32,
    /// Chance (in 1000) that a refusal closes the connection
    pub close: u32,
    pub reader: bool,
    pub max_rcpt: usize,
    pub atoms: usize,
    /// Server offers PIPELINING
    pub pipelining: Option<bool>,
    pub quit: bool,
    pub starttls: bool,
}
impl GenOpts {
    pub fn sends(n: usize) -> GenOpts {
        GenOpts { min_ops: 1, max_ops: n, auth: false, refuse: 0, odd: 0, close: 0, reader: false, max_rcpt: 6, atoms: 12, pipelining: None, quit: false, starttls: false }
    }
    pub fn history(n: usize) -> GenOpts {
        GenOpts { min_ops: 1, max_ops: n, auth: true, refuse: 120, odd: 20, close: 0, reader: true, max_rcpt: 8, atoms: 12, pipelining: None, quit: true, starttls: false }
    }
}

pub fn b64(s: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in s.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        o.push(T[(n >> 18) as usize & 63] as char);
        o.push(T[(n >> 12) as usize & 63] as char);
        o.push(if c.len() > 1 { T[(n >> 6) as usize & 63] as char } else { '=' });
        o.push(if c.len() > 2 { T[n as usize & 63] as char } else { '=' });
    }
    o
}
/// Strict (canonical, padded) decoding
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut o = vec![];
    let n = s.len() / 4;
    for (k, c) in s.chunks(4).enumerate() {
        let pad = c.iter().rev().take_while(|x| **x == b'=').count();
        if pad > 2 || (pad > 0 && k + 1 != n) {
            return None;
        }
        let mut v = 0u32;
        for x in &c[..4 - pad] {
            let d = match x {
                b'A'..=b'Z' => x - b'A',
                b'a'..=b'z' => x - b'a' + 26,
                b'0'..=b'9' => x - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return None,
            };
            v = v << 6 | d as u32;
        }
        v <<= 6 * pad;
        let b = v.to_be_bytes();
        if (pad == 1 && b[3] != 0) || (pad == 2 && (b[3] != 0 || b[2] != 0)) {
            return None;
        }
        o.extend_from_slice(&b[1..4 - pad]);
    }
    Some(o)
}

fn any_word(rng: &mut Rng) -> String {
    (0..rng.range(1, 12)).map(|_| *rng.pick(b"abcdefgXYZ0189_") as char).collect()
}
/// Any string, for credentials
pub fn any_string(rng: &mut Rng) -> String {
    match rng.below(8) {
        7 if rng.below(5) == 0 => {
            let w = dict::word_text(rng);
            match rng.below(4) {
                0 => format!("{w}{}", any_word(rng)),
                1 => format!("{}{w}", any_word(rng)),
                _ => w,
            }
        }
        7 => {
            if rng.below(5) == 0 && !cfg!(miri) {
                // A token
                let n = *rng.pick(&[400, 1000, 2100, 5000, 12_400, 20_000]);
                let n = if rng.below(4) == 0 { dict::number(rng, 20_000).unwrap_or(n) } else { n };
                return (0..n + rng.below(9)).map(|_| *rng.pick(b"abcXYZ019-._~+/=") as char).collect();
            }
            let w = any_word(rng);
            match rng.below(4) {
                0 => format!("{}{w}", *rng.pick(&["Bearer ", "bearer ", "Basic ", "OAuth ", "token:", "{SHA}", "\u{feff}", "/", "enc:", "base64:", "\n", "\0"])),
                1 => format!("{w}{}", *rng.pick(&["\n", "\r\n", "\r", "\0", " ", "\t", "=", "\u{200b}", "@", ":"])),
                2 => b64(w.as_bytes()),
                _ => format!("{w}{w}"),
            }
        }
        0 => String::new(),
        1 => "user@example.org".into(),
        2 => (0..rng.range(1, 30)).map(|_| char::from_u32(rng.below(0x250) as u32).unwrap_or('x')).collect(),
        3 => (0..rng.range(1, 12)).map(|_| char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect(),
        4 => (0..rng.range(30, 400)).map(|_| rng.range(0x20, 0x7e) as u8 as char).collect(),
        5 => {
            const T: [&str; 40] = [
                "rfc822;a+b@c", "rfc822;", "utf-8;a\\x{e9}@b", "x400;/c=x=y/", "QQ314159", "a+2Bb", "+2B", "+2b", "+", "++", "+3D=", "%2B", "%00", "=?utf-8?q?=2B?=", "=3D", "&amp;", "a=b", "=", "==", "<a@b>", "NUL", "null", "true", "-", "--", "user=a", "\x01auth=Bearer x", "auth=Bearer x\x01\x01",
                "dXNlcg==", "AHVzZXIAcGFzcw==", "user\0secret", "DOMAIN\\user", "user%example.org", "pass:word", "  lead", "trail  ", "\"q\"", "a\\b", "\u{e9}", "e\u{301}",
            ];
            let s = *rng.pick(&T);
            match rng.below(4) {
                0 => format!("{s}{}", rng.pick(&T)),
                1 => s.repeat(rng.range(1, 40)),
                _ => s.into(),
            }
        }
        _ => ["\0", "\r\n", "a\0b", "\x01\x01", "*", "=", "pa ss", "\u{feff}", "QUIT\r\n", "ü"][rng.below(10)].into(),
    }
}

pub const USER_PROMPTS: [&str; 3] = ["User Name", "Username:", "Username"];
pub const PASS_PROMPTS: [&str; 2] = ["Password", "Password:"];

pub struct Feat {
    pub lines: Vec<String>,
    pub pipelining: bool,
    pub eightbit: bool,
    pub utf8: bool,
    pub starttls: bool,
    pub mechs: Vec<Mechanism>,
}
fn rcase(rng: &mut Rng, s: &str) -> String {
    match rng.below(3) {
        0 => s.into(),
        1 => s.to_ascii_lowercase(),
        _ => s.chars().map(|c| if rng.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}
/// Lines after the first one of an EHLO reply, with the features they mean
pub fn features(rng: &mut Rng, pipelining: Option<bool>) -> Feat {
    let mut f = Feat { lines: vec![], pipelining: pipelining.unwrap_or_else(|| rng.bool()), eightbit: rng.bool(), utf8: rng.bool(), starttls: rng.bool(), mechs: vec![] };
    let mut l = vec![];
    let tail = |rng: &mut Rng| if rng.below(6) == 0 { [" param", " X=1 Y", " PIPELINING", " AUTH PLAIN", " STARTTLS"][rng.below(5)] } else { "" };
    for (on, k) in [(f.pipelining, "PIPELINING"), (f.eightbit, "8BITMIME"), (f.utf8, "SMTPUTF8"), (f.starttls, "STARTTLS")] {
        if on {
            let t = tail(rng);
            l.push(format!("{}{t}", rcase(rng, k)));
            if rng.below(12) == 0 {
                l.push(rcase(rng, k));
            }
        }
    }
    for _ in 0..rng.below(3) {
        let mut m = vec![];
        for _ in 0..rng.below(5) {
            match rng.below(8) {
                0 => m.push("CRAM-MD5".to_string()),
                1 => m.push("PLAIN-CLIENTTOKEN".to_string()),
                2 => m.push("XOAUTH".to_string()),
                3 => m.push("OAUTHBEARER".to_string()),
                _ => {
                    let x = *rng.pick(&MECHS);
                    if !f.mechs.contains(&x) {
                        f.mechs.push(x);
                    }
                    m.push(x.to_string());
                }
            }
        }
        let k = rcase(rng, "AUTH");
        l.push(if m.is_empty() { k } else { format!("{k} {}", m.join(" ")) });
    }
    const NOISE: [&str; 50] = [
        "STARTTLS=", "STARTTLS:", "STARTTLS,", "PIPELINING;", "PIPELINING.", "PIPELINING=1", "8BITMIME=1", "8BITMIME:", "SMTPUTF8=YES", "AUTH: PLAIN", "AUTH= PLAIN LOGIN", "AUTH, PLAIN", "-STARTTLS", "\"PIPELINING\"", "P\u{131}PELINING", "\u{17f}TARTTLS",
        "8B\u{131}TMIME", "\u{ff21}\u{ff35}\u{ff34}\u{ff28} PLAIN", "AUTH PLAIN,LOGIN", "AUTH XPLAIN PLAINX LOGINS", "AUTH LOGIN- PLAIN;", "AUTH CRAM-MD5 XOAUTH2X", "250-STARTTLS", "250 PIPELINING", "NO-PIPELINING", "PIPELIN ING", "START TLS", "TLS",
        "SIZE 35882577", "HELP", "DSN", "ENHANCEDSTATUSCODES", "XPIPELINING", "PIPELININGX", "X-PIPELINING", "SIZE PIPELINING", "X STARTTLS", "STARTTLSX", "XSTARTTLS", "AUTH=PLAIN", "AUTHX PLAIN LOGIN", "XAUTH PLAIN", "8BITMIMEX",
        "8BIT MIME", "SMTPUTF8X", "SMTPUTF 8", "CHUNKING", "", "PIPELINING,8BITMIME", "VRFY PLAIN LOGIN XOAUTH2",
    ];
    for _ in 0..rng.below(5) {
        l.push(rng.pick(&NOISE).to_string());
    }
    if rng.below(4) == 0 {
        let w = dict::line(rng);
        let known = ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH"];
        if !w.split_whitespace().next().map_or(false, |k| known.contains(&k.to_ascii_uppercase().as_str())) {
            l.push(w);
        }
    }
    if rng.below(25) == 0 {
        // Long lists
        for k in 0..rng.range(5, 60) {
            l.push(format!("X-EXTENSION-{k} PIPELINING AUTH"));
        }
        let n = if rng.below(4) == 0 { rng.range(30, 120) } else { rng.range(0, 15) };
        let mut m: Vec<String> = (0..n).map(|k| format!("X-MECH-{k}")).collect();
        for x in MECHS {
            if rng.bool() {
                if !f.mechs.contains(&x) {
                    f.mechs.push(x);
                }
                m.push(x.to_string());
            }
        }
        if rng.bool() {
            rng.shuffle(&mut m);
        }
        l.push(format!("AUTH {}", m.join(" ")));
    }
    rng.shuffle(&mut l);
    f.lines = l;
    f
}
/// Complete reply to EHLO. The first line never makes a feature.
pub fn ehlo_reply(rng: &mut Rng, f: &Feat) -> Reply {
    let first = ["server.test", "server.test greets you", "PIPELINING", "STARTTLS ready", "AUTH PLAIN LOGIN XOAUTH2", "8BITMIME SMTPUTF8", "[192.0.2.1] hello PIPELINING"][rng.below(7)].to_string();
    let first = if rng.below(12) == 0 { format!("s{}", dict::line(rng)) } else { first };
    let mut l = vec![first];
    l.extend(f.lines.iter().cloned());
    Reply::new(250, l)
}

/// Names for EHLO that look like something else
const NAMES: [&str; 20] = [
    "192.0.2.1", "127.0.0.1", "::1", "IPv6:::1", "[IPv6:::1]", "[192.0.2.1]", "2001:db8::1", "0", "1.2.3", "Localhost", "LOCALHOST", "localhost.localdomain", "example.org.", "UPPER.Example.ORG", "-", "_", "*", "b\u{fc}cher.example", "<host>", "\"host\"",
];
pub fn hello(rng: &mut Rng) -> Option<ClientId> {
    match rng.below(5) {
        0 | 1 => None,
        2 => Some(ClientId::Domain(["localhost", "mail.example.org", "a", "[192.0.2.9]", "xn--bcher-kva.example", "host_name-1"][rng.below(6)].into())),
        3 if rng.below(3) == 0 => Some(ClientId::Domain(if rng.below(6) == 0 { "label.".repeat(*rng.pick(&[11, 43, 90, 400])) + "example" } else if rng.below(4) == 0 { dict::word_text(rng).chars().filter(|c| c.is_ascii_graphic()).collect::<String>() + "x" } else { rng.pick(&NAMES).to_string() })),
        3 => Some(ClientId::Ipv4((rng.next() as u32).into())),
        _ => Some(ClientId::Ipv6(match rng.below(4) {
            0 => 1u128.into(),
            1 => 0u128.into(),
            2 => (0xffff_0000_0000u128 | rng.next() as u32 as u128).into(),
            _ => (((rng.next() as u128) << 64) | rng.next() as u128).into(),
        })),
    }
}
pub fn cfg(rng: &mut Rng) -> ClientCfg {
    let tri = |rng: &mut Rng| [None, Some(true), Some(false)][rng.below(3)];
    ClientCfg { hello: hello(rng), utf8: tri(rng), pipelining: *rng.pick(&[None, None, Some(true), Some(false)]), greeting: rng.below(4) != 0, order: rng.below(30) as u8 }
}

pub fn send_op(rng: &mut Rng, o: &GenOpts) -> Op {
    let from = sender(rng);
    let mut to = rcpts(rng, o.max_rcpt);
    if let Some(f) = &from {
        // Mail to oneself
        if rng.below(12) == 0 {
            let i = rng.below(to.len());
            to[i] = if rng.bool() { f.clone() } else { variant(rng, f) };
        }
    }
    Op::Send {
        from,
        to,
        content: content(rng, o.atoms),
        source: if o.reader && rng.below(3) == 0 { Some(SourceSpec::random(rng)) } else { None },
    }
}
pub fn tx(rng: &mut Rng, n: usize, n_rcpt: usize, o: &GenOpts) -> Tx {
    let step = |rng: &mut Rng, ok: u16, label: String, odd: Option<u16>| {
        if rng.pm(o.refuse) {
            let r = reply_neg(rng, &label);
            if rng.pm(o.close) {
                return r.closing();
            }
            return r;
        }
        if let Some(c) = odd {
            if rng.pm(o.odd) {
                return reply_class(rng, c, &label);
            }
        }
        let r = reply_class(rng, ok, &label);
        if rng.pm(o.close / 8) {
            return r.closing();
        }
        r
    };
    Tx {
        mail: step(rng, 2, format!("mail{n}"), None),
        rcpt: (0..n_rcpt).map(|i| step(rng, 2, format!("rcpt{n}.{i}"), None)).collect(),
        data: step(rng, 3, format!("data{n}"), Some(2)),
        fin: step(rng, 2, format!("fin{n}"), Some(3)),
    }
}
/// One authentication dialogue for the mechanism, ending by itself
pub fn auth_steps(rng: &mut Rng, mech: Mechanism, label: &str, refuse: u32) -> Vec<AStep> {
    let fin = |rng: &mut Rng| {
        if rng.pm(refuse) {
            reply_neg(rng, label)
        } else if rng.below(4) == 0 {
            reply_class(rng, 2, label)
        } else {
            reply_code(rng, 235, label)
        }
    };
    let mut v = vec![];
    if mech == Mechanism::Login {
        match rng.below(8) {
            0 => {}
            1 => v.push(AStep::Chal(b64(rng.pick(&USER_PROMPTS).as_bytes()))),
            2 => {
                v.push(AStep::Chal(b64(rng.pick(&PASS_PROMPTS).as_bytes())));
                v.push(AStep::Chal(b64(rng.pick(&USER_PROMPTS).as_bytes())));
            }
            3 => {
                v.push(AStep::Chal(b64(rng.pick(&USER_PROMPTS).as_bytes())));
                v.push(AStep::Chal(b64(b"Color?")));
            }
            _ => {
                v.push(AStep::Chal(b64(rng.pick(&USER_PROMPTS).as_bytes())));
                v.push(AStep::Chal(b64(rng.pick(&PASS_PROMPTS).as_bytes())));
            }
        }
    } else if rng.below(10) == 0 {
        v.push(AStep::Chal(b64(b"{\"status\":\"401\"}")));
    }
    v.push(AStep::Fin(fin(rng)));
    v
}

pub fn scenario(rng: &mut Rng, o: &GenOpts) -> Scenario {
    let f = features(rng, o.pipelining);
    let mut cfg = cfg(rng);
    if o.pipelining == Some(true) {
        cfg.pipelining = *rng.pick(&[None, Some(true)]);
    }
    let mut plan = Plan::plain(&[]);
    plan.ehlo = ehlo_reply(rng, &f);
    plan.greeting = if cfg.greeting { Some(reply_code(rng, 220, "greeting")) } else { None };
    plan.data_without_rcpt = rng.bool();
    let n = rng.range(o.min_ops, o.max_ops);
    let mut ops = vec![];
    for k in 0..n {
        if o.auth && rng.below(4) == 0 {
            let mech = *rng.pick(&MECHS);
            let (user, secret) = (any_string(rng), any_string(rng));
            if rng.below(3) == 0 {
                let mut mechs = MECHS.to_vec();
                rng.shuffle(&mut mechs);
                mechs.truncate(rng.range(0, 3));
                if let Some(m) = mechs.iter().find(|m| f.mechs.contains(m)) {
                    let a = auth_steps(rng, *m, &format!("auth{k}"), o.refuse);
                    plan.auths.push(a);
                }
                ops.push(Op::TryLogin { mechs, user, secret });
            } else {
                let a = auth_steps(rng, mech, &format!("auth{k}"), o.refuse);
                plan.auths.push(a);
                ops.push(Op::Auth { mech, user, secret });
            }
        } else {
            let op = send_op(rng, o);
            ops.push(op);
        }
    }
    for op in &ops {
        if let Op::Send { to, .. } = op {
            let k = plan.txs.len();
            let t = tx(rng, k, to.len(), o);
            plan.txs.push(t);
        }
    }
    for k in 0..n {
        let r = if rng.pm(o.refuse) { reply_neg(rng, &format!("rset{k}")) } else { reply_class(rng, 2, &format!("rset{k}")) };
        plan.rset.push(r);
    }
    if o.starttls && rng.below(3) == 0 {
        plan.starttls = if rng.pm(o.refuse) { reply_neg(rng, "starttls") } else { reply_class(rng, 2, "starttls") };
        plan.after_starttls = content(rng, 3);
        ops.push(Op::Starttls);
    } else if o.quit && rng.below(3) == 0 {
        plan.quit = if rng.pm(o.refuse) { reply_neg(rng, "quit") } else { reply_class(rng, 2, "quit") };
        ops.push(Op::Quit);
    }
    if rng.below(10) == 0 {
        echo(rng, &cfg, &mut plan, &ops);
    }
    let mut sc = Scenario::new(cfg, plan, ops, Knobs::random(rng));
    if rng.below(8) == 0 {
        echo_challenges(rng, &mut sc);
    }
    sc
}

/// Challenges which repeat the user's name, or words of the source code
pub fn echo_challenges(rng: &mut Rng, sc: &mut Scenario) {
    let mut who = sc.ops.iter().filter_map(|op| match op {
        Op::Auth { user, secret, .. } | Op::TryLogin { user, secret, .. } => Some((user, secret)),
        _ => None,
    });
    for a in sc.plan.auths.iter_mut() {
        let Some((user, _)) = who.next() else { return };
        for s in a.iter_mut() {
            if let AStep::Chal(c) = s {
                if rng.bool() {
                    let w = dict::word_text(rng);
                    let p = match rng.below(6) {
                        0 => user.clone(),
                        1 => format!("Password for {user}:"),
                        2 => format!("{user}: {w}"),
                        3 => format!("Password: {w}"),
                        _ => w,
                    };
                    *c = b64(p.as_bytes());
                }
            }
        }
    }
}
/// Replies which repeat what the client said, or what it is about to say
pub fn echo(rng: &mut Rng, cfg: &ClientCfg, plan: &mut Plan, ops: &[Op]) {
    let mut words: Vec<String> = vec![cfg.hello_text(), "EHLO".into(), "MAIL FROM:<>".into(), "DATA".into(), "QUIT".into(), ".".into()];
    for op in ops {
        match op {
            Op::Send { from, to, .. } => {
                for a in from.iter().chain(to.iter().take(3)) {
                    words.push(a.clone());
                    words.push(format!("<{a}>"));
                    if let Some((l, d)) = a.rsplit_once('@') {
                        words.push(l.into());
                        words.push(d.into());
                    }
                }
            }
            Op::Auth { user, .. } | Op::TryLogin { user, .. } => {
                words.push(user.chars().filter(|c| *c != '\r' && *c != '\n').take(200).collect());
                words.push(b64(user.as_bytes()).chars().take(400).collect());
            }
            _ => {}
        }
    }
    let codes = ["220", "221", "235", "250", "334", "354", "421", "450", "454", "501", "535", "550", "554"];
    words.extend((0..3).map(|_| format!("{} {}", rng.pick(&codes), rng.pick(&["no", "ok", "closing", "not available", "Ready"]))));
    let mut all: Vec<(&mut Reply, bool)> = vec![(&mut plan.quit, false), (&mut plan.starttls, false), (&mut plan.ehlo, true)];
    all.extend(plan.greeting.iter_mut().map(|x| (x, false)));
    all.extend(plan.rset.iter_mut().map(|x| (x, false)));
    for t in plan.txs.iter_mut() {
        all.extend([&mut t.mail, &mut t.data, &mut t.fin].into_iter().chain(t.rcpt.iter_mut().take(3)).map(|x| (x, false)));
    }
    for a in plan.auths.iter_mut() {
        all.extend(a.iter_mut().filter_map(|x| if let AStep::Fin(r) = x { Some((r, false)) } else { None }));
    }
    for (r, first) in all {
        if r.code == 0 || r.lines.is_empty() || rng.below(3) == 0 {
            continue;
        }
        let i = if first || rng.bool() { 0 } else { rng.below(r.lines.len()) };
        let (w, old) = (rng.pick(&words).clone(), &r.lines[i]);
        let new = match rng.below(4) {
            0 if !first => format!("{old} {w}"),
            1 => format!("{w}: {old}"),
            _ => format!("{w} {old}"),
        };
        let mut l = r.lines.clone();
        l[i] = new;
        let close = r.close;
        *r = Reply::new(r.code, l);
        r.close = close;
    }
}

/// A content from some kilobytes to over a megabyte
pub fn heavy_content(rng: &mut Rng) -> Vec<u8> {
    let size = rng.range(4, 9) << *rng.pick(&[10, 11, 12, 13, 14, 15, 16, 17]);
    let mut v = content(rng, 6);
    match rng.below(4) {
        0 => {
            let unit: &[u8] = rng.pick(&[&b"x"[..], b"a long line\r\n", b".\r\n", b"\r\n", b"\xff\0"]);
            v.extend(unit.iter().cycle().take(size));
        }
        1 => {
            while v.len() < size {
                v.extend(std::iter::repeat(b'a' + rng.below(26) as u8).take(rng.below(998)));
                v.extend_from_slice(*rng.pick(&[&b"\r\n"[..], b"\r\n.", b"\n", b"\r\n..\r\n"]));
            }
        }
        2 => v.extend((0..size).map(|_| rng.next() as u8)),
        _ => {
            let block = soup(rng, 40);
            if block.is_empty() {
                v.resize(size, b'.');
            }
            while v.len() < size {
                v.extend_from_slice(&block);
            }
        }
    }
    v.extend(content(rng, 4));
    if rng.below(4) == 0 {
        sized(rng, &mut v, 1 << 20);
    }
    v
}
/// A transport which is not byte-wise
pub fn coarse(rng: &mut Rng, k: &mut Knobs) {
    for c in [&mut k.write_chunk, &mut k.read_chunk, &mut k.release_chunk] {
        if matches!(c, Chunk::One | Chunk::Upto(0..=1000)) {
            *c = *rng.pick(&[Chunk::Upto(3000), Chunk::Upto(20_000), Chunk::Upto(200_000), Chunk::All]);
        }
    }
}
/// More of something than usual: bytes in a message, recipients, operations, lines of replies
pub fn heavy(rng: &mut Rng, o: &GenOpts) -> Scenario {
    let mut o = o.clone();
    let single = o.max_ops == 1;
    let kind = if single { rng.range(1, 5) } else { rng.below(6) };
    if single {
    } else if kind == 0 {
        o.min_ops = 20;
        o.max_ops = *rng.pick(&[40, 80, 300]);
        if let (0, Some(n)) = (rng.below(3), dict::number(rng, 300)) {
            o.max_ops = n.max(20) + rng.below(20);
            o.min_ops = o.max_ops;
        }
        o.atoms = 2;
        o.max_rcpt = 3;
        o.refuse /= 3;
    } else {
        o.min_ops = o.min_ops.max(2);
        o.max_ops = o.max_ops.max(3);
    }
    let mut sc = scenario(rng, &o);
    let mut n_tx = 0;
    let (size, many) = (rng.range(1, 3), rng.range(1, 2));
    for op in sc.ops.iter_mut() {
        if let Op::Send { to, content, source, .. } = op {
            let k = n_tx;
            n_tx += 1;
            match kind {
                0 => {}
                1 | 2 | 3 => {
                    if rng.below(3) < size {
                        *content = heavy_content(rng);
                        // Whenever such a reader defers, async-std clears all of the unused buffer again.
                        if let Some(s) = source {
                            if s.chunk != Chunk::All {
                                s.chunk = *rng.pick(&[Chunk::Upto(4000), Chunk::Upto(60_000)]);
                            }
                        }
                    }
                }
                4 => {
                    if rng.below(2) < many {
                        let n = if rng.below(4) == 0 { dict::number(rng, 300).unwrap_or(30).max(1) } else { rng.range(20, 280) };
                        *to = (0..n).map(|_| addr(rng)).collect();
                        if let Some(t) = sc.plan.txs.get_mut(k) {
                            let refuse = *rng.pick(&[0, 0, 4]) * o.refuse / 10;
                            t.rcpt = (0..n).map(|i| if rng.pm(refuse) { reply_neg(rng, &format!("rcpt{k}.{i}")) } else { reply_class(rng, 2, &format!("rcpt{k}.{i}")) }).collect();
                        }
                    }
                }
                _ => {
                    if let Some(t) = sc.plan.txs.get_mut(k) {
                        let n = if rng.below(4) == 0 { dict::number(rng, 1000).unwrap_or(30).max(1) } else { rng.range(20, 400) };
                        let r = match rng.below(4) {
                            0 => &mut t.mail,
                            1 => &mut t.rcpt[0],
                            2 => &mut t.data,
                            _ => &mut t.fin,
                        };
                        let label = format!("long{k}");
                        *r = Reply::new(r.code, (0..n).map(|i| if i == n / 2 { label.clone() } else { text(rng) }).collect());
                    }
                }
            }
        }
    }
    coarse(rng, &mut sc.knobs);
    sc
}
