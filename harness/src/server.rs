//! A strict, scripted SMTP server: the peer the client is observed against. Only CRLF ends a line.
use crate::net::{Chunk, Pipe};

#[derive(Clone, Debug, PartialEq)]
pub struct Reply {
    /// 0: malformed on purpose, `raw` is sent
    pub code: u16,
    pub lines: Vec<String>,
    pub raw: Vec<u8>,
    /// Close the connection after it
    pub close: bool,
}
impl Reply {
    pub fn new(code: u16, lines: Vec<String>) -> Reply {
        let mut raw = vec![];
        for (i, l) in lines.iter().enumerate() {
            let sep = if i + 1 < lines.len() { "-" } else { " " };
            raw.extend_from_slice(format!("{code:03}{sep}{l}\r\n").as_bytes());
        }
        Reply { code, lines, raw, close: false }
    }
    pub fn one(code: u16, text: &str) -> Reply {
        Reply::new(code, vec![text.to_string()])
    }
    /// Last line without text nor space
    pub fn bare(code: u16, mut first: Vec<String>) -> Reply {
        let mut raw = vec![];
        for l in &first {
            raw.extend_from_slice(format!("{code:03}-{l}\r\n").as_bytes());
        }
        raw.extend_from_slice(format!("{code:03}\r\n").as_bytes());
        first.push(String::new());
        Reply { code, lines: first, raw, close: false }
    }
    pub fn raw(bytes: &[u8]) -> Reply {
        Reply { code: 0, lines: vec![], raw: bytes.to_vec(), close: false }
    }
    pub fn closing(mut self) -> Reply {
        self.close = true;
        self
    }
    pub fn class(&self) -> u16 {
        self.code / 100
    }
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub mail: Reply,
    pub rcpt: Vec<Reply>,
    pub data: Reply,
    pub fin: Reply,
}

#[derive(Clone, Debug)]
pub enum AStep {
    /// Text after "334 "
    Chal(String),
    /// A go-ahead of any form
    Any(Reply),
    Fin(Reply),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub greeting: Option<Reply>,
    pub ehlo: Reply,
    pub txs: Vec<Tx>,
    pub auths: Vec<Vec<AStep>>,
    pub rset: Vec<Reply>,
    pub quit: Reply,
    pub starttls: Reply,
    /// Replies to the cancellation of an authentication, 501 when there are none left; 334 leaves it open.
    pub cancel: Vec<Reply>,
    /// Bytes sent right after the reply to STARTTLS
    pub after_starttls: Vec<u8>,
    /// DATA is accepted even if no recipient was (RFC 2920 section 3.1)
    pub data_without_rcpt: bool,
    /// All these bytes are sent regardless of what the client does, then the connection is closed.
    pub hostile: Option<Vec<u8>>,
}
impl Plan {
    pub fn plain(features: &[&str]) -> Plan {
        let mut l = vec!["server.test ehlo".to_string()];
        l.extend(features.iter().map(|x| x.to_string()));
        Plan {
            greeting: Some(Reply::one(220, "server.test greeting")),
            ehlo: Reply::new(250, l),
            txs: vec![],
            auths: vec![],
            rset: vec![],
            quit: Reply::one(221, "quit"),
            starttls: Reply::one(220, "starttls"),
            cancel: vec![],
            after_starttls: vec![],
            data_without_rcpt: false,
            hostile: None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Greeting,
    Ehlo,
    Mail,
    Rcpt,
    Data,
    Fin,
    Rset,
    Quit,
    Starttls,
    Auth,
    AuthResp,
    Other,
}

/// One thing the client sent, and the reply to it
#[derive(Clone, Debug)]
pub struct Item {
    pub kind: Kind,
    /// Offsets in the client's byte stream
    pub from: usize,
    pub to: usize,
    /// The line without its CRLF, or the raw message data without the end-of-data line
    pub text: Vec<u8>,
    pub reply: Reply,
    /// Offsets of the reply in the server's byte stream
    pub r_from: usize,
    pub r_to: usize,
    pub forced: bool,
}
impl Item {
    pub fn line(&self) -> String {
        String::from_utf8_lossy(&self.text).into_owned()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Delivery {
    pub from: String,
    pub to: Vec<String>,
    /// Unstuffed content
    pub content: Vec<u8>,
    pub item: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum Mode {
    Cmd,
    Data,
    Auth,
    Tls,
    Closed,
}

pub struct Server {
    pub plan: Plan,
    mode: Mode,
    pub items: Vec<Item>,
    pub delivered: Vec<Delivery>,
    /// Things a conforming client never does
    pub complaints: Vec<String>,
    /// Where the data being received began
    data_from: usize,
    /// Received after 354 when the connection ended
    pub open_data: Option<(usize, Vec<u8>)>,
    pos: usize,
    scan: usize,
    tx_open: bool,
    from: String,
    to: Vec<String>,
    n_tx: usize,
    n_rcpt: usize,
    n_auth: usize,
    a_step: usize,
    n_rset: usize,
    cur: Option<Tx>,
    /// Produced but not accepted by the transport yet
    pending_out: Vec<u8>,
    close_after: bool,
    started: bool,
    pub tls_from: Option<usize>,
}

/// Removes one leading dot of each line.
pub fn unstuff(raw: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(raw.len());
    let mut bol = true;
    let mut i = 0;
    while i < raw.len() {
        if bol && raw[i] == b'.' {
            i += 1;
            bol = false;
            continue;
        }
        bol = raw[i] == b'\n' && i > 0 && raw[i - 1] == b'\r';
        v.push(raw[i]);
        i += 1;
    }
    v
}

fn path_of(line: &str, prefix: usize) -> String {
    let rest = &line[prefix..];
    match (rest.find('<'), rest.find('>')) {
        (Some(a), Some(b)) if a < b => rest[a + 1..b].to_string(),
        _ => format!("?{rest}"),
    }
}

impl Server {
    pub fn new(plan: Plan) -> Server {
        Server {
            plan,
            mode: Mode::Cmd,
            items: vec![],
            delivered: vec![],
            complaints: vec![],
            data_from: 0,
            open_data: None,
            pos: 0,
            scan: 0,
            tx_open: false,
            from: String::new(),
            to: vec![],
            n_tx: 0,
            n_rcpt: 0,
            n_auth: 0,
            a_step: 0,
            n_rset: 0,
            cur: None,
            pending_out: vec![],
            close_after: false,
            started: false,
            tls_from: None,
        }
    }
    /// Called before the client runs
    pub fn start(&mut self, p: &mut Pipe) {
        self.started = true;
        if let Some(h) = self.plan.hostile.clone() {
            p.out.extend_from_slice(&h);
            self.mode = Mode::Closed;
            p.server_closed = true;
            return;
        }
        if let Some(g) = self.plan.greeting.clone() {
            let r_from = p.out.len();
            let r_to = r_from + g.raw.len();
            self.items.push(Item { kind: Kind::Greeting, from: 0, to: 0, text: vec![], reply: g.clone(), r_from, r_to, forced: false });
            self.send(p, &g);
        }
    }
    fn send(&mut self, _p: &mut Pipe, r: &Reply) {
        self.pending_out.extend_from_slice(&r.raw);
        if r.close {
            self.close_after = true;
        }
    }
    fn push_out(&mut self, p: &mut Pipe) -> bool {
        if self.pending_out.is_empty() {
            return false;
        }
        let room = p.knobs.cap_s2c.saturating_sub(p.out.len() - p.exposed);
        let n = room.min(self.pending_out.len());
        if n == 0 {
            return false;
        }
        p.out.extend(self.pending_out.drain(..n));
        true
    }
    fn has_line(&mut self, p: &Pipe) -> bool {
        if matches!(self.mode, Mode::Closed | Mode::Tls) || self.close_after {
            return false;
        }
        self.find_line(p).is_some()
    }
    fn find_line(&mut self, p: &Pipe) -> Option<usize> {
        let mut i = self.scan.max(self.pos);
        let w = &p.wire[..p.visible];
        while i + 1 < w.len() {
            if w[i] == b'\r' && w[i + 1] == b'\n' {
                self.scan = i;
                return Some(i);
            }
            i += 1;
        }
        self.scan = w.len().saturating_sub(1).max(self.pos);
        None
    }
    pub fn can_step(&mut self, p: &Pipe) -> bool {
        if !self.pending_out.is_empty() {
            return p.knobs.cap_s2c > p.out.len() - p.exposed;
        }
        (self.close_after && !p.server_closed) || p.released < p.out.len() || self.has_line(p) || p.taken < p.visible
    }
    /// One unit of work
    pub fn step(&mut self, p: &mut Pipe, chunk: Chunk) {
        if self.push_out(p) || p.released < p.out.len() {
            p.release(chunk);
            return;
        }
        if !self.pending_out.is_empty() {
            return;
        }
        if self.close_after && !p.server_closed {
            p.server_closed = true;
            self.mode = Mode::Closed;
            p.wake_reader();
            return;
        }
        if !self.has_line(p) {
            // Part of a line, or nobody is interested any more
            p.taken = p.visible;
            p.wake_writer();
            return;
        }
        let end = self.find_line(p).unwrap();
        let line = p.wire[self.pos..end].to_vec();
        let from = self.pos;
        self.pos = end + 2;
        p.taken = p.taken.max(self.pos);
        p.wake_writer();
        if self.mode == Mode::Data {
            if line == b"." {
                let raw = p.wire[self.data_from..from].to_vec();
                self.mode = Mode::Cmd;
                let tx = self.cur.take().unwrap();
                let (mut reply, mut forced) = (tx.fin, false);
                if self.to.is_empty() {
                    reply = Reply::one(554, "no valid recipients");
                    forced = true;
                }
                if reply.class() == 2 {
                    self.delivered.push(Delivery { from: self.from.clone(), to: self.to.clone(), content: unstuff(&raw), item: self.items.len() });
                }
                self.tx_open = false;
                self.to.clear();
                self.item(p, Kind::Fin, self.data_from, raw, reply, forced);
            }
            return;
        }
        self.command(p, from, line);
    }
    fn item(&mut self, p: &mut Pipe, kind: Kind, from: usize, text: Vec<u8>, reply: Reply, forced: bool) {
        let r_from = p.out.len() + self.pending_out.len();
        let r_to = r_from + reply.raw.len();
        self.items.push(Item { kind, from, to: self.pos, text, reply: reply.clone(), r_from, r_to, forced });
        self.send(p, &reply);
    }
    fn complain(&mut self, s: String) {
        if self.complaints.len() < 20 {
            self.complaints.push(s);
        }
    }
    fn command(&mut self, p: &mut Pipe, from: usize, text: Vec<u8>) {
        let line = String::from_utf8_lossy(&text).into_owned();
        let up = line.to_ascii_uppercase();
        if self.mode == Mode::Auth {
            if line == "*" {
                let r = if self.plan.cancel.is_empty() { Reply::one(501, "authentication cancelled") } else { self.plan.cancel.remove(0) };
                if r.code != 334 {
                    self.mode = Mode::Cmd;
                }
                self.item(p, Kind::AuthResp, from, text, r, false);
                return;
            }
            self.auth_step(p, Kind::AuthResp, from, text);
            return;
        }
        if up.starts_with("EHLO") {
            self.tx_open = false;
            let r = self.plan.ehlo.clone();
            self.item(p, Kind::Ehlo, from, text, r, false);
        } else if up.starts_with("MAIL FROM:") {
            if self.tx_open {
                self.complain(format!("nested MAIL: {line}"));
                self.item(p, Kind::Mail, from, text, Reply::one(503, "nested MAIL"), true);
                return;
            }
            let tx = self.plan.txs.get(self.n_tx).cloned().unwrap_or_else(|| default_tx(self.n_tx));
            self.n_tx += 1;
            self.n_rcpt = 0;
            self.to.clear();
            self.from = path_of(&line, 10);
            if tx.mail.class() == 2 {
                self.tx_open = true;
            }
            let r = tx.mail.clone();
            self.cur = Some(tx);
            self.item(p, Kind::Mail, from, text, r, false);
        } else if up.starts_with("RCPT TO:") {
            if !self.tx_open {
                self.n_rcpt += 1;
                self.item(p, Kind::Rcpt, from, text, Reply::one(503, "no transaction"), true);
                return;
            }
            let r = self.cur.as_ref().unwrap().rcpt.get(self.n_rcpt).cloned().unwrap_or_else(|| Reply::one(250, &format!("rcpt {}", self.n_rcpt)));
            self.n_rcpt += 1;
            if r.class() == 2 {
                self.to.push(path_of(&line, 8));
            }
            self.item(p, Kind::Rcpt, from, text, r, false);
        } else if up == "DATA" {
            if !self.tx_open {
                self.item(p, Kind::Data, from, text, Reply::one(503, "no transaction"), true);
                return;
            }
            if self.to.is_empty() && !self.plan.data_without_rcpt {
                self.item(p, Kind::Data, from, text, Reply::one(554, "no valid recipients"), true);
                return;
            }
            let r = self.cur.as_ref().unwrap().data.clone();
            if r.class() == 3 {
                self.mode = Mode::Data;
                self.data_from = self.pos;
            }
            self.item(p, Kind::Data, from, text, r, false);
        } else if up == "RSET" {
            let r = self.plan.rset.get(self.n_rset).cloned().unwrap_or_else(|| Reply::one(250, &format!("rset {}", self.n_rset)));
            self.n_rset += 1;
            if r.class() == 2 {
                self.tx_open = false;
                self.to.clear();
            }
            self.item(p, Kind::Rset, from, text, r, false);
        } else if up == "QUIT" {
            let mut r = self.plan.quit.clone();
            if r.class() == 2 {
                r.close = true;
            }
            self.item(p, Kind::Quit, from, text, r, false);
        } else if up == "STARTTLS" {
            let mut r = self.plan.starttls.clone();
            if r.class() == 2 {
                self.mode = Mode::Tls;
                self.tls_from = Some(self.pos);
            }
            let n = r.raw.len();
            r.raw.extend_from_slice(&self.plan.after_starttls);
            self.item(p, Kind::Starttls, from, text, r, false);
            self.items.last_mut().unwrap().r_to = self.items.last().unwrap().r_from + n;
        } else if up.starts_with("AUTH ") || up == "AUTH" {
            if self.tx_open {
                self.complain(format!("AUTH during a transaction: {line}"));
                self.item(p, Kind::Auth, from, text, Reply::one(503, "AUTH during a transaction"), true);
                return;
            }
            self.mode = Mode::Auth;
            self.a_step = 0;
            self.n_auth += 1;
            self.auth_step(p, Kind::Auth, from, text);
        } else {
            self.complain(format!("unknown command: {line:?}"));
            self.item(p, Kind::Other, from, text, Reply::one(500, "what?"), true);
        }
    }
    fn auth_step(&mut self, p: &mut Pipe, kind: Kind, from: usize, text: Vec<u8>) {
        let step = self.plan.auths.get(self.n_auth - 1).and_then(|a| a.get(self.a_step)).cloned();
        self.a_step += 1;
        match step {
            Some(AStep::Chal(c)) => self.item(p, kind, from, text, Reply::one(334, &c), false),
            Some(AStep::Any(r)) => self.item(p, kind, from, text, r, false),
            Some(AStep::Fin(r)) => {
                self.mode = Mode::Cmd;
                self.item(p, kind, from, text, r, false);
            }
            None => {
                self.mode = Mode::Cmd;
                self.item(p, kind, from, text, Reply::one(235, "authenticated"), false);
            }
        }
    }
    /// The client is gone and everything visible was taken.
    pub fn finish(&mut self, p: &Pipe) {
        if self.mode == Mode::Data {
            self.open_data = Some((self.data_from, p.wire[self.data_from..p.visible].to_vec()));
        } else if self.pos < p.visible && !matches!(self.mode, Mode::Closed | Mode::Tls) {
            self.open_data = None;
        }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    pub fn is_closed(&self) -> bool {
        self.mode == Mode::Closed
    }
}

pub fn default_tx(n: usize) -> Tx {
    Tx { mail: Reply::one(250, &format!("mail {n}")), rcpt: vec![], data: Reply::one(354, &format!("data {n}")), fin: Reply::one(250, &format!("fin {n}")) }
}
