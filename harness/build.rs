//! Collects the words and numbers the client's source code mentions, so that workloads can use them: a branch
//! which needs a certain word or size is then met, whatever it is. This steers the inputs only, no verdict.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

fn sources(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

#[derive(Default)]
struct Dict {
    words: BTreeSet<Vec<u8>>,
    numbers: BTreeSet<u64>,
}

/// The bytes of a literal without its quotes, escapes resolved
fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'\\' || i + 1 >= s.len() {
            o.push(s[i]);
            i += 1;
            continue;
        }
        i += 2;
        match s[i - 1] {
            b'n' => o.push(b'\n'),
            b'r' => o.push(b'\r'),
            b't' => o.push(b'\t'),
            b'0' => o.push(0),
            b'x' => {
                if let Some(n) = s.get(i..i + 2).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                    o.push(n);
                }
                i += 2;
            }
            b'u' => {
                let end = s[i..].iter().position(|c| *c == b'}').map_or(s.len(), |k| i + k);
                let hex: String = s[i..end].iter().map(|c| *c as char).filter(|c| c.is_ascii_hexdigit()).collect();
                if let Some(c) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                    o.extend(c.to_string().bytes());
                }
                i = end + 1;
            }
            b'\n' => {
                while i < s.len() && s[i].is_ascii_whitespace() {
                    i += 1;
                }
            }
            c => o.push(c),
        }
    }
    o
}

impl Dict {
    fn word(&mut self, s: Vec<u8>) {
        // What is between the places of a format string
        let mut part = vec![];
        let mut depth = 0;
        let mut parts = vec![];
        for c in s.iter().copied() {
            match c {
                b'{' => {
                    depth += 1;
                    parts.push(std::mem::take(&mut part));
                }
                b'}' if depth > 0 => depth -= 1,
                _ if depth > 0 => {}
                c => part.push(c),
            }
        }
        parts.push(part);
        parts.push(s);
        for p in parts {
            if !p.is_empty() && p.len() <= 200 {
                self.words.insert(p);
            }
        }
    }
    fn scan(&mut self, s: &[u8]) {
        let mut i = 0;
        let mut last: [Option<u64>; 2] = [None, None]; // the number before an operator, and the one before this token
        let mut op = 0u8;
        let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        while i < s.len() {
            let c = s[i];
            if s[i..].starts_with(b"//") {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            } else if s[i..].starts_with(b"/*") {
                i += 2;
                while i < s.len() && !s[i..].starts_with(b"*/") {
                    i += 1;
                }
                i += 2;
            } else if c == b'"' {
                let start = i + 1;
                i = start;
                while i < s.len() && s[i] != b'"' {
                    i += if s[i] == b'\\' { 2 } else { 1 };
                }
                self.word(unescape(&s[start..i.min(s.len())]));
                i += 1;
                last = [None, None];
            } else if (c == b'r' || c == b'b') && (i == 0 || !ident(s[i - 1])) && {
                let t = &s[i..];
                let t = t.strip_prefix(b"br").or(t.strip_prefix(b"r")).unwrap_or(b"");
                let h = t.iter().take_while(|c| **c == b'#').count();
                t.get(h) == Some(&b'"')
            } {
                while s[i] != b'#' && s[i] != b'"' {
                    i += 1;
                }
                let h = s[i..].iter().take_while(|c| **c == b'#').count();
                let mut end = vec![b'"'];
                end.resize(h + 1, b'#');
                let start = i + h + 1;
                i = start;
                while i < s.len() && !s[i..].starts_with(&end) {
                    i += 1;
                }
                self.word(s[start..i.min(s.len())].to_vec());
                i += h + 1;
            } else if c == b'\'' {
                // A character, or a lifetime
                let end = if s.get(i + 1) == Some(&b'\\') { s[i + 3..].iter().position(|c| *c == b'\'').map(|k| i + 3 + k) } else { (2..=5).map(|k| i + k).find(|k| s.get(*k) == Some(&b'\'')) };
                match end {
                    Some(e) if s.get(i + 1) == Some(&b'\\') || std::str::from_utf8(&s[i + 1..e]).map_or(false, |t| t.chars().count() == 1) => {
                        self.word(unescape(&s[i + 1..e]));
                        i = e + 1;
                    }
                    _ => i += 1,
                }
            } else if c.is_ascii_digit() && (i == 0 || !ident(s[i - 1])) {
                let start = i;
                while i < s.len() && ident(s[i]) {
                    i += 1;
                }
                let t: String = s[start..i].iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
                let n = match t.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(&h.chars().take_while(|c| c.is_ascii_hexdigit()).collect::<String>(), 16),
                    None => t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse(),
                };
                if let Ok(n) = n {
                    self.numbers.insert(n);
                    let both = match (op, last[0]) {
                        (b'<', Some(a)) if n < 40 => a.checked_shl(n as u32),
                        (b'*', Some(a)) => a.checked_mul(n),
                        (b'+', Some(a)) => a.checked_add(n),
                        _ => None,
                    };
                    last = [Some(both.unwrap_or(n)), Some(n)];
                    op = 0;
                    if let Some(b) = both {
                        self.numbers.insert(b);
                    }
                }
                continue;
            } else if c.is_ascii_whitespace() {
                i += 1;
            } else if ident(c) {
                while i < s.len() && ident(s[i]) {
                    i += 1;
                }
                last = [None, None];
                op = 0;
            } else {
                op = if s[i..].starts_with(b"<<") {
                    i += 1;
                    b'<'
                } else {
                    c
                };
                if !matches!(op, b'<' | b'*' | b'+') {
                    last = [None, None];
                }
                i += 1;
            }
        }
    }
}

fn hex(w: &[u8]) -> String {
    w.iter().map(|b| format!("{b:02x}")).collect()
}

fn main() {
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let toml = std::fs::read_to_string(here.join("Cargo.toml")).unwrap();
    let path = toml.lines().find(|l| l.starts_with("async-smtp")).and_then(|l| l.split("path = \"").nth(1)).and_then(|l| l.split('"').next()).expect("path of the client").to_string();
    let src = here.join(path).join("src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=known-words.txt");
    let mut files = vec![];
    sources(&src, &mut files);
    files.sort();
    let mut d = Dict::default();
    for f in &files {
        let Ok(b) = std::fs::read(f) else { continue };
        // The tests come last in each file.
        let text = String::from_utf8_lossy(&b);
        let end = text.find("#[cfg(test)]\nmod ").unwrap_or(text.len());
        d.scan(text[..end].as_bytes());
    }
    d.numbers.retain(|n| (2..=1 << 27).contains(n));
    // What the known code says comes up less often than what is new in it.
    let known: BTreeSet<String> = std::fs::read_to_string(here.join("known-words.txt")).unwrap_or_default().lines().map(String::from).collect();
    let words: Vec<&Vec<u8>> = d.words.iter().collect();
    let list = |v: &[&Vec<u8>]| v.iter().map(|w| format!("&{:?}", w)).collect::<Vec<_>>().join(", ");
    let new_words: Vec<&Vec<u8>> = words.iter().copied().filter(|w| !known.contains(&hex(w))).collect();
    let new_numbers: Vec<u64> = d.numbers.iter().copied().filter(|n| !known.contains(&format!("#{n}"))).collect();
    let numbers: Vec<u64> = d.numbers.iter().copied().collect();
    let out = format!(
        "pub static WORDS: &[&[u8]] = &[{}];\npub static NEW_WORDS: &[&[u8]] = &[{}];\npub static NUMBERS: &[u64] = &{:?};\npub static NEW_NUMBERS: &[u64] = &{:?};\n",
        list(&words),
        list(&new_words),
        numbers,
        new_numbers
    );
    let dir = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(dir.join("dict.rs"), out).unwrap();
    let all: Vec<String> = words.iter().map(|w| hex(w)).chain(numbers.iter().map(|n| format!("#{n}"))).collect();
    std::fs::write(dir.join("words.txt"), all.join("\n") + "\n").unwrap();
}
