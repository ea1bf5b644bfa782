//! Words and numbers taken from the client's source code by build.rs, as ingredients of workloads.
use crate::rng::Rng;

include!(concat!(env!("OUT_DIR"), "/dict.rs"));

/// A word of the source code
pub fn word(rng: &mut Rng) -> &'static [u8] {
    if !NEW_WORDS.is_empty() && rng.below(3) != 0 {
        return rng.pick(NEW_WORDS);
    }
    if WORDS.is_empty() {
        return b"x";
    }
    rng.pick(WORDS)
}
/// The same as text
pub fn word_text(rng: &mut Rng) -> String {
    let w = String::from_utf8_lossy(word(rng)).into_owned();
    match rng.below(6) {
        0 => w.to_ascii_uppercase(),
        1 => w.to_ascii_lowercase(),
        _ => w,
    }
}
/// A text with such a word, without CR or LF
pub fn line(rng: &mut Rng) -> String {
    let w = word_text(rng).replace(['\r', '\n'], "");
    match rng.below(8) {
        0 => format!("{w}{w}"),
        1 => format!("x {w}"),
        2 => format!("{w} x"),
        3 => format!("{w}\u{e4}\u{1F600}"),
        4 => format!("4.7.1 {w} {}", rng.below(100)),
        5 => {
            let b = line_word(rng);
            format!("{w} {b}")
        }
        _ => w,
    }
}
fn line_word(rng: &mut Rng) -> String {
    word_text(rng).replace(['\r', '\n'], "")
}
/// A number of the source code, or one next to it, or a multiple, if there is one of at most `max`
pub fn number(rng: &mut Rng, max: usize) -> Option<usize> {
    let from = if !NEW_NUMBERS.is_empty() && rng.below(3) != 0 { NEW_NUMBERS } else { NUMBERS };
    if from.is_empty() {
        return None;
    }
    for _ in 0..6 {
        let n = *rng.pick(from) as usize;
        let n = match rng.below(10) {
            0 | 1 => n - 1,
            2 | 3 => n + 1,
            4 => n + rng.below(n.min(8)),
            5 => n.saturating_mul(rng.range(2, 4)),
            6 => n + 2,
            7 => n.saturating_sub(2),
            _ => n,
        };
        if n <= max {
            return Some(n);
        }
    }
    None
}
