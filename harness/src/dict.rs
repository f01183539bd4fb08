//! Numbers that stand in the library's source, as in the dictionaries of coverage guided fuzzers: sizes, keys, letters,
//! degrees and coefficients near them are generated besides those the generators aim for by themselves.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::path::Path;
use std::sync::OnceLock;

/// What the ordinary generators aim for anyway.
fn usual(v: u64) -> bool {
    v < 12 || matches!(v, 16 | 18 | 20 | 30 | 32 | 64)
}

/// The integer literals of a source text without its comments, strings and tests.
fn literals(text: &str, out: &mut Vec<u64>) {
    let text = text.split("#[cfg(test)]").next().unwrap_or("");
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'/' if b.get(i + 1) == Some(&b'*') => i = text[i..].find("*/").map_or(b.len(), |n| i + n + 2),
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 }
                }
                i += 1
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1
                }
            }
            c if c.is_ascii_digit() => {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1
                }
                let w: String = text[s..i].chars().filter(|c| *c != '_').collect();
                let (digits, radix) = match w.get(..2) {
                    Some("0x") => (&w[2..], 16),
                    Some("0b") => (&w[2..], 2),
                    Some("0o") => (&w[2..], 8),
                    _ => (&w[..], 10),
                };
                let digits = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|x| digits.strip_suffix(x)).unwrap_or(digits);
                if let Ok(v) = u64::from_str_radix(digits, radix) {
                    out.push(v);
                }
            }
            _ => i += 1,
        }
    }
}
fn walk(dir: &Path, out: &mut Vec<u64>) {
    let mut all: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    all.sort();
    for p in all {
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().map_or(false, |e| e == "rs") {
            if let Ok(t) = std::fs::read(&p) {
                literals(&String::from_utf8_lossy(&t).replace(|c: char| !c.is_ascii(), " "), out)
            }
        }
    }
}

/// Values near the literals; those the ordinary generators do not aim for come first and more often.
fn values() -> &'static [u64] {
    static V: OnceLock<Vec<u64>> = OnceLock::new();
    V.get_or_init(|| {
        let mut lits = vec![];
        if let Ok(r) = std::env::var("VERIF_REPO") {
            walk(&Path::new(&r).join("src"), &mut lits);
        }
        lits.extend([8, 10, 64]);
        lits.sort();
        lits.dedup();
        let mut v = vec![];
        for l in lits {
            for _ in 0..if usual(l) { 1 } else { 6 } {
                v.extend([l.saturating_sub(1), l, l.saturating_add(1)]);
            }
            if l < 63 && !usual(l) {
                v.extend([(1 << l) - 1, 1 << l, (1 << l) + 1]);
            }
        }
        v
    })
}

/// A number of the range near a number in the source, or any of the range if there is none.
pub fn near(lo: u64, hi: u64) -> BoxedStrategy<u64> {
    let v: Vec<u64> = values().iter().copied().filter(|x| lo <= *x && *x <= hi).collect();
    if v.is_empty() {
        (lo..=hi).boxed()
    } else {
        proptest::sample::select(v).boxed()
    }
}
pub fn near32(lo: u32, hi: u32) -> BoxedStrategy<u32> {
    near(lo as u64, hi as u64).prop_map(|x| x as u32).boxed()
}

#[test]
fn finds_literals() {
    let mut v = vec![];
    literals("let a1 = 0x1F + 4_093usize; // 77\n\"88\" /* 99 */ f(1u32 << 12) #[cfg(test)] 5", &mut v);
    assert_eq!(v, [31, 4093, 1, 12]);
}
