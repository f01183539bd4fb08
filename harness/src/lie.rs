//! C24-C27: Hall basis dimensions, degree lookup, Hall keys, the shared Hall set. Needs the hooks.

use crate::dict::{near, near32};
use crate::engine::*;
use crate::widths::WIDTHS;
use crate::{dispatch_width, ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::lie::verif::{get_hall_set, DegreeRangeMap, DegreeRangeMapError, HallKey, HallSet, HallSetObject};
use serde::{Deserialize, Serialize};

// ---------- model ----------

/// Numbers of Lyndon words of length 0..=d over n letters: every word is uniquely a power of a rotation of one, so the
/// n^k words of length k are counted by the divisors of k.
fn lyndon_counts(n: u32, d: u32) -> Vec<u128> {
    let mut l: Vec<u128> = vec![0];
    let mut p = 1u128;
    for k in 1..=d {
        p *= n as u128;
        let mut rest = p;
        for j in 1..k {
            if k % j == 0 {
                rest -= j as u128 * l[j as usize];
            }
        }
        assert!(rest % k as u128 == 0);
        l.push(rest / k as u128);
    }
    l
}
/// sizes of the basis up to degree 0..=d
fn sizes(n: u32, d: u32) -> Vec<u128> {
    let mut s = 0;
    lyndon_counts(n, d)
        .into_iter()
        .map(|x| {
            s += x;
            s
        })
        .collect()
}
/// largest degree whose number of words fits a signed 64-bit integer
fn max_degree(n: u32) -> u32 {
    if n == 1 {
        return 300;
    }
    let mut d = 0;
    let mut p = 1u128;
    while p * (n as u128) < 1 << 63 {
        p *= n as u128;
        d += 1;
    }
    d
}

// ---------- C24, C25 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MapCase {
    width: u32,
    /// degrees the table is built for
    new: u32,
    /// later growth
    grow: Vec<u32>,
    /// (degree, offset) or position of the elements to look up
    near: Vec<(u32, i64)>,
    any: Vec<u64>,
}
fn map_strat(_: Tier) -> BoxedStrategy<MapCase> {
    prop_oneof![3 => 1u32..=6, 2 => 1u32..=20, 3 => proptest::sample::select(WIDTHS)]
        .prop_filter("instantiated", |w| WIDTHS.contains(w))
        .prop_flat_map(|w| {
            let m = max_degree(w);
            // degrees beyond 64 exist for one letter only, and cost the library far more than the rest
            let d = || prop_oneof![300 => 0..=m.min(8), 100 => 0..=m.min(64), 20 => near32(0, m.min(64)), 1 => 0..=m];
            (
                Just(w),
                prop_oneof![400 => 0..=m.min(8) + 1, 100 => 0..=m.min(64) + 1, 20 => near32(0, m.min(64) + 1), 1 => 0..=m + 1],
                proptest::collection::vec(d(), 0..4),
                proptest::collection::vec((d(), -2i64..=2), 0..8),
                proptest::collection::vec(prop_oneof![4 => 1u64..100, 4 => any::<u64>(), 1 => near(1, u64::MAX)], 0..6),
            )
        })
        .prop_map(|(width, new, grow, near, any)| MapCase { width, new, grow, near, any })
        .boxed()
}
fn table_is<const N: u32>(m: &DegreeRangeMap<N>, held: u32, what: &str) -> Check {
    let s = sizes(N, held.max(1));
    for d in 0..held {
        match m.get(d) {
            Ok(v) => ensure_eq!(v as u128, s[d as usize], "{}: size of the Hall basis of {} letters up to degree {}", what, N, d),
            Err(_) => return Err(format!("{}: degree {} is not in the table", what, d)),
        }
    }
    for d in [held, held + 1, held + 50, u32::MAX] {
        ensure!(matches!(m.get(d), Err(DegreeRangeMapError::DegreeOutOfBounds)), "{}: degree {} is not reported as out of bounds", what, d);
    }
    Ok(())
}
fn c24_n<const N: u32>(c: &MapCase) -> Check {
    let mut m = DegreeRangeMap::<N>::new(c.new);
    let mut held = c.new;
    table_is(&m, held, "new table")?;
    for g in &c.grow {
        ensure!(m.grow(*g).is_ok(), "growing to degree {} failed", g);
        held = held.max(g + 1);
        table_is(&m, held, "grown table")?;
    }
    Ok(())
}
fn c24_test(c: &MapCase) -> Check {
    dispatch_width!(c.width, c24_n(c))
}
fn lookups<const N: u32>(m: &DegreeRangeMap<N>, c: &MapCase, held: u32, what: &str) -> Check {
    if held == 0 {
        for k in [1u64, 2, u64::MAX] {
            ensure!(matches!(m.find_deg(k), Err(DegreeRangeMapError::MapIsEmpty)), "{}: lookup in an empty table is not reported as empty", what);
        }
        return Ok(());
    }
    let s = sizes(N, held.max(1));
    let last = s[held as usize - 1];
    let mut ks: Vec<u64> = c.any.clone();
    ks.extend(c.any.iter().map(|k| if last > 0 { k % last as u64 + 1 } else { 1 }));
    ks.extend(c.near.iter().map(|(d, o)| (s[(*d).min(held - 1) as usize] as i64).saturating_add(*o).max(1) as u64));
    ks.extend([1, 2, last as u64, (last as u64).saturating_add(1), u64::MAX]);
    for k in ks {
        if k == 0 {
            continue;
        }
        let got = m.find_deg(k);
        if k as u128 > last {
            if let Err(e) = &got {
                ensure!(!e.to_string().is_empty(), "text of the error for element {}", k);
            }
            ensure!(matches!(got, Err(DegreeRangeMapError::DegreeOutOfBounds)), "{}: element {} is beyond the {} of the table but the lookup gives {:?}", what, k, last, got);
        } else {
            let d = (1..held).find(|d| s[*d as usize - 1] < k as u128 && k as u128 <= s[*d as usize]).unwrap();
            match got {
                Ok(g) => ensure_eq!(g, d, "{}: degree of element {} of the Hall basis of {} letters", what, k, N),
                Err(e) => return Err(format!("{}: lookup of element {} fails: {}", what, k, e)),
            }
        }
    }
    Ok(())
}
fn c25_n<const N: u32>(c: &MapCase) -> Check {
    let mut m = DegreeRangeMap::<N>::new(c.new);
    let mut held = c.new;
    lookups(&m, c, held, "new table")?;
    for g in &c.grow {
        let before: Vec<(u64, Option<u32>)> = c.any.iter().map(|k| (*k, m.find_deg(*k).ok())).collect();
        ensure!(m.grow(*g).is_ok(), "growing to degree {} failed", g);
        held = held.max(g + 1);
        lookups(&m, c, held, "grown table")?;
        for (k, d) in before {
            if d.is_some() && k > 0 {
                ensure_eq!(m.find_deg(k).ok(), d, "growing changed the degree of element {}", k);
            }
        }
    }
    Ok(())
}
fn c25_test(c: &MapCase) -> Check {
    dispatch_width!(c.width, c25_n(c))
}
pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "tables over 114 alphabet widths built for up to as many degrees as have a word count below 2^63 and grown up to three times; the oracle counts Lyndon words through the decomposition of words into powers; non-trivial = the table reaches degree 2",
        assumptions: &["the number of words of the degree fits a signed 64-bit integer"],
        subs: vec![Sub { name: "sizes", quick: 200_000, thorough: 4_000_000, always_fork: false, strat: map_strat,
            classify: |c, l| { let top = c.grow.iter().copied().max().unwrap_or(0).max(c.new.saturating_sub(1)); l.hit_if(top >= 6, "reaches degree 6"); l.hit_if(top >= 12, "reaches degree 12"); l.hit_if(!c.grow.is_empty(), "grown"); top >= 2 },
            test: c24_test }.boxed()],
    }
}
pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "tables as for C24 and elements at, just below and just above every boundary between degrees, uniformly inside, and beyond the table, before and after growing; the oracle searches the model sizes linearly; non-trivial = the table reaches degree 2",
        assumptions: &["elements are counted from 1", "the number of words of the degree fits a signed 64-bit integer"],
        subs: vec![Sub { name: "lookup", quick: 200_000, thorough: 4_000_000, always_fork: false, strat: map_strat,
            classify: |c, l| { let top = c.grow.iter().copied().max().unwrap_or(0).max(c.new.saturating_sub(1)); l.hit_if(!c.grow.is_empty(), "grown"); l.hit_if(c.new == 0, "starts empty"); top >= 2 },
            test: c25_test }.boxed()],
    }
}

// ---------- C26 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HallCase {
    width: u32,
    letter: u32,
}
fn c26_n<const N: u32>(c: &HallCase) -> Check {
    let l = c.letter;
    let k = HallKey::<N>::from_letter(l);
    ensure_eq!(k.to_index(), l as usize - 1, "index of letter {}", l);
    ensure_eq!(k.get_lparent(), 0, "left parent of letter {}", l);
    ensure_eq!(k.get_rparent(), l, "right parent of letter {}", l);
    ensure_eq!(k.size(), 1, "size of letter {}", l);
    ensure!(k.is_valid(), "letter {} is not valid", l);
    ensure!(k.is_letter(), "letter {} is not a letter", l);
    ensure_eq!(format!("{}", k), l.to_string(), "text of letter {}", l);
    ensure!(!format!("{:?}", k).is_empty(), "debug text of letter {}", l);
    let z = HallKey::<N>::new();
    ensure!(!z.is_valid(), "the default key is valid");
    ensure!(!z.is_letter(), "the default key is a letter");
    Ok(())
}
/// a key of any element: index, parents and size in fields of 18, 18, 18 and 10 bits
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartsCase {
    width: u32,
    key: u32,
    l: u32,
    r: u32,
    size: u32,
    other: u8,
    bit: u8,
}
fn parts_n<const N: u32>(c: &PartsCase) -> Check {
    let see = |p: &[u32; 4]| -> Result<String, String> {
        let k = HallKey::<N>::verif_from_parts(p[0] as u64, p[1] as u64, p[2] as u64, p[3]);
        let what = format!("a key made of element {}, parents {} and {}, size {}", p[0], p[1], p[2], p[3]);
        if p[0] > 0 {
            ensure_eq!(k.to_index(), p[0] as usize - 1, "index of {}", what);
        }
        ensure_eq!(k.get_lparent(), p[1], "left parent of {}", what);
        ensure_eq!(k.get_rparent(), p[2], "right parent of {}", what);
        ensure_eq!(k.size(), p[3], "size of {}", what);
        ensure_eq!(k.is_valid(), p.iter().any(|x| *x != 0), "whether {} is valid", what);
        ensure_eq!(k.is_letter(), p[3] == 1, "whether {} is a letter", what);
        if p[3] > 1 {
            ensure_eq!(format!("{}", k), format!("[{}, {}]", p[1], p[2]), "text of {}", what);
        }
        Ok(format!("{:?}", k))
    };
    let p = [c.key, c.l, c.r, c.size];
    let text = see(&p)?;
    // one bit of one part changed
    let mut q = p;
    let i = c.other as usize % 4;
    q[i] ^= 1 << (c.bit as u32 % if i == 3 { 10 } else { 18 });
    let other = see(&q)?;
    ensure!(text != other, "the keys made of {:?} and of {:?} have the same debug text {}", p, q, text);
    Ok(())
}
fn parts_test(c: &PartsCase) -> Check {
    dispatch_width!(c.width, parts_n(c))
}
fn c26_test(c: &HallCase) -> Check {
    dispatch_width!(c.width, c26_n(c))
}
pub fn c26() -> Property {
    Property {
        id: "C26",
        rule: "letters (uniform, small, at powers of two and at both ends) of 114 alphabet widths, up to 2^18-1, the largest a Hall key can hold; and keys put together from any element number, parents and size that fit their fields, and the same with one bit changed; non-trivial = the letter is larger than one, or both parents are present",
        assumptions: &["the letter belongs to the alphabet and is below 2^18", "keys of brackets are put together through the verification hook"],
        subs: vec![Sub { name: "letters", quick: 100_000, thorough: 2_000_000, always_fork: false,
            strat: |_| proptest::sample::select(WIDTHS).prop_flat_map(|w| {
                let top = w.min((1 << 18) - 1);
                let l = prop_oneof![1 => near32(1, top), 2 => 1..=top, 1 => 1..=top.min(10), 1 => (0u32..18, -1i64..=1).prop_map(move |(b, o)| (((1i64 << b) + o).max(1) as u32).min(top)), 1 => (0u32..3).prop_map(move |x| top.saturating_sub(x).max(1))];
                (Just(w), l)
            }).prop_map(|(width, letter)| HallCase { width, letter }).boxed(),
            classify: |c, l| { l.hit_if(c.letter >= 1 << 17, "uses the top bit of the field"); l.hit_if(c.letter == c.width, "last letter"); c.letter > 1 },
            test: c26_test }.boxed(),
            Sub { name: "parts", quick: 100_000, thorough: 2_000_000, always_fork: false,
                strat: |_| {
                    let f = |bits: u32| prop_oneof![1 => near32(0, (1 << bits) - 1), 2 => 0u32..1 << bits, 1 => Just((1u32 << bits) - 1), 1 => Just(0u32), 1 => (0..bits).prop_map(|b| 1u32 << b), 1 => 0u32..5];
                    (proptest::sample::select(WIDTHS), f(18), f(18), f(18), f(10), 0u8..4, 0u8..18)
                        .prop_map(|(width, key, l, r, size, other, bit)| PartsCase { width, key, l, r, size, other, bit }).boxed()
                },
                classify: |c, l| { l.hit_if(c.size == 1, "letter size"); l.hit_if(c.key == (1 << 18) - 1 || c.l == (1 << 18) - 1 || c.r == (1 << 18) - 1 || c.size == 1023, "full field"); c.l > 0 && c.r > 0 },
                test: parts_test }.boxed()],
    }
}

// ---------- C27 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetCase {
    threads: Vec<Vec<(u32, Option<u32>)>>,
    probe: Vec<u64>,
}
const SET_WIDTHS: &[u32] = &[1, 2, 3, 4, 5, 6, 8, 10, 11, 15, 20, 21, 100, 256, 4294967295];
/// widths that agree with 2 (or 1) modulo a power of two
const LIKE_TWO: &[u32] = &[1, 2, 10, 18, 33, 65, 130, 257, 258, 513, 1025, 4097, 4098, 65537, 65538, 1048578, 16777218];
fn request<const N: u32>(pre: Option<u32>) -> HallSetObject {
    get_hall_set::<N>(pre)
}
fn usable(hs: &HallSetObject, n: u32, probe: &[u64]) -> Check {
    let mut keys: Vec<u64> = probe.to_vec();
    keys.extend([0, 1, 2, n as u64 - 1, n as u64, n as u64 + 1, u64::MAX]);
    // numbers that agree with a letter modulo a power of two
    for b in 1..64 {
        keys.extend([1 + (1u64 << b), (n as u64).wrapping_add(1 << b), 1u64 << b, (1u64 << b) - 1]);
    }
    for k in keys {
        match hs.is_letter(k) {
            Ok(b) => ensure_eq!(b, 1 <= k && k <= n as u64, "whether {} is a letter of the Hall set of {} letters", k, n),
            Err(e) => return Err(format!("is_letter({}) fails: {}", k, e)),
        }
    }
    let mut at = 0usize;
    let l = lyndon_counts(n, max_degree(n));
    let mut d = 0;
    loop {
        match hs.degree_range(d) {
            Ok((a, b)) => {
                ensure_eq!(a, at, "start of range {} of the Hall set of {} letters", d, n);
                if d as usize + 1 >= l.len() {
                    break;
                }
                ensure!(b >= a && (b - a) as u128 == l[d as usize + 1], "range {} of the Hall set of {} letters is {}..{}, not {} long", d, n, a, b, l[d as usize + 1]);
                at = b;
            }
            Err(_) => break,
        }
        d += 1;
    }
    ensure!(d >= 1, "the Hall set of {} letters has no degree range", n);
    // Elements no finite set of this size holds: an error value.
    for k in [u64::MAX, u64::MAX / 2, 1 << 63, 1 << 48, 1 << 40, (1 << 40) + 1] {
        if let Err(e) = hs.key_details(k) {
            ensure!(!e.to_string().is_empty() && !format!("{:?}", e).is_empty(), "text of the error for element {}", k);
        }
        ensure!(hs.key_details(k).is_err(), "details of element {} of the Hall set of {} letters", k, n);
        ensure!(hs.lparent_details(k).is_err(), "left parent of element {} of the Hall set of {} letters", k, n);
        ensure!(hs.rparent_details(k).is_err(), "right parent of element {} of the Hall set of {} letters", k, n);
    }
    // Any element: some answer, without a crash.
    for k in probe.iter().copied().chain(0..4) {
        let _ = hs.key_details(k);
        let _ = hs.lparent_details(k);
        let _ = hs.rparent_details(k);
    }
    ensure!(hs.degree_range(u32::MAX).is_err(), "degree range of the largest degree");
    Ok(())
}
fn c27_test(c: &SetCase) -> Check {
    let seen: std::sync::Mutex<std::collections::HashMap<u32, HallSetObject>> = Default::default();
    let run = |reqs: &Vec<(u32, Option<u32>)>| -> Check {
        for (w, pre) in reqs {
            let hs = dispatch_width!(*w, request(*pre));
            {
                let mut seen = seen.lock().unwrap_or_else(|e| e.into_inner());
                let first = seen.entry(*w).or_insert_with(|| hs.clone());
                ensure!(first.verif_same(&hs), "two requests for the Hall set of {} letters gave different sets", w);
            }
            usable(&hs, *w, &c.probe)?;
        }
        Ok(())
    };
    if c.threads.len() == 1 {
        return run(&c.threads[0]);
    }
    let gate = std::sync::Barrier::new(c.threads.len());
    let out: Vec<Check> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .map(|t| {
                let (gate, run) = (&gate, &run);
                s.spawn(move || {
                    gate.wait();
                    guarded(|| run(t))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for r in out {
        r?;
    }
    // and again afterwards
    run(&c.threads[0])
}
pub fn c27() -> Property {
    Property {
        id: "C27",
        rule: "one to six threads, released together, each making up to five requests over thirty widths (several of them equal modulo powers of two) with and without an initial degree, every case in a fresh process so that the shared cache starts empty; a case whose threads are all blocked for good is a failure; non-trivial = at least two requests",
        assumptions: &["initial degrees up to 300", "thread interleavings are those the operating system produces"],
        subs: vec![Sub { name: "requests", quick: 20_000, thorough: 300_000, always_fork: true,
            strat: |_| {
                let w = || prop_oneof![2 => Just(2u32), 2 => 1u32..=5, 3 => proptest::sample::select(SET_WIDTHS), 3 => proptest::sample::select(LIKE_TWO)];
                let req = (w(), prop_oneof![Just(None), (0u32..5).prop_map(Some), (0u32..300).prop_map(Some), near32(0, 300).prop_map(Some)]);
                let seq = proptest::collection::vec(req, 1..6);
                (prop_oneof![2 => proptest::collection::vec(seq.clone(), 1..2), 3 => proptest::collection::vec(seq, 2..7)],
                 proptest::collection::vec(prop_oneof![4 => 0u64..30, 4 => any::<u64>(), 1 => near(0, u64::MAX)], 0..5))
                    .prop_map(|(threads, probe)| SetCase { threads, probe }).boxed()
            },
            classify: |c, l| { l.hit_if(c.threads.len() > 1, "several threads"); let n: usize = c.threads.iter().map(|t| t.len()).sum(); n >= 2 },
            test: c27_test }.boxed()],
    }
}
