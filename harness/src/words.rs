//! C01-C05: tensor words, numbering, order, iteration, text.

use crate::dict::{near, near32};
use crate::engine::*;
use crate::scal::{Fp, Scal};
use crate::widths::WIDTHS;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::basis::{BasisWithDegree, OrderedBasis, OrderedBasisWithDegree};
use rustyalgebra::coefficients::CoefficientField;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use rustyalgebra::vector::SimpleDenseVector;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

// ---------- reference model ----------

pub type Word = Vec<u32>;

pub fn m_index(w: &[u32], n: u32) -> u128 {
    let mut r = 0u128;
    for l in w {
        r = r * n as u128 + *l as u128;
    }
    r
}
/// number of words shorter than d
pub fn m_start(d: u32, n: u32) -> u128 {
    let mut s = 0u128;
    let mut p = 1u128;
    for _ in 0..d {
        s = s.saturating_add(p);
        p = p.saturating_mul(n as u128);
    }
    s
}
pub fn m_degree(idx: u128, n: u32) -> u32 {
    let mut d = 0;
    while m_start(d + 1, n) <= idx {
        d += 1;
    }
    d
}
pub fn m_word(idx: u128, n: u32) -> Word {
    let d = m_degree(idx, n);
    let mut r = idx - m_start(d, n);
    let mut w = vec![0; d as usize];
    for i in (0..d as usize).rev() {
        w[i] = (r % n as u128) as u32 + 1;
        r /= n as u128;
    }
    w
}
pub fn m_succ(w: &[u32], n: u32) -> Word {
    let mut v = w.to_vec();
    for i in (0..v.len()).rev() {
        if v[i] < n {
            v[i] += 1;
            return v;
        }
        v[i] = 1;
    }
    v.insert(0, 1);
    v
}
pub fn m_text(w: &[u32]) -> String {
    let l: Vec<String> = w.iter().rev().map(|x| x.to_string()).collect();
    format!("({})", l.join(", "))
}

// ---------- generators ----------

pub fn depth_of<const N: u32>() -> u32 {
    TensorKey::<N>::max_depth().min(70)
}
pub fn max_depth(w: u32) -> u32 {
    dispatch_width!(w, depth_of())
}

pub fn width() -> BoxedStrategy<u32> {
    prop_oneof![
        5 => 1u32..=7,
        3 => 8u32..=21,
        6 => proptest::sample::select(WIDTHS.to_vec()),
    ]
    .boxed()
}

fn letter(n: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        3 => Just(1u32),
        3 => Just(n),
        1 => Just((n - 1).max(1)),
        1 => Just(2u32.min(n)),
        5 => 1u32..=n,
        1 => near32(1, n),
        // one bit, or all below it, set in the stored letter
        1 => (0u32..32, any::<bool>()).prop_map(move |(b, low)| ((if low { (1u64 << b) - 1 } else { 1u64 << b }) % n as u64) as u32 + 1),
    ]
    .boxed()
}

fn len(maxd: u32) -> BoxedStrategy<usize> {
    let m = maxd as usize;
    prop_oneof![
        3 => 0usize..=m.min(4),
        4 => 0usize..=m,
        2 => Just(m),
        1 => Just(m.saturating_sub(1)),
        1 => near(0, m as u64).prop_map(|x| x as usize),
    ]
    .boxed()
}

pub fn word(n: u32) -> BoxedStrategy<Word> {
    word_upto(n, max_depth(n))
}
pub fn word_upto(n: u32, maxd: u32) -> BoxedStrategy<Word> {
    prop_oneof![
        6 => len(maxd).prop_flat_map(move |l| proptest::collection::vec(letter(n), l)),
        // constant words with one odd letter
        2 => (len(maxd), letter(n), letter(n), any::<prop::sample::Index>()).prop_map(|(l, a, b, i)| {
            let mut w = vec![a; l];
            if l > 0 { let k = i.index(l); w[k] = b; }
            w
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    w: u32,
    word: Word,
    cuts: Vec<usize>,
}
fn one(_: Tier) -> BoxedStrategy<One> {
    width()
        .prop_flat_map(|w| {
            (Just(w), word(w), proptest::collection::vec(any::<prop::sample::Index>(), 0..5)).prop_map(|(w, word, c)| {
                let mut cuts: Vec<usize> = c.into_iter().map(|i| i.index(word.len() + 1)).collect();
                cuts.sort();
                One { w, word, cuts }
            })
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Two {
    w: u32,
    a: Word,
    b: Word,
}
/// b is independent of a, or a near miss of a.
fn related(w: u32, a: Word) -> BoxedStrategy<Word> {
    let md = max_depth(w) as usize;
    let (a1, a2, a3, a4, a5, a6, a7) = (a.clone(), a.clone(), a.clone(), a.clone(), a.clone(), a.clone(), a.clone());
    prop_oneof![
        3 => word(w),
        1 => Just(a),
        // one letter changed
        4 => (any::<prop::sample::Index>(), letter(w)).prop_map(move |(i, l)| {
            let mut b = a1.clone();
            if !b.is_empty() { let k = i.index(b.len()); b[k] = l; }
            b
        }),
        // one bit of one stored letter changed
        3 => (any::<prop::sample::Index>(), 0u32..32 - (w - 1).leading_zeros().min(31)).prop_map(move |(i, bit)| {
            let mut b = a7.clone();
            if !b.is_empty() {
                let k = i.index(b.len());
                let l = (b[k] - 1) ^ (1 << bit);
                if l < w { b[k] = l + 1; }
            }
            b
        }),
        // first letter dropped / 1 prepended (same packed bits)
        2 => Just({ let mut b = a2; if b.len() < md { b.insert(0, 1) } b }),
        1 => Just({ let mut b = a3; if !b.is_empty() { b.remove(0); } b }),
        // last letter dropped / letter appended
        1 => Just({ let mut b = a4; b.pop(); b }),
        1 => letter(w).prop_map(move |l| { let mut b = a5.clone(); if b.len() < md { b.push(l) } b }),
        // two letters swapped
        1 => (any::<prop::sample::Index>(), any::<prop::sample::Index>()).prop_map(move |(i, j)| {
            let mut b = a6.clone();
            if !b.is_empty() { let n = b.len(); b.swap(i.index(n), j.index(n)); }
            b
        }),
    ]
    .boxed()
}
fn two(_: Tier) -> BoxedStrategy<Two> {
    width()
        .prop_flat_map(|w| word(w).prop_flat_map(move |a| related(w, a.clone()).prop_map(move |b| Two { w, a: a.clone(), b })))
        .boxed()
}

fn word_labels(l: &mut Labels, w: u32, word: &[u32]) {
    l.hit_if(word.len() as u32 == max_depth(w), "maximum depth word");
    l.hit_if(word.is_empty(), "empty word");
    l.hit_if(w.is_power_of_two(), "width is a power of two");
    l.hit_if(w > 64, "width above 64");
    l.hit_if(word.len() >= 2, "two or more letters");
}

// ---------- C01 ----------

pub fn key<const N: u32>(w: &[u32]) -> TensorKey<N> {
    TensorKey::<N>::from_letters(w)
}

pub fn spells<const N: u32>(k: &TensorKey<N>, w: &[u32], what: &str) -> Check {
    ensure_eq!(k.size() as usize, w.len(), "{}: size", what);
    for i in 0..w.len() {
        ensure_eq!(k.get_letter(i as u32), w[w.len() - 1 - i], "{}: letter {} from the right of {:?}", what, i, w);
    }
    let mut rev = w.to_vec();
    rev.reverse();
    ensure_eq!(k.to_letters(), rev, "{}: letter list (last letter first) of {:?}", what, w);
    #[cfg(feature = "hooks")]
    {
        let fwd: Vec<u32> = k.verif_letters().take(200).collect();
        ensure_eq!(fwd, w.to_vec(), "{}: forward iteration", what);
    }
    Ok(())
}

fn build<const N: u32>(c: &One) -> Check {
    let w = &c.word;
    let k = key::<N>(w);
    spells(&k, w, "from_letters")?;
    ensure!(k == k.clone(), "a key differs from its clone");
    // letter by letter from the right
    let mut p = TensorKey::<N>::new();
    for (i, l) in w.iter().rev().enumerate() {
        p.push_front(*l);
        spells(&p, &w[w.len() - 1 - i..], "push_front")?;
    }
    ensure!(p == k, "push_front built key differs from from_letters for {:?}", w);
    // concatenation of pieces
    let mut q = TensorKey::<N>::new();
    let mut at = 0;
    for cut in c.cuts.iter().cloned().chain(std::iter::once(w.len())) {
        let cut = cut.clamp(at, w.len());
        q = q.concatenate(&key::<N>(&w[at..cut]));
        spells(&q, &w[..cut], "concatenate")?;
        at = cut;
    }
    ensure!(q == k, "concatenated key differs from from_letters for {:?}", w);
    // right to left, letter by letter concatenation
    let mut r = TensorKey::<N>::new();
    for l in w.iter().rev() {
        let one = TensorKey::<N>::from_letter(*l);
        spells(&one, &[*l], "from_letter")?;
        r = one.concatenate(&r);
    }
    spells(&r, w, "letterwise concatenation")?;
    ensure!(r == k, "letterwise concatenated key differs from from_letters for {:?}", w);
    ensure!(k.as_ref() == &k, "as_ref");
    Ok(())
}

fn pair_eq<const N: u32>(c: &Two) -> Check {
    let (a, b) = (key::<N>(&c.a), key::<N>(&c.b));
    ensure_eq!(a == b, c.a == c.b, "equality of keys for {:?} and {:?}", c.a, c.b);
    ensure_eq!(b == a, c.a == c.b, "equality of keys for {:?} and {:?}", c.b, c.a);
    ensure_eq!(a != b, c.a != c.b, "inequality of keys for {:?} and {:?}", c.a, c.b);
    if c.a.len() + c.b.len() <= max_depth(c.w) as usize {
        let mut w = c.a.clone();
        w.extend(&c.b);
        let k = a.concatenate(&b);
        spells(&k, &w, "concatenate")?;
        ensure!(k == key::<N>(&w), "concatenation of {:?} and {:?} differs from the word", c.a, c.b);
    }
    spells(&a, &c.a, "left operand afterwards")?;
    spells(&b, &c.b, "right operand afterwards")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KOp {
    Push(u32),
    ConcatRight(Word),
    ConcatLeft(Word),
    Rebuild,
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KHist {
    w: u32,
    ops: Vec<KOp>,
}
fn khist(_: Tier) -> BoxedStrategy<KHist> {
    width()
        .prop_flat_map(|w| {
            let md = max_depth(w);
            let short = word_upto(w, (md / 3).max(1));
            let op = prop_oneof![
                6 => letter(w).prop_map(KOp::Push),
                3 => short.clone().prop_map(KOp::ConcatRight),
                3 => short.prop_map(KOp::ConcatLeft),
                1 => Just(KOp::Rebuild),
                1 => Just(KOp::Clear),
            ];
            proptest::collection::vec(op, 1..40).prop_map(move |ops| KHist { w, ops })
        })
        .boxed()
}
fn kmodel(c: &KHist, mut f: impl FnMut(&KOp, &Word) -> Check) -> Check {
    let md = max_depth(c.w) as usize;
    let mut m: Word = vec![];
    for op in &c.ops {
        match op {
            KOp::Push(l) if m.len() < md => m.insert(0, *l),
            KOp::ConcatRight(w) if m.len() + w.len() <= md => m.extend(w),
            KOp::ConcatLeft(w) if m.len() + w.len() <= md => {
                let mut n = w.clone();
                n.extend(&m);
                m = n;
            }
            KOp::Rebuild => {}
            KOp::Clear => m.clear(),
            _ => continue, // would exceed the maximum depth
        }
        f(op, &m)?;
    }
    Ok(())
}
fn khist_run<const N: u32>(c: &KHist) -> Check {
    let mut k = TensorKey::<N>::new();
    kmodel(c, |op, m| {
        match op {
            KOp::Push(l) => {
                k.push_front(*l);
            }
            KOp::ConcatRight(w) => k = k.concatenate(&key::<N>(w)),
            KOp::ConcatLeft(w) => k = key::<N>(w).concatenate(&k),
            KOp::Rebuild => {
                let mut l = k.to_letters();
                l.reverse();
                k = key::<N>(&l);
            }
            KOp::Clear => k = TensorKey::<N>::new(),
        }
        spells(&k, m, "after the last operation")?;
        ensure!(k == key::<N>(m), "history built key differs from from_letters for {:?}", m);
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Over {
    w: u32,
    a: Word,
    b: Word,
}
fn over(_: Tier) -> BoxedStrategy<Over> {
    width()
        .prop_flat_map(|w| {
            let md = max_depth(w) as usize;
            // a ++ b is longer than the maximum depth by at least one letter
            (0..=md).prop_flat_map(move |la| {
                let lo = md - la + 1;
                let hi = md.max(lo);
                (
                    proptest::collection::vec(letter(w), la),
                    (lo..=hi).prop_flat_map(move |lb| proptest::collection::vec(letter(w), lb)),
                )
                    .prop_map(move |(a, b)| Over { w, a, b })
            })
        })
        .boxed()
}
fn over_run<const N: u32>(c: &Over) -> Check {
    let md = max_depth(c.w) as usize;
    let mut w = c.a.clone();
    w.extend(&c.b);
    ensure!(panics(|| key::<N>(&w)), "a word of {} letters (maximum depth {}) was accepted", w.len(), md);
    ensure!(
        panics(|| {
            let mut k = TensorKey::<N>::new();
            for l in w.iter().rev() {
                k.push_front(*l);
            }
            k
        }),
        "prepending {} letters one at a time (maximum depth {}) was accepted",
        w.len(),
        md
    );
    // 64 bits hold that many letters of as many binary digits as the width has, beside a count of them
    let digits = 32 - N.leading_zeros();
    let room = (64 - (63 / digits).ilog2()) / digits;
    ensure!(md as u32 >= room, "words over {} letters end at length {}, though {} letters fit the key", N, md, room);
    if c.b.len() <= md {
        let (a, b) = (key::<N>(&c.a), key::<N>(&c.b));
        ensure!(
            panics(|| a.concatenate(&b)),
            "concatenating words of {} and {} letters (maximum depth {}) was accepted",
            c.a.len(),
            c.b.len(),
            md
        );
    }
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "width from 114 instantiated widths (weighted to small widths and powers of two), words of every length up to the maximum depth with letters weighted to 1 and N; non-trivial = the word (or pair, history, over-long word) has at least two letters in all",
        assumptions: &["letters are in 1..=width; alphabet widths outside the instantiated list behave like their neighbours"],
        subs: vec![
            Sub { name: "build", quick: 200_000, thorough: 6_000_000, always_fork: false, strat: one,
                classify: |c, l| { word_labels(l, c.w, &c.word); l.hit_if(c.cuts.len() > 1, "several pieces"); c.word.len() >= 2 },
                test: |c| dispatch_width!(c.w, build(c)) }.boxed(),
            Sub { name: "pairs", quick: 200_000, thorough: 6_000_000, always_fork: false, strat: two,
                classify: |c, l| { word_labels(l, c.w, &c.a); l.hit_if(c.a == c.b, "equal words"); l.hit_if(c.a.len() != c.b.len(), "different lengths"); c.a.len() + c.b.len() >= 2 },
                test: |c| dispatch_width!(c.w, pair_eq(c)) }.boxed(),
            Sub { name: "history", quick: 60_000, thorough: 2_000_000, always_fork: false, strat: khist,
                classify: |c, l| { let mut m = 0; let _ = kmodel(c, |_, w| { m = m.max(w.len()); Ok(()) }); l.hit_if(m as u32 == max_depth(c.w), "reached maximum depth"); m >= 2 },
                test: |c| dispatch_width!(c.w, khist_run(c)) }.boxed(),
            Sub { name: "overlong", quick: 20_000, thorough: 400_000, always_fork: false, strat: over,
                classify: |c, l| { l.hit_if((c.a.len() + c.b.len()) as u32 == max_depth(c.w) + 1, "one letter too long"); c.a.len() + c.b.len() >= 2 },
                test: |c| dispatch_width!(c.w, over_run(c)) }.boxed(),
        ],
    }
}

// ---------- C02 ----------

fn check_index<const N: u32>(w: &[u32]) -> Check {
    let k = key::<N>(w);
    let m = m_index(w, N);
    let i = TensorBasis::<N>::key_to_index(&k);
    ensure_eq!(i as u128, m, "index of {:?} (width {})", w, N);
    let back = TensorBasis::<N>::index_to_key(m as usize);
    ensure!(back == k, "index_to_key({}) is not {:?} (width {})", m, w, N);
    spells(&back, w, "index_to_key")?;
    let d = w.len() as u32;
    ensure_eq!(<TensorBasis<N> as BasisWithDegree>::degree(&k), d, "degree of key {:?}", w);
    ensure_eq!(<TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(m as usize), d, "degree of index {} (width {})", m, N);
    ensure_eq!(<TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(d) as u128, m_start(d, N), "start of degree {} (width {})", d, N);
    let next = m_start(d + 1, N);
    if next <= usize::MAX as u128 {
        ensure_eq!(<TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(d + 1) as u128, next, "start of degree {} (width {})", d + 1, N);
        ensure_eq!(TensorBasis::<N>::vector_dimension_for_key(&k) as u128, next, "vector dimension for key {:?} (width {})", w, N);
        ensure_eq!(TensorBasis::<N>::vector_dimension_for_index(m as usize) as u128, next, "vector dimension for index {} (width {})", m, N);
    }
    Ok(())
}
fn c02_word<const N: u32>(c: &One) -> Check {
    check_index::<N>(&c.word)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Idx {
    w: u32,
    index: u64,
    run: u32,
}
fn index_in(w: u32) -> BoxedStrategy<u64> {
    let md = max_depth(w);
    let end = m_start(md + 1, w).min(u64::MAX as u128) as u64; // exclusive
    prop_oneof![
        2 => 0..end.min(500),
        4 => (0..=md, -3i64..=3).prop_map(move |(d, o)| {
            let s = m_start(d, w) as i128 + o as i128;
            s.clamp(0, end as i128 - 1) as u64
        }),
        3 => (0..=md).prop_flat_map(move |d| {
            let (a, b) = (m_start(d, w), m_start(d + 1, w));
            (a as u64)..(b.min(end as u128) as u64)
        }),
        1 => (1u64..6).prop_map(move |o| end.saturating_sub(o)),
        1 => near(0, end - 1),
    ]
    .boxed()
}
fn idx(_: Tier) -> BoxedStrategy<Idx> {
    width().prop_flat_map(|w| (index_in(w), 1u32..40).prop_map(move |(index, run)| Idx { w, index, run })).boxed()
}
fn c02_index<const N: u32>(c: &Idx) -> Check {
    let end = m_start(max_depth(N) + 1, N);
    for i in c.index as u128..(c.index as u128 + c.run as u128).min(end) {
        check_index::<N>(&m_word(i, N))?;
    }
    Ok(())
}
fn c02_degrees<const N: u32>() -> Check {
    let md = max_depth(N);
    ensure_eq!(TensorBasis::<N>::max_degree(), TensorKey::<N>::max_depth(), "maximum degree (width {})", N);
    for d in 0..=md + 1 {
        let s = m_start(d, N);
        if s > usize::MAX as u128 {
            continue;
        }
        ensure_eq!(<TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(d) as u128, s, "start of degree {} (width {})", d, N);
        if d <= md {
            ensure_eq!(<TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(s as usize), d, "degree of the first index {} of degree {} (width {})", s, d, N);
        }
        if d >= 1 {
            ensure_eq!(<TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree((s - 1) as usize), d - 1, "degree of the last index {} of degree {} (width {})", s - 1, d - 1, N);
        }
    }
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "words as in C01, and runs of up to 40 consecutive indices placed at degree boundaries, at the end of the representable range or uniformly in a degree; every (width, degree) boundary is visited by the sub-check `degrees`; non-trivial = a word of at least two letters, or a run of indices beyond degree one",
        assumptions: &["indices are those of representable words; dimensions that do not fit in 64 bits are not requested"],
        subs: vec![
            Sub { name: "word", quick: 250_000, thorough: 8_000_000, always_fork: false, strat: one,
                classify: |c, l| { word_labels(l, c.w, &c.word); c.word.len() >= 2 },
                test: |c| dispatch_width!(c.w, c02_word(c)) }.boxed(),
            Sub { name: "index", quick: 60_000, thorough: 2_000_000, always_fork: false, strat: idx,
                classify: |c, l| {
                    let d = m_degree(c.index as u128, c.w);
                    l.hit_if(d == max_depth(c.w), "maximum degree");
                    l.hit_if(m_degree(c.index as u128 + c.run as u128, c.w) > d, "run crosses a degree boundary");
                    d >= 2 || (c.index as u128 + c.run as u128) > c.w as u128 + 1
                },
                test: |c| dispatch_width!(c.w, c02_index(c)) }.boxed(),
            Sub { name: "degrees", quick: 2_000, thorough: 20_000, always_fork: false, strat: |_| proptest::sample::select(WIDTHS.to_vec()).boxed(),
                classify: |w, l| { l.hit_if(*w == 1, "width one"); true },
                test: |w| dispatch_width!(*w, c02_degrees()) }.boxed(),
        ],
    }
}

// ---------- C03 ----------

fn m_cmp(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
}
fn c03_pair<const N: u32>(c: &Two) -> Check {
    let (a, b) = (key::<N>(&c.a), key::<N>(&c.b));
    let want = m_cmp(&c.a, &c.b);
    ensure_eq!(TensorBasis::<N>::compare(&a, &b), want, "compare {:?} with {:?} (width {})", c.a, c.b, N);
    ensure_eq!(TensorBasis::<N>::compare(&b, &a), want.reverse(), "compare {:?} with {:?} (width {})", c.b, c.a, N);
    ensure_eq!(TensorBasis::<N>::compare(&a, &a), Ordering::Equal, "compare {:?} with itself", c.a);
    let (i, j) = (TensorBasis::<N>::key_to_index(&a), TensorBasis::<N>::key_to_index(&b));
    ensure_eq!(TensorBasis::<N>::compare(&a, &b), i.cmp(&j), "compare against the indices {} and {}", i, j);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    w: u32,
    words: Vec<Word>,
}
fn many(_: Tier) -> BoxedStrategy<Many> {
    width()
        .prop_flat_map(|w| {
            let md = max_depth(w);
            prop_oneof![
                proptest::collection::vec(word(w), 2..12),
                proptest::collection::vec(word_upto(w, md.min(3)), 2..25),
            ]
            .prop_map(move |words| Many { w, words })
        })
        .boxed()
}
fn c03_sort<const N: u32>(c: &Many) -> Check {
    let mut keys: Vec<TensorKey<N>> = c.words.iter().map(|w| key::<N>(w)).collect();
    keys.sort_by(TensorBasis::<N>::compare);
    let mut m = c.words.clone();
    m.sort_by(|a, b| m_cmp(a, b));
    for (k, w) in keys.iter().zip(&m) {
        spells(k, w, "sorted keys")?;
    }
    Ok(())
}
pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "pairs of words, half of them near misses (one letter changed, 1 prepended, letter dropped or appended, letters swapped, equal), and lists of words sorted with the comparison; non-trivial = the words differ (lists: at least two different words)",
        assumptions: &[],
        subs: vec![
            Sub { name: "pair", quick: 300_000, thorough: 10_000_000, always_fork: false, strat: two,
                classify: |c, l| { word_labels(l, c.w, &c.a); l.hit_if(c.a == c.b, "equal words"); l.hit_if(c.a.len() != c.b.len(), "different lengths");
                    l.hit_if(c.a.len() == c.b.len() && c.a != c.b, "same length, different"); c.a != c.b },
                test: |c| dispatch_width!(c.w, c03_pair(c)) }.boxed(),
            Sub { name: "sort", quick: 50_000, thorough: 1_500_000, always_fork: false, strat: many,
                classify: |c, _| c.words.iter().any(|w| *w != c.words[0]),
                test: |c| dispatch_width!(c.w, c03_sort(c)) }.boxed(),
        ],
    }
}

// ---------- C04 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Walk {
    w: u32,
    start: Word,
    steps: u32,
}
fn walk(_: Tier) -> BoxedStrategy<Walk> {
    width()
        .prop_flat_map(|w| {
            let md = max_depth(w) as usize;
            let start = prop_oneof![
                2 => word(w),
                1 => index_in(w).prop_map(move |i| m_word(i as u128, w)),
                // a few steps before a long carry
                4 => (word(w), any::<prop::sample::Index>(), 0u32..6).prop_map(move |(mut a, i, back)| {
                    if !a.is_empty() {
                        let k = i.index(a.len() + 1);
                        for x in a[k..].iter_mut() { *x = w; }
                        if let Some(x) = a.last_mut() { *x = x.saturating_sub(back).max(1); }
                    }
                    a
                }),
                // the last few words of a degree (and of the whole basis)
                2 => (prop_oneof![Just(md), 0..=md], 0u32..8, 0u32..3).prop_map(move |(l, b, c)| {
                    let mut a = vec![w; l];
                    if l > 0 { a[l - 1] = w.saturating_sub(b).max(1); }
                    if l > 1 { a[l - 2] = w.saturating_sub(c).max(1); }
                    a
                }),
            ];
            (start, prop_oneof![8 => 1u32..60, 2 => 60u32..1500, 1 => near32(1, 4000)]).prop_map(move |(start, steps)| Walk { w, start, steps })
        })
        .boxed()
}
fn c04_walk<const N: u32>(c: &Walk) -> Check {
    let md = max_depth(N) as usize;
    let mut it = <TensorBasis<N> as OrderedBasis>::KeyIterator::starting_from(key::<N>(&c.start));
    let mut m = c.start.clone();
    for s in 0..c.steps {
        match it.next() {
            None => return Err(format!("iteration from {:?} (width {}) ended at step {} before {:?}", c.start, N, s, m)),
            Some(k) => {
                spells(&k, &m, "iterated key")?;
                ensure!(k == key::<N>(&m), "iterated key is not equal to {:?}", m);
            }
        }
        m = m_succ(&m, N);
        if m.len() > md {
            for _ in 0..3 {
                ensure!(it.next().is_none(), "iteration from {:?} (width {}) goes on after the last word", c.start, N);
            }
            break;
        }
    }
    Ok(())
}
/// Ways of advancing an iterator other than one next after another.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hop {
    Next,
    Nth(u16),
    Take(u16),
    Skip(u16),
    Step(u8, u8),
    Fold(u16),
    Hint,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hops {
    at: Walk,
    hops: Vec<Hop>,
    /// afterwards: 0 nothing, 1 count, 2 last (only where few words are left)
    end: u8,
}
fn hops(t: Tier) -> BoxedStrategy<Hops> {
    let n = || prop_oneof![6 => 0u16..12, 2 => 0u16..300, 1 => near(0, 3000).prop_map(|x| x as u16)];
    let hop = prop_oneof![
        2 => Just(Hop::Next),
        3 => n().prop_map(Hop::Nth),
        1 => n().prop_map(Hop::Take),
        1 => n().prop_map(Hop::Skip),
        1 => (1u8..9, 0u8..9).prop_map(|(a, b)| Hop::Step(a, b)),
        1 => n().prop_map(Hop::Fold),
        1 => Just(Hop::Hint),
    ];
    (walk(t), proptest::collection::vec(hop, 1..8), 0u8..3).prop_map(|(at, hops, end)| Hops { at, hops, end }).boxed()
}
fn c04_hops<const N: u32>(c: &Hops) -> Check {
    let total = m_start(max_depth(N) + 1, N);
    let mut it = <TensorBasis<N> as OrderedBasis>::KeyIterator::starting_from(key::<N>(&c.at.start));
    let mut at = m_index(&c.at.start, N);
    let is = |got: Option<TensorKey<N>>, at: u128, what: &str| -> Check {
        match got {
            None => ensure!(at >= total, "{} (width {}) ends before index {}", what, N, at),
            Some(k) => {
                ensure!(at < total, "{} (width {}) goes on after the last word", what, N);
                spells(&k, &m_word(at, N), what)?;
            }
        }
        Ok(())
    };
    for h in &c.hops {
        match h {
            Hop::Next => {
                is(it.next(), at, "next")?;
                at += 1;
            }
            Hop::Nth(n) => {
                is(it.nth(*n as usize), at + *n as u128, "nth")?;
                at += *n as u128 + 1;
            }
            Hop::Take(n) => {
                let got: Vec<_> = it.by_ref().take(*n as usize).collect();
                ensure_eq!(got.len() as u128, (*n as u128).min(total.saturating_sub(at)), "number of words taken");
                for k in got {
                    is(Some(k), at, "take")?;
                    at += 1;
                }
            }
            Hop::Skip(n) => {
                is(it.by_ref().skip(*n as usize).next(), at + *n as u128, "skip")?;
                at += *n as u128 + 1;
            }
            Hop::Step(n, times) => {
                let mut by = it.by_ref().step_by(*n as usize);
                for i in 0..*times as u128 {
                    is(by.next(), at + i * *n as u128, "step_by")?;
                }
                if *times > 0 {
                    at += (*times as u128 - 1) * *n as u128 + 1;
                }
            }
            Hop::Fold(n) => {
                let mut left = *n as u32;
                let start = at;
                let mut bad = Ok(());
                let _ = it.by_ref().try_for_each(|k| {
                    if bad.is_ok() {
                        bad = is(Some(k), at, "try_for_each");
                    }
                    at += 1;
                    if left == 0 {
                        return Err(());
                    }
                    left -= 1;
                    Ok(())
                });
                bad?;
                ensure_eq!(at.max(start), start.max((start + *n as u128 + 1).min(total)), "position after try_for_each");
            }
            Hop::Hint => {
                let (lo, hi) = it.size_hint();
                let left = total.saturating_sub(at);
                ensure!(lo as u128 <= left, "size_hint promises {} words, {} are left", lo, left);
                if let Some(h) = hi {
                    ensure!(h as u128 >= left, "size_hint allows {} words, {} are left", h, left);
                }
            }
        }
        at = at.min(total);
    }
    let left = total - at;
    if left <= 3000 {
        match c.end {
            1 => ensure_eq!(it.count() as u128, left, "number of words left"),
            2 => is(it.last(), if left == 0 { total } else { total - 1 }, "last")?,
            _ => {}
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Full {
    w: u32,
    upto: u32,
}
fn c04_full<const N: u32>(c: &Full) -> Check {
    let md = max_depth(N);
    let mut n = 0u128;
    for (i, k) in TensorBasis::<N>::iter_keys().take(c.upto as usize).enumerate() {
        let w = m_word(i as u128, N);
        spells(&k, &w, "key from the start")?;
        ensure_eq!(TensorBasis::<N>::key_to_index(&k), i, "index of the {}-th iterated key (width {})", i, N);
        n += 1;
    }
    ensure_eq!(n, m_start(md + 1, N).min(c.upto as u128), "number of keys iterated (width {})", N);
    Ok(())
}
pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "walks of up to 1500 steps from a starting word placed at random, a few steps before a carry over several letters, or at the end of a degree / of the basis; and iteration from the start for up to 3000 (thorough 60000) keys; and sequences of nth, take, skip, step_by, try_for_each, size_hint, count and last; non-trivial = the walk carries over at least one letter",
        assumptions: &[],
        subs: vec![
            Sub { name: "walk", quick: 60_000, thorough: 1_500_000, always_fork: false, strat: walk,
                classify: |c, l| {
                    let md = max_depth(c.w) as usize;
                    let n = c.start.iter().rev().take_while(|x| **x == c.w).count();
                    l.hit_if(n >= 2, "carry over two or more letters at once");
                    let mut e = c.start.clone();
                    let mut carried = false;
                    let mut ended = false;
                    for _ in 0..c.steps { let s = m_succ(&e, c.w); if s.len() > md { ended = true; break; } if s.last() == Some(&1) { carried = true; } e = s; }
                    l.hit_if(ended, "reaches the end of the basis");
                    l.hit_if(e.len() > c.start.len(), "changes degree");
                    carried || ended
                },
                test: |c| dispatch_width!(c.w, c04_walk(c)) }.boxed(),
            Sub { name: "hops", quick: 60_000, thorough: 1_500_000, always_fork: false, strat: hops,
                classify: |c, l| {
                    let total = m_start(max_depth(c.at.w) + 1, c.at.w);
                    l.hit_if(total - m_index(&c.at.start, c.at.w) < 300, "close to the end of the basis");
                    c.hops.iter().any(|h| !matches!(h, Hop::Next | Hop::Hint))
                },
                test: |c| dispatch_width!(c.at.w, c04_hops(c)) }.boxed(),
            Sub { name: "from-start", quick: 600, thorough: 3_000, always_fork: false,
                strat: |t| (prop_oneof![3 => 1u32..=7, 1 => proptest::sample::select(WIDTHS.to_vec())], 1..if t == Tier::Quick { 3000u32 } else { 60_000 }).prop_map(|(w, upto)| Full { w, upto }).boxed(),
                classify: |c, l| { l.hit_if(c.w == 1, "whole basis enumerated"); c.upto > c.w },
                test: |c| dispatch_width!(c.w, c04_full(c)) }.boxed(),
        ],
    }
}

// ---------- C05 ----------

fn c05_key<const N: u32>(c: &Two) -> Check {
    let (a, b) = (key::<N>(&c.a), key::<N>(&c.b));
    let (da, ga) = (format!("{}", a), format!("{:?}", a));
    ensure_eq!(da, m_text(&c.a), "displayed text of {:?}", c.a);
    ensure_eq!(ga, m_text(&c.a), "debug text of {:?}", c.a);
    ensure_eq!(a.to_string(), da, "to_string of {:?}", c.a);
    let db = format!("{}", b);
    ensure_eq!(da == db, c.a == c.b, "texts {} and {} equal", da, db);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct VecText {
    w: u32,
    data: Vec<i32>,
    /// 0 prime field, 1 f64, 2 f64 that are not integers, 3 f32 with any bits
    kind: u8,
}
fn vec_text<const N: u32, S: CoefficientField + std::fmt::Display + 'static>(c: &VecText, of: impl Fn(i32) -> S) -> Check {
    let v: SimpleDenseVector<'static, TensorBasis<N>, S> = SimpleDenseVector::from(c.data.iter().map(|i| of(*i)).collect());
    let mut want = String::new();
    for (i, x) in c.data.iter().enumerate() {
        want += &format!("{}{}", of(*x), m_text(&m_word(i as u128, N)));
    }
    let got = format!("{}", v);
    if got != want {
        let at = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
        let part = |t: &str| t.chars().skip(at.saturating_sub(20)).take(60).collect::<String>();
        return Err(format!("text of a dense vector over {} letters: at character {}: got {:?}, expected {:?}", N, at, part(&got), part(&want)));
    }
    Ok(())
}
fn c05_vec<const N: u32>(c: &VecText) -> Check {
    match c.kind {
        0 => vec_text::<N, Fp>(c, |i| Fp::of(i as i64)),
        1 => vec_text::<N, f64>(c, |i| i as f64),
        2 => vec_text::<N, f64>(c, |i| i as f64 / 3.0 * if i % 2 == 0 { 1e-9 } else { 1e12 }),
        _ => vec_text::<N, f32>(c, |i| f32::from_bits(i as u32)),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongText {
    w: u32,
    n: u32,
    seed: u32,
    gap: u8,
    kind: u8,
}
fn long_text<const N: u32>(c: &LongText) -> Check {
    let data = (0..c.n as u64)
        .map(|i| {
            let r = scramble(c.seed as u64 * 65_537 + i);
            if r % c.gap as u64 == 0 { (r >> 8) as i32 } else { 0 }
        })
        .collect();
    c05_vec::<N>(&VecText { w: c.w, data, kind: c.kind })
}
pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "word pairs as in C03; dense vectors over every instantiated width with up to 120 coefficients, and with up to 65537 pseudo-random ones; non-trivial = a word of at least two letters, or a vector of at least two coefficients",
        assumptions: &["the letter-list order is the one the letter list accessor uses (last letter first)"],
        subs: vec![
            Sub { name: "key", quick: 300_000, thorough: 3_000_000, always_fork: false, strat: two,
                classify: |c, l| { word_labels(l, c.w, &c.a); c.a.len() >= 2 },
                test: |c| dispatch_width!(c.w, c05_key(c)) }.boxed(),
            Sub { name: "vector", quick: 60_000, thorough: 400_000, always_fork: false,
                strat: |_| (width(), proptest::collection::vec(prop_oneof![Just(0i32), -9i32..=9, any::<i32>()], 0..120), 0u8..4).prop_map(|(w, mut data, kind)| {
                    let cap = m_start(max_depth(w) + 1, w).min(200) as usize;
                    data.truncate(cap);
                    VecText { w, data, kind }
                }).boxed(),
                classify: |c, l| { l.hit_if(c.data.len() as u128 > c.w as u128 + 1, "reaches degree two"); c.data.len() >= 2 },
                test: |c| dispatch_width!(c.w, c05_vec(c)) }.boxed(),
            Sub { name: "long vector", quick: 400, thorough: 8_000, always_fork: false,
                strat: |_| (width(), prop_oneof![2 => 100u32..3000, 2 => (10u32..17, -1i64..=1).prop_map(|(b, o)| ((1i64 << b) + o) as u32), 1 => near32(0, 1 << 16)], any::<u32>(), prop_oneof![Just(1u8), Just(3u8), Just(50u8)], 0u8..4).prop_map(|(w, n, seed, gap, kind)| {
                    let cap = m_start(max_depth(w) + 1, w).min(1 << 20) as u32;
                    LongText { w, n: n.min(cap), seed, gap, kind }
                }).boxed(),
                classify: |c, l| { l.hit_if(c.n >= 4096, "4096 coefficients or more"); c.n >= 200 },
                test: |c| dispatch_width!(c.w, long_text(c)) }.boxed(),
        ],
    }
}

/// A pseudo-random number made from another number.
pub fn scramble(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
