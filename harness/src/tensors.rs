//! C14-C18: degree, tensor products, accumulation, in-place products, algebra laws.

use crate::dict::near32;
use crate::engine::*;
use crate::prog::coef_strategy;
use crate::scal::{up, Fp, Hp, Lib, Scal};
use crate::widths::WIDTHS;
use crate::words::{m_degree, m_start, m_word, word_upto, Word};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, SimpleDenseVector, Vector, VectorWithDegree};
use rustyalgebra::{DegreeType, DimensionType};
use serde::{Deserialize, Serialize};
use std::ops::{Deref, DerefMut};

pub type Plain<const N: u32, S> = SimpleDenseVector<'static, TensorBasis<N>, S>;

/// A user tensor type of maximum degree D around the library's dense vector.
pub struct Ft<S: Lib, const N: u32, const D: u32>(pub Plain<N, S>);
impl<S: Lib, const N: u32, const D: u32> Deref for Ft<S, N, D> {
    type Target = Plain<N, S>;
    fn deref(&self) -> &Plain<N, S> {
        &self.0
    }
}
impl<S: Lib, const N: u32, const D: u32> DerefMut for Ft<S, N, D> {
    fn deref_mut(&mut self) -> &mut Plain<N, S> {
        &mut self.0
    }
}
impl<S: Lib, const N: u32, const D: u32> From<Plain<N, S>> for Ft<S, N, D> {
    fn from(v: Plain<N, S>) -> Self {
        Ft(v)
    }
}
impl<S: Lib, const N: u32, const D: u32> PartialEq for Ft<S, N, D> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<S: Lib, const N: u32, const D: u32> DenseVector<'static> for Ft<S, N, D> {
    fn as_slice(&self) -> &[S] {
        DenseVector::as_slice(&self.0)
    }
    fn as_mut_slice(&mut self) -> &mut [S] {
        DenseVector::as_mut_slice(&mut self.0)
    }
}
impl<S: Lib, const N: u32, const D: u32> ResizeableDenseVector<'static> for Ft<S, N, D> {
    fn resize(&mut self, n: DimensionType) {
        ResizeableDenseVector::resize(&mut self.0, n)
    }
}
impl<S: Lib, const N: u32, const D: u32> VectorWithDegree<'static> for Ft<S, N, D> {
    fn degree(&self) -> DegreeType {
        VectorWithDegree::degree(&self.0)
    }
}

/// A tensor type the checks can run on.
pub trait Ten<const N: u32, S: Lib>:
    Algebra<'static, BasisType = TensorBasis<N>, KeyType = TensorKey<N>, ScalarType = S, RationalType = <S as Lib>::R>
    + ResizeableDenseVector<'static>
    + VectorWithDegree<'static>
{
    fn of(v: Vec<S>) -> Self;
}
impl<const N: u32, S: Lib> Ten<N, S> for Plain<N, S> {
    fn of(v: Vec<S>) -> Self {
        SimpleDenseVector::from(v)
    }
}
impl<const N: u32, S: Lib, const D: u32> Ten<N, S> for Ft<S, N, D> {
    fn of(v: Vec<S>) -> Self {
        Ft(SimpleDenseVector::from(v))
    }
}

// ---------- model ----------

/// (length, position within the length) of every index below `len`
fn split(len: usize, n: u64) -> Vec<(u32, u64)> {
    let mut out = Vec::with_capacity(len);
    let (mut d, mut size, mut at) = (0u32, 1u64, 0u64);
    for _ in 0..len {
        if at == size {
            d += 1;
            size *= n;
            at = 0;
        }
        out.push((d, at));
        at += 1;
    }
    out
}

/// The truncated concatenation product, by concatenating words pair by pair.
pub fn m_prod<S: Scal>(a: &[S], b: &[S], n: u32, d: u32) -> Vec<S> {
    let n64 = n as u64;
    let (sa, sb) = (split(a.len(), n64), split(b.len(), n64));
    let top = match (sa.last(), sb.last()) {
        (Some(x), Some(y)) => (x.0 + y.0).min(d),
        _ => return vec![],
    };
    let mut starts = vec![0u64];
    let mut pow = vec![1u64];
    for i in 0..=top as usize {
        starts.push(starts[i] + pow[i]);
        let p = pow[i].saturating_mul(n64);
        pow.push(p);
    }
    let mut out = vec![S::of(0); starts[top as usize + 1] as usize];
    for (x, (la, va)) in a.iter().zip(&sa) {
        if x.zero() {
            continue;
        }
        for (y, (lb, vb)) in b.iter().zip(&sb) {
            if y.zero() || la + lb > top {
                continue;
            }
            let i = (starts[(la + lb) as usize] + va * pow[*lb as usize] + vb) as usize;
            out[i] = out[i].madd(x.mmul(*y));
        }
    }
    out
}
pub fn m_at<S: Scal>(a: &[S], i: usize) -> S {
    a.get(i).copied().unwrap_or(S::of(0))
}
pub fn m_lin<S: Scal>(a: &[S], b: &[S], f: impl Fn(S, S) -> S) -> Vec<S> {
    (0..a.len().max(b.len())).map(|i| f(m_at(a, i), m_at(b, i))).collect()
}
pub fn m_add<S: Scal>(a: &[S], b: &[S]) -> Vec<S> {
    m_lin(a, b, |x, y| x.madd(y))
}
pub fn m_sub<S: Scal>(a: &[S], b: &[S]) -> Vec<S> {
    m_lin(a, b, |x, y| x.msub(y))
}
pub fn m_trunc<S: Scal>(a: &[S], n: u32, d: u32) -> Vec<S> {
    let l = m_start(d.saturating_add(1).min(70), n).min(a.len() as u128) as usize;
    a[..l].to_vec()
}

/// The tensor has the model's coefficient at every word (missing ones are zero).
pub fn agree<const N: u32, S: Lib, V: Ten<N, S>>(v: &V, m: &[S::M], what: &str) -> Check {
    let s = v.as_slice();
    for i in 0..s.len().max(m.len()) {
        let (g, e) = (s.get(i).map_or(S::M::of(0), |x| x.m()), m_at(m, i));
        if g != e {
            let w = m_word(i as u128, N);
            return Err(format!("{}: coefficient of word {:?}: got {:?}, expected {:?} (dimension {})", what, w, g, e, s.len()));
        }
    }
    // through keys, on a spread of words
    let l = m.len().max(1);
    let step = (l / 12).max(1);
    let mut i = 0;
    while i < l {
        let w = m_word(i as u128, N);
        if w.len() as u32 <= TensorKey::<N>::max_depth() {
            let g = Vector::get(v, TensorKey::<N>::from_letters(&w)).map_or(S::M::of(0), |x| x.m());
            ensure_eq!(g, m_at(m, i), "{}: coefficient read by key of word {:?}", what, w);
        }
        i += step;
    }
    Ok(())
}
pub fn same<const N: u32, S: Lib, V: Ten<N, S>>(v: &V, m: &[S::M], what: &str) -> Check {
    let s = v.as_slice();
    ensure!(s.len() == m.len() && s.iter().zip(m).all(|(x, y)| x.m() == *y), "{} was changed: {:?}, was {:?}", what, s, m);
    Ok(())
}

// ---------- generators ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct T {
    /// number of degrees present, 0 = empty vector; folded into the cap of the width
    pub levels: u8,
    /// how much of the last degree is stored, 0..=255 (255 = all)
    pub part: u8,
    /// constant term override
    pub unit: Option<i64>,
    /// pseudo-random small coefficients everywhere
    pub dense: Option<u32>,
    /// (level, position, coefficient)
    pub entries: Vec<(u8, u16, i64)>,
    /// number of coefficients, in place of the degrees; folded into the cap of the width
    #[serde(default)]
    pub len: Option<u32>,
}
use crate::words::scramble as mix;
impl T {
    /// coefficients over an alphabet of n letters with at most `cap` degrees above zero
    pub fn coefs(&self, n: u32, cap: u32) -> Vec<i64> {
        let (lv, len) = match self.len {
            Some(l) => {
                let len = (l as u128 % (m_start(cap + 1, n) + 1)) as usize;
                ((0..=cap + 1).find(|d| m_start(*d, n) as usize >= len).unwrap_or(cap + 1), len)
            }
            None => {
                let lv = self.levels as u32 % (cap + 2);
                let (lo, hi) = (m_start(lv.saturating_sub(1), n) as usize, m_start(lv, n) as usize);
                (lv, if self.part == 255 || lv == 0 { hi } else { lo + 1 + (hi - lo - 1) * self.part as usize / 255 })
            }
        };
        if len == 0 {
            return vec![];
        }
        let mut v = vec![0i64; len];
        if let Some(seed) = self.dense {
            for (i, x) in v.iter_mut().enumerate() {
                *x = (mix(seed as u64 * 65537 + i as u64) % 19) as i64 - 9;
            }
        }
        for (l, p, c) in &self.entries {
            let l = *l as u32 % lv;
            let (lo, hi) = (m_start(l, n) as usize, m_start(l + 1, n) as usize);
            let i = lo + (hi - lo) * *p as usize / 65536;
            if i < len {
                v[i] = *c;
            }
        }
        if let Some(u) = self.unit {
            v[0] = u;
        }
        v
    }
    pub fn scalars<S: Scal>(&self, n: u32, cap: u32) -> Vec<S> {
        self.coefs(n, cap).into_iter().map(|c| S::of(S::coef(c))).collect()
    }
}
pub fn tensor() -> BoxedStrategy<T> {
    (
        prop_oneof![1 => Just(0u8), 6 => 1u8..=4, 4 => 1u8..=26],
        prop_oneof![3 => Just(255u8), 2 => any::<u8>(), 1 => Just(0u8)],
        prop_oneof![2 => Just(None), 2 => Just(Some(0i64)), 2 => Just(Some(1i64)), 1 => coef_strategy().prop_map(Some)],
        prop_oneof![3 => Just(None), 2 => any::<u32>().prop_map(Some)],
        proptest::collection::vec((0u8..27, any::<u16>(), coef_strategy()), 0..8),
        prop_oneof![12 => Just(None), 1 => (0u32..1200).prop_map(Some), 1 => near32(0, 1 << 12).prop_map(Some)],
    )
        .prop_map(|(levels, part, unit, dense, entries, len)| T { levels, part, unit, dense, entries, len })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TenCase {
    pub width: u32,
    /// 0 prime field, 1 f64, 2 f32, 3 prime field with elements that own memory
    pub field: u8,
    /// user type rather than the library's own
    pub user: bool,
    pub a: T,
    pub b: T,
    pub c: T,
    /// truncation degree
    pub d: u32,
    pub s: i64,
    /// higher degrees than usual
    #[serde(default)]
    pub deep: bool,
}
impl TenCase {
    pub fn cap2(&self) -> u32 {
        self.cap2_over(self.width)
    }
    pub fn cap2_over(&self, width: u32) -> u32 {
        if self.deep {
            match width {
                1 => 56,
                2 => 9,
                3 => 6,
                4 => 5,
                5 => 4,
                6..=12 => 3,
                13..=40 => 2,
                _ => 1,
            }
        } else {
            cap2(width)
        }
    }
}
/// largest degree of each of two operands
pub fn cap2(w: u32) -> u32 {
    match w {
        1 => 25,
        2 => 6,
        3 => 4,
        4 | 5 => 3,
        6..=12 => 2,
        _ => 1,
    }
}
/// largest degree of each of three operands that are multiplied together
pub fn cap3(w: u32) -> u32 {
    match w {
        1 => 16,
        2 => 4,
        3 => 3,
        4..=6 => 2,
        7..=12 => 1,
        _ => 0,
    }
}
const WIDTHS2: &[u32] = &[1, 2, 3, 4, 5, 6, 7, 10, 16, 33, 100];
pub fn ten_case(wide: bool) -> BoxedStrategy<TenCase> {
    let w = if wide {
        prop_oneof![2 => Just(1u32), 4 => Just(2u32), 4 => Just(3u32), 2 => Just(4u32), 2 => Just(5u32), 3 => proptest::sample::select(WIDTHS2)].boxed()
    } else {
        prop_oneof![2 => Just(1u32), 4 => Just(2u32), 4 => Just(3u32), 2 => 4u32..=7].boxed()
    };
    (
        w,
        prop_oneof![8 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)],
        any::<bool>(),
        tensor(),
        tensor(),
        tensor(),
        prop_oneof![16 => 0u32..=7, 4 => 0u32..=60, 2 => any::<u32>(), 1 => near32(0, u32::MAX)],
        coef_strategy(),
    )
        .prop_map(|(width, field, user, a, b, c, d, s)| TenCase { width, field, user, a, b, c, d, s, deep: false })
        .boxed()
}

/// Few large operands: one of them thin, so that the oracle stays affordable.
pub fn deep_case() -> BoxedStrategy<TenCase> {
    let lift = || (prop_oneof![2 => 0u8..4, 3 => 0u8..=58], 0u8..34);
    (ten_case(true), 0u8..3, lift(), lift(), lift(), prop_oneof![2 => Just(0u32), 3 => 0u32..=112])
        .prop_map(|(mut c, fat, la, lb, lc, d)| {
            c.deep = true;
            for (t, (up, more)) in vec![(&mut c.a, la), (&mut c.b, lb), (&mut c.c, lc)] {
                t.levels = t.levels.saturating_add(up);
                for e in &mut t.entries {
                    e.0 = e.0.saturating_add(more);
                }
            }
            c.d = c.d.saturating_add(d);
            if c.field == 1 || c.field == 2 {
                c.field = 0;
            }
            if fat != 0 {
                c.a.dense = None;
            }
            if fat != 1 {
                c.b.dense = None;
            }
            // the largest products do not fit a quick run
            let top = match c.width { 1 => 112, 2 => 14, 3 => 9, 4 => 7, 5 => 6, 6 | 7 => 5, 8..=16 => 4, 17..=40 => 3, _ => 2 };
            c.d = if c.d > top { top } else { c.d };
            c
        })
        .boxed()
}

#[macro_export]
macro_rules! ten_dispatch {
    ($c:expr, $f:ident) => {
        $crate::ten_dispatch!(@w $c, $f, 1 2 3 4 5 6 7 10 16 33 100)
    };
    (@w $c:expr, $f:ident, $($n:literal)*) => {
        match $c.width {
            $($n => match ($c.field, $c.user) {
                (0, false) => $f::<$n, Fp, Plain<$n, Fp>>($c),
                (0, true) => $f::<$n, Fp, Ft<Fp, $n, 3>>($c),
                (1, false) => $f::<$n, f64, Plain<$n, f64>>($c),
                (1, true) => $f::<$n, f64, Ft<f64, $n, 3>>($c),
                (2, false) => $f::<$n, f32, Plain<$n, f32>>($c),
                (3, _) => $f::<$n, Hp, Plain<$n, Hp>>($c),
                (_, _) => $f::<$n, f32, Ft<f32, $n, 3>>($c),
            },)*
            w => panic!("width {} is not instantiated", w),
        }
    };
}

/// bilinear operations on floats need exact coefficients: |coef| <= 9 is enforced by Scal::coef
fn labels(c: &TenCase, l: &mut Labels, cap: u32) -> bool {
    let (a, b) = (c.a.coefs(c.width, cap), c.b.coefs(c.width, cap));
    let full = |v: &Vec<i64>| v.is_empty() || m_start(m_degree(v.len() as u128 - 1, c.width) + 1, c.width) == v.len() as u128;
    let deg = |v: &Vec<i64>| if v.is_empty() { 0 } else { m_degree(v.len() as u128 - 1, c.width) };
    l.hit_if(a.is_empty() || b.is_empty(), "an operand is empty");
    l.hit_if(!full(&a) || !full(&b), "an operand ends inside a degree");
    l.hit_if(c.d < deg(&a) + deg(&b), "truncation below the degree of the product");
    l.hit_if(c.d < deg(&a), "truncation below the degree of the left operand");
    l.hit_if(c.d >= deg(&a) + deg(&b), "no truncation");
    l.hit_if(c.user && c.field != 3, "user type");
    l.hit_if(c.field == 3, "coefficients owning memory");
    l.hit_if(c.width == 1, "one letter");
    l.hit_if(c.width > 7, "more than seven letters");
    l.hit_if(!b.is_empty() && b[0] == 0, "right constant term zero");
    l.hit_if(!b.is_empty() && b[0] == 1, "right constant term one");
    l.hit_if(!b.is_empty() && b[0] != 0 && b[0] != 1, "right constant term other");
    let nz = |v: &Vec<i64>| v.iter().filter(|x| **x != 0).count();
    nz(&a) >= 1 && nz(&b) >= 1 && nz(&a) + nz(&b) >= 3
}
pub fn two_rule(c: &TenCase, l: &mut Labels) -> bool {
    labels(c, l, c.cap2())
}
fn three_rule(c: &TenCase, l: &mut Labels) -> bool {
    labels(c, l, cap3(c.width)) && c.c.coefs(c.width, cap3(c.width)).iter().any(|x| *x != 0)
}

// ---------- C14 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DegCase {
    width: u32,
    dim: u32,
    words: Vec<Word>,
    more: Vec<Word>,
    resize: u32,
}
fn c14_n<const N: u32>(c: &DegCase) -> Check {
    let expect = |n: usize| if n == 0 { 0 } else { m_degree(n as u128 - 1, N) };
    let v: Plain<N, f32> = SimpleDenseVector::from(vec![1.0; c.dim as usize]);
    ensure_eq!(v.degree(), expect(c.dim as usize), "degree of a vector of dimension {}", c.dim);
    let z: Plain<N, f32> = SimpleDenseVector::from_dimension(c.dim as usize);
    ensure_eq!(z.degree(), expect(c.dim as usize), "degree of a zero vector of dimension {}", c.dim);
    let mut t: DenseTensor<'static, f32, N> = v.into();
    ensure_eq!(t.degree(), expect(c.dim as usize), "degree of a dense tensor of dimension {}", c.dim);
    t.resize(c.resize as usize);
    ensure_eq!(t.degree(), expect(c.resize as usize), "degree after resizing to {}", c.resize);
    let u: Ft<f32, N, 2> = Ft(SimpleDenseVector::from(vec![0.0; c.dim as usize]));
    ensure_eq!(VectorWithDegree::degree(&u), expect(c.dim as usize), "degree of a user tensor of dimension {}", c.dim);
    let build = |ws: &Vec<Word>| <Plain<N, f32> as Vector<'static>>::from_iterator(ws.iter().map(|w| (TensorKey::<N>::from_letters(w), 2.0f32)).collect::<Vec<_>>());
    let (x, y) = (build(&c.words), build(&c.more));
    let top = |ws: &Vec<Word>| ws.iter().map(|w| w.len() as u32).max().unwrap_or(0);
    ensure_eq!(x.degree(), top(&c.words), "degree of a vector built from words {:?}", c.words);
    ensure_eq!(Vector::add(&x, &y).degree(), top(&c.words).max(top(&c.more)), "degree of the sum");
    for w in c.words.iter().take(2) {
        let k: Plain<N, f32> = Vector::from_key(TensorKey::<N>::from_letters(w));
        ensure_eq!(k.degree(), w.len() as u32, "degree of the vector of word {:?}", w);
        let mut i: Plain<N, f32> = SimpleDenseVector::new();
        Vector::insert_single(&mut i, &TensorKey::<N>::from_letters(w), 1.0_f32);
        ensure_eq!(i.degree(), w.len() as u32, "degree after inserting word {:?}", w);
    }
    Ok(())
}
fn c14_test(c: &DegCase) -> Check {
    dispatch_width!(c.width, c14_n(c))
}
fn c14_strat(_: Tier) -> BoxedStrategy<DegCase> {
    let w = prop_oneof![3 => 1u32..=5, 2 => proptest::sample::select(WIDTHS.iter().copied().filter(|w| *w <= 100_000).collect::<Vec<_>>())];
    w.prop_flat_map(|w| {
        // degree whose storage stays below about 200 000 coefficients
        let mut maxd = 0;
        while maxd < 40 && m_start(maxd + 2, w) <= 200_000 {
            maxd += 1;
        }
        let dim = if w == 1 {
            prop_oneof![8 => 0u32..60, 1 => near32(0, 2000)].boxed()
        } else {
            let edges: Vec<u32> = (0..=maxd + 1).map(|d| m_start(d, w) as u32).filter(|s| *s <= 200_000).collect();
            prop_oneof![
                3 => 0u32..200,
                1 => 0u32..20_000,
                1 => near32(0, 200_000),
                4 => (proptest::sample::select(edges), -2i32..=2).prop_map(|(e, o)| (e as i32 + o).max(0) as u32),
            ]
            .boxed()
        };
        let ws = || proptest::collection::vec(word_upto(w, maxd.min(if w < 4 { 8 } else { 3 })), 0..4);
        (Just(w), dim.clone(), ws(), ws(), dim).prop_map(|(width, dim, words, more, resize)| DegCase { width, dim, words, more, resize })
    })
    .boxed()
}
pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "dimensions up to 200 000 (dense around every boundary between degrees) and sets of words over 56 alphabet widths up to 100 000 letters; the oracle counts words; non-trivial = dimension at least 2 or a non-empty word",
        assumptions: &["vectors fit in memory; one-letter alphabets up to dimension 60"],
        subs: vec![Sub {
            name: "degree", quick: 40_000, thorough: 1_000_000, always_fork: false, strat: c14_strat,
            classify: |c, l| {
                l.hit_if(c.dim == 0, "empty");
                l.hit_if(c.width > 100, "more than 100 letters");
                l.hit_if(!c.words.is_empty() && !c.more.is_empty(), "sum");
                l.hit_if(c.dim > 0 && m_start(m_degree(c.dim as u128 - 1, c.width) + 1, c.width) == c.dim as u128, "full degrees");
                c.dim >= 2 || c.words.iter().any(|w| !w.is_empty())
            },
            test: c14_test,
        }.boxed(), crate::memory::hist_degree(20_000, 400_000)],
    }
}

// ---------- C15 ----------

pub fn c15_case<const N: u32, S: Lib, V: Ten<N, S>>(c: &TenCase) -> Check {
    let cap = c.cap2();
    let (a, b): (Vec<S::M>, Vec<S::M>) = (c.a.scalars(N, cap), c.b.scalars(N, cap));
    let (va, vb) = (V::of(up(&a)), V::of(up(&b)));
    let d = Some(c.d);
    let p = va.multiply(&vb, d);
    agree(&p, &m_prod(&a, &b, N, c.d), "product")?;
    same(&va, &a, "the left operand")?;
    same(&vb, &b, "the right operand")?;
    let q = vb.multiply(&va, d);
    agree(&q, &m_prod(&b, &a, N, c.d), "reversed product")?;
    let sq = va.multiply(&va, d);
    agree(&sq, &m_prod(&a, &a, N, c.d), "square")?;
    same(&va, &a, "the squared operand")?;
    // operand passed by value
    let r = va.multiply(V::of(up(&b)), d);
    ensure!(r == p, "a product with the right operand passed by value differs");
    Ok(())
}
pub fn c15_test(c: &TenCase) -> Check {
    ten_dispatch!(c, c15_case)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WideCase {
    width: u32,
    dim_a: u32,
    dim_b: u32,
    ea: Vec<(u32, i64)>,
    eb: Vec<(u32, i64)>,
    d: u32,
}
/// Large alphabets: storage ending inside the first degree, products truncated at degree 0 or 1.
fn c15_wide<const N: u32>(c: &WideCase) -> Check {
    let mk = |dim: u32, e: &[(u32, i64)]| {
        let mut v = vec![Fp::of(0); dim as usize];
        for (i, x) in e {
            if dim > 0 {
                v[(*i % dim) as usize] = Fp::of(*x);
            }
        }
        v
    };
    let (a, b) = (mk(c.dim_a.min(N), &c.ea), mk(c.dim_b.min(N), &c.eb));
    let d = if N > 100_000 { 0 } else { c.d };
    let (va, vb) = (Plain::<N, Fp>::of(a.clone()), Plain::<N, Fp>::of(b.clone()));
    let p = va.multiply(&vb, Some(d));
    let m = m_prod(&a, &b, N, d);
    for i in 0..p.as_slice().len().max(m.len()) {
        ensure_eq!(m_at(p.as_slice(), i), m_at(&m, i), "product coefficient at index {}", i);
    }
    same(&va, &a, "the left operand")?;
    same(&vb, &b, "the right operand")
}
fn c15_wide_test(c: &WideCase) -> Check {
    dispatch_width!(c.width, c15_wide(c))
}
pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "pairs of tensors over eleven alphabets (1 to 100 letters) with degrees up to 25 (1 letter), 6 (2), 4 (3), empty, ending inside a degree or full, sparse or dense, and a truncation degree below, at or above the degree of the product, on the library's dense vector and on a user type, in four coefficient fields (one with elements that own memory); the oracle concatenates words pair by pair; plus alphabets up to 2^32-1 letters with storage ending inside degree one; non-trivial = both operands non-zero with at least three non-zero coefficients together",
        assumptions: &["a truncation degree is given", "floating point cases use small integers"],
        subs: vec![
            Sub { name: "product", quick: 250_000, thorough: 6_000_000, always_fork: false, strat: |_| ten_case(true), classify: two_rule, test: c15_test }.boxed(),
            Sub { name: "wide", quick: 10_000, thorough: 200_000, always_fork: false,
                strat: |_| {
                    let e = || proptest::collection::vec((any::<u32>(), coef_strategy()), 0..6);
                    (proptest::sample::select(WIDTHS.iter().copied().filter(|w| *w >= 17).collect::<Vec<_>>()), 0u32..40, 0u32..40, e(), e(), 0u32..=1)
                        .prop_map(|(width, dim_a, dim_b, ea, eb, d)| WideCase { width, dim_a, dim_b, ea, eb, d }).boxed()
                },
                classify: |c, l| { l.hit_if(c.width > 65536, "more than 65536 letters"); c.dim_a > 0 && c.dim_b > 0 && !c.ea.is_empty() && !c.eb.is_empty() },
                test: c15_wide_test }.boxed(),
            Sub { name: "deep", quick: 3_000, thorough: 80_000, always_fork: false, strat: |_| deep_case(), classify: two_rule, test: c15_test }.boxed(),
            crate::memory::hist_product(20_000, 600_000),
        ],
    }
}

// ---------- C16 ----------

pub fn c16_case<const N: u32, S: Lib, V: Ten<N, S>>(c: &TenCase) -> Check {
    let cap = c.cap2();
    let (a, b, acc): (Vec<S::M>, Vec<S::M>, Vec<S::M>) = (c.a.scalars(N, cap), c.b.scalars(N, cap), c.c.scalars(N, cap));
    let (va, vb) = (V::of(up(&a)), V::of(up(&b)));
    let d = Some(c.d);
    let ab = m_prod(&a, &b, N, c.d);
    let mut x = V::of(up(&acc));
    x.add_mul(&va, &vb, d);
    agree(&x, &m_add(&acc, &ab), "accumulator plus product")?;
    // and on from there
    x.sub_mul(&vb, &va, d);
    let ba = m_prod(&b, &a, N, c.d);
    agree(&x, &m_sub(&m_add(&acc, &ab), &ba), "accumulator plus one product minus the other")?;
    let mut y = V::of(up(&acc));
    y.sub_mul(&va, &vb, d);
    agree(&y, &m_sub(&acc, &ab), "accumulator minus product")?;
    let mut z = V::of(up(&acc));
    let k = S::M::of(S::mult(c.s));
    z.multiply_and_add_into_impl(&va, &vb, |v| S::up(v.m().mmul(k)), d);
    agree(&z, &m_lin(&acc, &ab, |u, v| u.madd(v.mmul(k))), "accumulator plus a multiple of the product")?;
    let mut q = V::of(up(&acc));
    q.add_mul(&va, &va, d);
    agree(&q, &m_add(&acc, &m_prod(&a, &a, N, c.d)), "accumulator plus square")?;
    let com = va.commutator(&vb, d);
    agree(&com, &m_sub(&ab, &ba), "commutator")?;
    agree(&va.commutator(&va, d), &[], "commutator of a tensor with itself")?;
    same(&va, &a, "the left operand")?;
    same(&vb, &b, "the right operand")
}
pub fn c16_test(c: &TenCase) -> Check {
    ten_dispatch!(c, c16_case)
}
pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "accumulators of any dimension (empty, ending inside a degree, larger or smaller than the product) and two tensors as for C15, with every truncation degree; the oracle is separate model product and sum; non-trivial = both operands non-zero with at least three non-zero coefficients together",
        assumptions: &["a truncation degree is given", "floating point cases use small integers"],
        subs: vec![Sub { name: "accumulate", quick: 120_000, thorough: 3_000_000, always_fork: false, strat: |_| ten_case(true), classify: |c, l| {
            let cap = c.cap2();
            let (x, n) = (c.c.coefs(c.width, cap).len(), c.a.coefs(c.width, cap).len());
            l.hit_if(x > n, "accumulator larger than the left operand");
            l.hit_if(x > 0 && m_degree(x as u128 - 1, c.width) > c.d, "accumulator reaches above the truncation degree");
            two_rule(c, l)
        }, test: c16_test }.boxed(),
            Sub { name: "deep", quick: 1_500, thorough: 40_000, always_fork: false, strat: |_| deep_case(), classify: two_rule, test: c16_test }.boxed(),
            crate::memory::hist_accumulate(20_000, 600_000)],
    }
}

// ---------- C17 ----------

pub fn c17_case<const N: u32, S: Lib, V: Ten<N, S>>(c: &TenCase) -> Check {
    let cap = c.cap2();
    let (a, b): (Vec<S::M>, Vec<S::M>) = (c.a.scalars(N, cap), c.b.scalars(N, cap));
    let vb = V::of(up(&b));
    let d = Some(c.d);
    let p = m_prod(&a, &b, N, c.d);
    let mut x = V::of(up(&a));
    x.multiply_inplace(&vb, d);
    agree(&x, &p, "in-place product")?;
    same(&vb, &b, "the right operand")?;
    let (m, q) = (S::mult(c.s), S::divisor(c.s));
    let pm: Vec<S::M> = p.iter().map(|v| v.mmul(S::M::of(m))).collect();
    let pd: Vec<S::M> = p.iter().map(|v| v.mdiv(q)).collect();
    let mut x = V::of(up(&a));
    x.mul_scal_lprod(&vb, S::of(m), d);
    agree(&x, &pm, "in-place product times a scalar (left)")?;
    let mut x = V::of(up(&a));
    x.mul_scal_rprod(&vb, S::of(m), d);
    agree(&x, &pm, "in-place product times a scalar (right)")?;
    let mut x = V::of(up(&a));
    x.mul_rat_ldiv(&vb, S::den(q), d);
    agree(&x, &pd, "in-place product over a divisor (left)")?;
    let mut x = V::of(up(&a));
    x.mul_rat_rdiv(&vb, S::den(q), d);
    agree(&x, &pd, "in-place product over a divisor (right)")?;
    let mut x = V::of(up(&a));
    let k = S::M::of(m);
    x.multiply_into_impl(&vb, |v| S::up(v.m().mmul(k)), d);
    agree(&x, &pm, "in-place product with a scaling function")?;
    same(&vb, &b, "the right operand")?;
    // a second factor, and a square
    if (c.width == 1 && a.len() + b.len() < 36) || a.len() * b.len() * b.len() < 20_000 {
        let mut x = V::of(up(&a));
        x.multiply_inplace(&vb, d).multiply_inplace(&vb, d);
        let top = m_prod(&p, &b, N, c.d);
        agree(&x, &top, "two in-place products")?;
    }
    let mut x = V::of(up(&a));
    let copy = Vector::to_owned(&x);
    x.multiply_inplace(copy, d);
    agree(&x, &m_prod(&a, &a, N, c.d), "in-place square")
}
pub fn c17_test(c: &TenCase) -> Check {
    ten_dispatch!(c, c17_case)
}
pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "pairs of tensors as for C15 with right constant term zero, one or other, a truncation degree and a scalar; every in-place product is compared with the model product scaled or divided; non-trivial = both operands non-zero with at least three non-zero coefficients together",
        assumptions: &["a truncation degree is given", "divisors are not zero", "floating point cases use small integers, doubles and halves"],
        subs: vec![Sub { name: "in place", quick: 120_000, thorough: 3_000_000, always_fork: false, strat: |_| ten_case(true), classify: two_rule, test: c17_test }.boxed(),
            Sub { name: "deep", quick: 1_500, thorough: 40_000, always_fork: false, strat: |_| deep_case(), classify: two_rule, test: c17_test }.boxed(),
            crate::memory::hist_inplace(20_000, 600_000)],
    }
}

// ---------- C18 ----------

fn c18_case<const N: u32, S: Lib, V: Ten<N, S>>(c: &TenCase) -> Check {
    let cap = cap3(N);
    let (a, b, e): (Vec<S::M>, Vec<S::M>, Vec<S::M>) = (c.a.scalars(N, cap), c.b.scalars(N, cap), c.c.scalars(N, cap));
    let (x, y, z) = (V::of(up(&a)), V::of(up(&b)), V::of(up(&e)));
    let d = Some(c.d);
    let eq = |l: &V, r: &V, what: &str| -> Check {
        let (ls, rs) = (crate::scal::down(l.as_slice()), crate::scal::down(r.as_slice()));
        for i in 0..ls.len().max(rs.len()) {
            ensure!(m_at(&ls, i) == m_at(&rs, i), "{} fails at word {:?}: {:?} against {:?}", what, m_word(i as u128, N), m_at(&ls, i), m_at(&rs, i));
        }
        Ok(())
    };
    eq(&x.multiply(&y, d).multiply(&z, d), &x.multiply(&y.multiply(&z, d), d), "associativity")?;
    let k = || S::of(S::mult(c.s));
    let yz = Vector::add(&y, &z);
    eq(&x.multiply(&yz, d), &Vector::add(&x.multiply(&y, d), x.multiply(&z, d)), "left distributivity")?;
    eq(&yz.multiply(&x, d), &Vector::add(&y.multiply(&x, d), z.multiply(&x, d)), "right distributivity")?;
    eq(&Vector::scalar_lmultiply(&x, k()).multiply(&y, d), &Vector::scalar_lmultiply(&x.multiply(&y, d), k()), "scalars move out of the left factor")?;
    eq(&x.multiply(Vector::scalar_rmultiply(&y, k()), d), &Vector::scalar_lmultiply(&x.multiply(&y, d), k()), "scalars move out of the right factor")?;
    let one: V = Vector::from_key(TensorKey::<N>::new());
    let xt = V::of(up(&m_trunc(&a, N, c.d)));
    let yt = V::of(up(&m_trunc(&b, N, c.d)));
    eq(&one.multiply(&x, d), &xt, "left unit")?;
    eq(&x.multiply(&one, d), &xt, "right unit")?;
    eq(&xt.multiply(&yt, d), &x.multiply(&y, d), "truncating the operands first")?;
    let com = |l: &V, r: &V| l.commutator(r, d);
    eq(&com(&x, &y), &Vector::uminus(&com(&y, &x)), "antisymmetry of the commutator")?;
    eq(&com(&x, &yz), &Vector::add(&com(&x, &y), com(&x, &z)), "linearity of the commutator")?;
    eq(&com(&Vector::scalar_lmultiply(&x, k()), &y), &Vector::scalar_lmultiply(&com(&x, &y), k()), "homogeneity of the commutator")?;
    let mut j = com(&x, &com(&y, &z));
    Vector::add_inplace(&mut j, com(&y, &com(&z, &x)));
    Vector::add_inplace(&mut j, com(&z, &com(&x, &y)));
    eq(&j, &V::of(vec![]), "Jacobi identity")
}
fn c18_test(c: &TenCase) -> Check {
    ten_dispatch!(c, c18_case)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WordCase {
    width: u32,
    u: Word,
    v: Word,
    d: u32,
}
fn c18_word<const N: u32>(c: &WordCase) -> Check {
    let (ku, kv) = (TensorKey::<N>::from_letters(&c.u), TensorKey::<N>::from_letters(&c.v));
    let (tu, tv): (Plain<N, Fp>, Plain<N, Fp>) = (Vector::from_key(ku.clone()), Vector::from_key(kv.clone()));
    let p = tu.multiply(&tv, Some(c.d));
    let mut w = c.u.clone();
    w.extend(&c.v);
    let kw = TensorKey::<N>::from_letters(&w);
    let inside = w.len() as u32 <= c.d;
    let mut seen = 0;
    for (i, x) in p.as_slice().iter().enumerate() {
        if !x.zero() {
            ensure_eq!(m_word(i as u128, N), w, "the product of two words has a coefficient at another word");
            ensure_eq!(*x, Fp::of(1), "coefficient of the concatenation");
            seen += 1;
        }
    }
    ensure_eq!(seen, inside as u32, "number of words in the product of {:?} and {:?} up to degree {}", c.u, c.v, c.d);
    let got = Vector::get(&p, &kw).copied().unwrap_or(Fp::of(0));
    ensure_eq!(got, Fp::of(inside as i64), "coefficient of the concatenated key");
    if inside {
        let cat: Plain<N, Fp> = Vector::from_key(ku.concatenate(&kv));
        ensure!(p == cat, "the product of two words is not the vector of their concatenated key");
    }
    Ok(())
}
fn c18_word_test(c: &WordCase) -> Check {
    dispatch_width!(c.width, c18_word(c))
}
pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "triples of tensors over alphabets of 1 to 7 letters (degrees up to 16, 4, 3, 2, 1), a truncation degree and a scalar, on which every law is evaluated through the library's own operations; pairs of words over 40 alphabet widths whose product must be their concatenation; non-trivial = all operands non-zero (triples), not both words empty (words)",
        assumptions: &["a truncation degree is given", "floating point cases use small integers"],
        subs: vec![
            Sub { name: "laws", quick: 60_000, thorough: 2_000_000, always_fork: false, strat: |_| ten_case(false), classify: three_rule, test: c18_test }.boxed(),
            Sub { name: "words", quick: 20_000, thorough: 500_000, always_fork: false,
                strat: |_| prop_oneof![3 => 1u32..=6, 1 => proptest::sample::select(WIDTHS.iter().copied().filter(|w| *w <= 257).collect::<Vec<_>>())]
                    .prop_flat_map(|w| {
                        let m = match w { 1 => 24, 2 => 6, 3 => 4, 4..=6 => 3, 7..=40 => 2, _ => 1 };
                        (Just(w), word_upto(w, m), word_upto(w, m), 0u32..=2 * m + 1)
                    })
                    .prop_filter("size", |(w, u, v, d)| m_start((u.len() + v.len()).min(*d as usize) as u32 + 1, *w) < 70_000)
                    .prop_map(|(width, u, v, d)| WordCase { width, u, v, d }).boxed(),
                classify: |c, l| { l.hit_if(c.d < (c.u.len() + c.v.len()) as u32, "truncated away"); l.hit_if(c.width > 7, "more than seven letters"); !(c.u.is_empty() && c.v.is_empty()) },
                test: c18_word_test }.boxed(),
        ],
    }
}
