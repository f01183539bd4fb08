//! Sub-checks of C06-C09 and C11-C13 on vectors of up to some hundred thousand coefficients: one operation per case, the
//! content derived from a seed so that cases stay small. The model is a plain list of coefficients.

use crate::dict::near32;
use crate::engine::*;
use crate::prog::*;
use crate::scal::{Fp, Lib, Scal};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, Vector, VectorKeyExt};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Huge {
    /// 0 dense, 1 dense with another dimension policy, 2 sparse, 3 wrapped dense, 4 wrapped sparse
    rep: u8,
    /// prime field or f64
    float: bool,
    na: u32,
    nb: u32,
    /// one coefficient in so many is not zero
    gap: u8,
    seed: u64,
    op: u8,
    s: i64,
    keys: Vec<u32>,
}
fn mix(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_add((i + 1).wrapping_mul(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn content<M: Scal>(seed: u64, n: u32, gap: u8) -> Vec<M> {
    (0..n as u64)
        .map(|i| {
            let h = mix(seed, i);
            // the last coefficient is never zero, so that the vector really is that long
            let v = if (h >> 32) % gap.max(1) as u64 == 0 || i + 1 == n as u64 { [1, 2, -1, 4, -2, 8][(h % 6) as usize] } else { 0 };
            M::of_int(v)
        })
        .collect()
}
fn build<S: Lib, V: Gen<Lin<0>, S>>(m: &[S::M]) -> V {
    V::from_iterator(m.iter().enumerate().filter(|(_, x)| !x.zero()).map(|(i, x)| (K(i as u32), S::up(*x))))
}
fn at<M: Scal>(m: &[M], i: usize) -> M {
    m.get(i).copied().unwrap_or(M::of_int(0))
}
fn agrees<S: Lib, V: Gen<Lin<0>, S>>(v: &V, m: &[S::M], what: &str) -> Check {
    for i in 0..m.len() + 3 {
        let got = Vector::get(v, K(i as u32)).map(|x| x.m()).unwrap_or(S::M::of_int(0));
        if got != at(m, i) {
            return Err(format!("{}: coefficient of key {}: got {:?}, expected {:?}", what, i, got, at(m, i)));
        }
    }
    Ok(())
}
fn zip<M: Scal>(a: &[M], b: &[M], f: impl Fn(M, M) -> M) -> Vec<M> {
    (0..a.len().max(b.len())).map(|i| f(at(a, i), at(b, i))).collect()
}

pub const ELEMENTS: &[u8] = &[0, 1, 2, 3, 4, 5, 6];
pub const ARITHMETIC: &[u8] = &[10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21];
pub const KEYED: &[u8] = &[30];
pub const EQUALITY: &[u8] = &[40];

fn generic<S: Lib, V: Gen<Lin<0>, S>>(c: &Huge) -> Check {
    let a: Vec<S::M> = content(c.seed, c.na, c.gap);
    let b: Vec<S::M> = content(c.seed ^ 0x5555, c.nb, c.gap);
    let mult = || S::of(S::mult(c.s));
    let mm = S::M::of_int(S::mult(c.s));
    let den = || S::den(S::divisor(c.s));
    let dd = S::divisor(c.s);
    let key = |n: usize| if n == 0 { 0 } else { n - 1 };
    let mut va: V = build(&a);
    match c.op {
        0 => {
            // construction from pairs in another order, each coefficient in two parts
            let n = a.len() as u64;
            let step = [1u64, 7919, 104729, 65537].into_iter().find(|s| n > 0 && gcd(*s, n) == 1).unwrap_or(1);
            let order = (0..n).map(|i| (i * step + c.seed % n) % n);
            let half = |x: S::M| x.mmul(S::M::of_int(2));
            let pairs: Vec<(K, S)> = order.clone().map(|i| (i, half(a[i as usize]))).chain(order.map(|i| (i, a[i as usize].mneg()))).map(|(i, x)| (K(i as u32), S::up(x))).collect();
            agrees(&V::from_iterator(pairs), &a, "construction from pairs")
        }
        1 => {
            Vector::insert(&mut va, b.iter().enumerate().rev().map(|(i, x)| (K(i as u32), S::up(*x))));
            let e: Vec<S::M> = (0..a.len().max(b.len())).map(|i| if i < b.len() { b[i] } else { a[i] }).collect();
            agrees(&va, &e, "inserting")
        }
        2 => {
            let mut e = a.clone();
            for k in &c.keys {
                Vector::erase(&mut va, K(*k));
                if let Some(x) = e.get_mut(*k as usize) {
                    *x = S::M::of_int(0);
                }
            }
            let step = (c.s.unsigned_abs() % 5 + 1) as usize;
            for k in (0..a.len()).step_by(step) {
                Vector::erase(&mut va, K(k as u32));
                e[k] = S::M::of_int(0);
            }
            agrees(&va, &e, "erasing")
        }
        3 => {
            let mut vb: V = build(&b);
            Vector::swap(&mut va, &mut vb);
            agrees(&va, &b, "swapped first")?;
            agrees(&vb, &a, "swapped second")
        }
        4 => {
            let copy = Vector::to_owned(&va);
            for k in c.keys.iter().copied().chain([key(a.len()) as u32]) {
                Vector::insert_single(&mut va, &K(k), S::of(77));
            }
            agrees(&copy, &a, "copy after its original changed")
        }
        5 => {
            Vector::clear(&mut va);
            agrees(&va, &[], "cleared")?;
            let mut e = vec![];
            for k in c.keys.iter().copied().chain([key(a.len()) as u32]) {
                Vector::insert_single(&mut va, &K(k), S::of(4));
                if e.len() <= k as usize {
                    e.resize(k as usize + 1, S::M::of_int(0));
                }
                e[k as usize] = S::M::of_int(4);
            }
            e.resize(e.len().max(a.len()), S::M::of_int(0));
            agrees(&va, &e, "cleared and filled again")
        }
        6 => {
            let mut e = a.clone();
            for (i, x) in e.iter_mut().enumerate() {
                match Vector::get_mut(&mut va, K(i as u32)) {
                    Some(y) => {
                        ensure_eq!(y.m(), *x, "mutable reference to coefficient {}", i);
                        *y = S::of(i as i64 % 16);
                        *x = S::M::of_int(i as i64 % 16);
                    }
                    None => ensure!(x.zero(), "coefficient {} has no mutable reference", i),
                }
            }
            agrees(&va, &e, "overwritten")
        }
        10..=17 => {
            let vb: V = build(&b);
            let (e, what) = match c.op {
                10 => { Vector::add_inplace(&mut va, &vb); (zip(&a, &b, |x, y| x.madd(y)), "in-place sum") }
                11 => { Vector::sub_inplace(&mut va, &vb); (zip(&a, &b, |x, y| x.msub(y)), "in-place difference") }
                12 => { let r = Vector::add(&va, &vb); agrees(&va, &a, "left operand of a sum")?; va = r; (zip(&a, &b, |x, y| x.madd(y)), "sum") }
                13 => { let r = Vector::sub(&va, &vb); agrees(&va, &a, "left operand of a difference")?; va = r; (zip(&a, &b, |x, y| x.msub(y)), "difference") }
                14 => { Vector::add_scalar_rmultiply(&mut va, &vb, mult()); (zip(&a, &b, |x, y| x.madd(y.mmul(mm))), "adding a multiple") }
                15 => { Vector::sub_scalar_lmultiply(&mut va, &vb, mult()); (zip(&a, &b, |x, y| x.msub(y.mmul(mm))), "subtracting a multiple") }
                16 => { Vector::add_scalar_ldivide(&mut va, &vb, den()); (zip(&a, &b, |x, y| x.madd(y.mdiv(dd))), "adding a quotient") }
                _ => { Vector::sub_scalar_rdivide(&mut va, &vb, den()); (zip(&a, &b, |x, y| x.msub(y.mdiv(dd))), "subtracting a quotient") }
            };
            agrees(&va, &e, what)?;
            agrees(&vb, &b, "right operand")
        }
        18 => {
            let e: Vec<S::M> = a.iter().map(|x| x.mneg()).collect();
            agrees(&Vector::uminus(&va), &e, "negative")?;
            agrees(&va, &a, "operand of a negation")?;
            Vector::uminus_inplace(&mut va);
            agrees(&va, &e, "in-place negation")
        }
        19 => {
            let e: Vec<S::M> = a.iter().map(|x| x.mmul(mm)).collect();
            agrees(&Vector::scalar_rmultiply(&va, mult()), &e, "scalar product")?;
            Vector::scalar_lmultiply_inplace(&mut va, mult());
            agrees(&va, &e, "in-place scalar product")
        }
        20 => {
            let e: Vec<S::M> = a.iter().map(|x| x.mdiv(dd)).collect();
            agrees(&Vector::scalar_rdivide(&va, den()), &e, "scalar quotient")?;
            Vector::scalar_ldivide_inplace(&mut va, den());
            agrees(&va, &e, "in-place scalar quotient")
        }
        21 => {
            // everything cancels
            let vb: V = build(&a);
            Vector::sub_inplace(&mut va, &vb);
            agrees(&va, &zip(&a, &a, |x, y| x.msub(y)), "difference of a vector and itself")
        }
        30 => {
            let mut e = a.clone();
            for (n, k) in c.keys.iter().copied().chain([0, key(a.len()) as u32, a.len() as u32]).enumerate() {
                if e.len() <= k as usize {
                    e.resize(k as usize + 1, S::M::of_int(0));
                }
                let x = &mut e[k as usize];
                match n % 4 {
                    0 => { VectorKeyExt::add_scalar_multiply(&mut va, &K(k), mult()); *x = x.madd(mm) }
                    1 => { VectorKeyExt::sub_scalar_multiply(&mut va, &K(k), mult()); *x = x.msub(mm) }
                    2 => { VectorKeyExt::add_scalar_divide(&mut va, &K(k), den()); *x = x.madd(S::M::of_int(1).mdiv(dd)) }
                    _ => { VectorKeyExt::sub_scalar_divide(&mut va, &K(k), den()); *x = x.msub(S::M::of_int(1).mdiv(dd)) }
                };
            }
            agrees(&va, &e, "single-key updates")
        }
        _ => {
            let mut other: V = build(&a);
            ensure!(va == va, "a vector does not equal itself");
            ensure!(va == other && other == va, "two vectors built alike do not compare equal");
            let copy = Vector::to_owned(&va);
            ensure!(copy == va && va == copy, "a copy does not equal its original");
            // a copy of a vector that has lost its last coefficients
            let mut short = Vector::to_owned(&va);
            for k in (0..a.len()).rev().take(c.nb as usize % (c.na as usize + 1)) {
                Vector::erase(&mut short, K(k as u32));
            }
            let copy = Vector::to_owned(&short);
            ensure!(copy == short && short == copy, "a copy of a vector whose last coefficients were erased does not equal it");
            // as many more coefficients as some count or index may wrap around at
            let mut longer = Vector::to_owned(&va);
            let extra = if c.seed % 8 == 0 { 1 << 16 } else { 256 };
            Vector::insert(&mut longer, (0..extra).map(|i| (K(c.na + i), S::of(1))));
            ensure!(!(longer == va) && !(va == longer), "a vector with {} coefficients more compares equal", extra);
            // a coefficient at another key
            if let Some(i) = c.keys.iter().map(|k| *k as usize).find(|k| !at(&a, *k).zero()) {
                let mut moved = Vector::to_owned(&va);
                Vector::erase(&mut moved, K(i as u32));
                Vector::insert_single(&mut moved, &K(c.na + 1), S::up(a[i]));
                ensure!(!(moved == va) && !(va == moved), "a copy with the coefficient of key {} moved to key {} compares equal", i, c.na + 1);
            }
            for k in c.keys.iter().copied().chain([key(a.len()) as u32]) {
                let old = at(&a, k as usize);
                let new = old.madd(S::M::of_int(1));
                Vector::insert_single(&mut other, &K(k), S::up(new));
                ensure!(!(va == other) && !(other == va), "a copy with the coefficient of key {} changed still compares equal", k);
                if (k as usize) < a.len() && !old.zero() {
                    Vector::insert_single(&mut other, &K(k), S::up(old));
                    ensure!(va == other, "the coefficient of key {} changed and changed back: no longer equal", k);
                } else {
                    other = build(&a);
                }
            }
            Ok(())
        }
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
/// what only plain dense vectors have
fn plain<S: Lib>(c: &Huge) -> Check {
    let a: Vec<S::M> = content(c.seed, c.na, c.gap);
    let mut v: Dense<Lin<0>, S> = Dense::<Lin<0>, S>::from(a.iter().map(|x| S::up(*x)).collect());
    let see = |v: &Dense<Lin<0>, S>, m: &[S::M], n: usize, what: &str| -> Check {
        let s = DenseVector::as_slice(v);
        ensure_eq!(s.len(), n, "{}: length of the slice", what);
        for (i, x) in s.iter().enumerate() {
            if x.m() != at(m, i) {
                return Err(format!("{}: slice at {}: got {:?}, expected {:?}", what, i, x, at(m, i)));
            }
        }
        Ok(())
    };
    see(&v, &a, a.len(), "from raw data")?;
    see(&v.clone(), &a, a.len(), "clone")?;
    ResizeableDenseVector::resize(&mut v, c.nb as usize);
    see(&v, &a, c.nb as usize, "resized")?;
    let kept = &a[..a.len().min(c.nb as usize)];
    ResizeableDenseVector::resize(&mut v, c.na as usize);
    see(&v, kept, c.na as usize, "resized back")
}
fn run<S: Lib>(c: &Huge) -> Check {
    match c.rep {
        0 => {
            if ELEMENTS.contains(&c.op) {
                plain::<S>(c)?;
            }
            generic::<S, Dense<Lin<0>, S>>(c)
        }
        2 => generic::<S, Sparse<Lin<0>, S>>(c),
        3 => generic::<S, Wrap<Dense<Lin<0>, S>>>(c),
        _ => generic::<S, Wrap<Sparse<Lin<0>, S>>>(c),
    }
}
fn test(c: &Huge) -> Check {
    if c.float {
        run::<f64>(c)
    } else {
        run::<Fp>(c)
    }
}
fn size() -> BoxedStrategy<u32> {
    prop_oneof![
        1 => 0u32..400,
        2 => (8u32..17).prop_flat_map(|b| (1u32 << b)..(2 << b)),
        2 => (8u32..18, -2i64..=2).prop_map(|(b, o)| ((1i64 << b) + o) as u32),
        1 => near32(0, 1 << 18),
    ]
    .boxed()
}
fn strat(reps: &'static [u8], ops: &'static [u8]) -> BoxedStrategy<Huge> {
    (proptest::sample::select(reps), any::<bool>(), size(), size(), prop_oneof![Just(1u8), Just(2u8), Just(17u8)], any::<u64>(), proptest::sample::select(ops), coef_strategy(), proptest::collection::vec((prop_oneof![5 => 0u32..=1 << 17, 1 => near32(0, 1 << 17)], 0u8..3), 0..6))
        .prop_map(|(rep, float, na, nb, gap, seed, op, s, ks)| {
            let keys = ks.into_iter().map(|(k, w)| if w > 0 && na > 0 { k % na } else { k }).collect();
            Huge { rep, float, na, nb, gap, seed, op, s, keys }
        })
        .boxed()
}
fn rule(c: &Huge, l: &mut Labels) -> bool {
    let n = c.na.max(c.nb);
    l.hit_if(n >= 1 << 12, "4096 coefficients or more");
    l.hit_if(n >= 1 << 16, "65536 coefficients or more");
    l.hit_if(c.rep == 2 || c.rep == 4, "sparse");
    n >= 256
}
macro_rules! huge {
    ($f:ident, $reps:expr, $ops:expr) => {
        pub fn $f(quick: u64) -> Box<dyn ErasedSub> {
            Sub { name: "huge", quick, thorough: quick * 30, always_fork: false, strat: |_| strat(&$reps, $ops), classify: rule, test }.boxed()
        }
    };
}
huge!(dense_elements, [0], ELEMENTS);
huge!(dense_arithmetic, [0], ARITHMETIC);
huge!(sparse_elements, [2], ELEMENTS);
huge!(sparse_arithmetic, [2], ARITHMETIC);
huge!(keyed, [0, 2], KEYED);
huge!(equality, [0, 2, 3, 4], EQUALITY);
const ALL: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 30];
huge!(wrapped, [3, 4], ALL);
