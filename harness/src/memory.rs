//! Histories mixing every tensor operation, and C22: no operation leaves its storage or crashes.

use crate::dict::near32;
use crate::engine::*;
use crate::prog::coef_strategy;
use crate::scal::{arm, down, tick, up, Den, Fp, Hp, Lib, Scal};
use crate::tensors::*;
use crate::words::{m_degree, m_word};
use crate::ensure_eq;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::free_tensor::{FreeTensor, TensorKey};
use rustyalgebra::vector::Vector;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Make(u8, T),
    /// construction from pairs, with a size hint that may be wrong
    Pairs(u8, Vec<(u32, i64)>, u8),
    /// insertion of pairs, likewise
    InsertAll(u8, Vec<(u32, i64)>, u8),
    Insert(u8, u32, i64),
    Erase(u8, u32),
    Resize(u8, u32),
    Clear(u8),
    Swap(u8, u8),
    AddIn(u8, u8),
    SubIn(u8, u8),
    NegIn(u8),
    Scale(u8, i64),
    Div(u8, i64),
    /// operand, scalar, which of the fused forms
    Fused(u8, u8, i64, u8),
    /// compare two registers
    Eq(u8, u8),
    // products: destination, operands, truncation degree
    Mul(u8, u8, u8, u32),
    AddMul(u8, u8, u8, bool, u32),
    Comm(u8, u8, u8, u32),
    /// which in-place product, target, right operand, scalar, degree
    MulIn(u8, u8, u8, i64, u32),
    Exp(u8, u8),
    Log(u8, u8),
    Fmexp(u8, u8),
}
use HOp::*;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    inst: u8,
    ops: Vec<HOp>,
    /// the operation (modulo their number) that is interrupted, and after how many coefficient operations
    #[serde(default)]
    cut: Option<(u8, u16)>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Class {
    Degree,
    Product,
    Accumulate,
    InPlace,
    Exp,
    Log,
    Fmexp,
    None,
}
fn class(o: &HOp) -> Class {
    match o {
        Mul(..) => Class::Product,
        AddMul(..) | Comm(..) => Class::Accumulate,
        MulIn(..) => Class::InPlace,
        HOp::Exp(..) => Class::Exp,
        HOp::Log(..) => Class::Log,
        HOp::Fmexp(..) => Class::Fmexp,
        _ => Class::None,
    }
}
const REGS: usize = 4;

/// Runs the history; operations of the class `k` are compared with the model applied to the tensors' actual content
/// before the operation, so that a defect elsewhere is not blamed on them.
fn run<const N: u32, S, V>(h: &Hist, k: Class) -> Check
where
    S: Lib<M = Fp, R = Den>,
    V: Ten<N, S> + FreeTensor<'static, S, N>,
{
    let mut regs: Vec<V> = (0..REGS).map(|_| V::of(vec![])).collect();
    for (n, op) in h.ops.iter().enumerate() {
        match h.cut {
            Some((at, after)) if at as usize % h.ops.len() == n => {
                // the coefficients panic half way; whatever the operation has done by then, the vectors stay usable
                let done = guarded(|| {
                    arm(1 + after as u32);
                    step::<N, S, V>(&mut regs, n, op, Class::None)
                });
                arm(0);
                match done {
                    Err(m) if !m.contains("interrupted by the coefficients") => return Err(m),
                    _ => {}
                }
            }
            _ => step::<N, S, V>(&mut regs, n, op, k)?,
        }
    }
    Ok(())
}
/// Pairs with a size hint that need not be right.
struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
fn hinted<'a, const N: u32, S: Lib<M = Fp, R = Den>>(p: &'a [(u32, i64)], hint: u8) -> impl Iterator<Item = (TensorKey<N>, S)> + 'a {
    let h = match hint % 4 {
        0 => (p.len(), Some(p.len())),
        1 => (0, None),
        2 => (0, Some(0)),
        _ => (p.len() + 300, None),
    };
    Hinted(p.iter().map(|(i, s)| {
        let w = m_word((*i % 60) as u128, N);
        (TensorKey::<N>::from_letters(&w[..w.len().min(50)]), S::of(*s))
    }), h)
}
fn step<const N: u32, S, V>(regs: &mut Vec<V>, n: usize, op: &HOp, k: Class) -> Check
where
    S: Lib<M = Fp, R = Den>,
    V: Ten<N, S> + FreeTensor<'static, S, N>,
{
    let d = V::MAX_DEGREE;
    let top = cap2(N);
    let read = |regs: &Vec<V>| -> Vec<Vec<Fp>> { regs.iter().map(|r| down(r.as_slice())).collect() };
    {
        let pre = read(&regs);
        let at = |r: &u8| *r as usize % REGS;
        let deg = |x: &u32| (*x).min(top + 1);
        let dest;
        let expect: Option<Vec<Fp>> = match op {
            Make(r, t) => {
                dest = at(r);
                regs[dest] = V::of(up(&t.scalars(N, top)));
                None
            }
            Pairs(r, p, hint) => {
                dest = at(r);
                regs[dest] = V::from_iterator(hinted::<N, S>(p, *hint));
                None
            }
            InsertAll(r, p, hint) => {
                dest = at(r);
                Vector::insert(&mut regs[dest], hinted::<N, S>(p, *hint));
                None
            }
            Insert(r, i, s) => {
                dest = at(r);
                let w = m_word((*i % 60) as u128, N);
                Vector::insert_single(&mut regs[dest], &TensorKey::<N>::from_letters(&w[..w.len().min(50)]), S::of(*s));
                None
            }
            Erase(r, i) => {
                dest = at(r);
                let w = m_word((*i % 60) as u128, N);
                Vector::erase(&mut regs[dest], TensorKey::<N>::from_letters(&w[..w.len().min(50)]));
                None
            }
            Resize(r, n) => {
                dest = at(r);
                regs[dest].resize(if N == 1 { *n as usize % 28 } else { *n as usize });
                None
            }
            Clear(r) => {
                dest = at(r);
                Vector::clear(&mut regs[dest]);
                None
            }
            Swap(a, b) => {
                dest = at(a);
                if at(a) != at(b) {
                    let mut t = std::mem::replace(&mut regs[at(b)], V::new());
                    Vector::swap(&mut regs[dest], &mut t);
                    regs[at(b)] = t;
                }
                None
            }
            AddIn(a, b) => {
                dest = at(a);
                let t = Vector::to_owned(&regs[at(b)]);
                Vector::add_inplace(&mut regs[dest], t);
                None
            }
            SubIn(a, b) => {
                dest = at(a);
                let t = Vector::to_owned(&regs[at(b)]);
                Vector::sub_inplace(&mut regs[dest], t);
                None
            }
            NegIn(a) => {
                dest = at(a);
                Vector::uminus_inplace(&mut regs[dest]);
                None
            }
            Div(a, s) => {
                dest = at(a);
                Vector::scalar_rdivide_inplace(&mut regs[dest], Fp::den(Fp::divisor(*s)));
                None
            }
            Fused(a, b, s, w) => {
                dest = at(a);
                let t = Vector::to_owned(&regs[at(b)]);
                let x = &mut regs[dest];
                match w % 4 {
                    0 => Vector::add_scalar_rmultiply(x, &t, S::of(*s)),
                    1 => Vector::sub_scalar_lmultiply(x, &t, S::of(*s)),
                    2 => Vector::add_scalar_ldivide(x, &t, Fp::den(Fp::divisor(*s))),
                    _ => Vector::sub_scalar_rdivide(x, &t, Fp::den(Fp::divisor(*s))),
                };
                None
            }
            Eq(a, b) => {
                dest = at(a);
                let _ = std::hint::black_box(regs[dest] == regs[at(b)]);
                None
            }
            Scale(a, s) => {
                dest = at(a);
                Vector::scalar_lmultiply_inplace(&mut regs[dest], S::of(*s));
                None
            }
            Mul(x, a, b, e) => {
                dest = at(x);
                let t = regs[at(a)].multiply(&regs[at(b)], Some(deg(e)));
                regs[dest] = t;
                Some(m_prod(&pre[at(a)], &pre[at(b)], N, deg(e)))
            }
            AddMul(x, a, b, neg, e) => {
                dest = at(x);
                let (l, r) = (Vector::to_owned(&regs[at(a)]), Vector::to_owned(&regs[at(b)]));
                let p = m_prod(&pre[at(a)], &pre[at(b)], N, deg(e));
                if *neg {
                    regs[dest].sub_mul(&l, &r, Some(deg(e)));
                    Some(m_sub(&pre[dest], &p))
                } else {
                    regs[dest].add_mul(&l, &r, Some(deg(e)));
                    Some(m_add(&pre[dest], &p))
                }
            }
            Comm(x, a, b, e) => {
                dest = at(x);
                let t = regs[at(a)].commutator(&regs[at(b)], Some(deg(e)));
                regs[dest] = t;
                let (p, q) = (m_prod(&pre[at(a)], &pre[at(b)], N, deg(e)), m_prod(&pre[at(b)], &pre[at(a)], N, deg(e)));
                Some(m_sub(&p, &q))
            }
            MulIn(w, a, b, s, e) => {
                dest = at(a);
                let r = Vector::to_owned(&regs[at(b)]);
                let e = deg(e);
                let p = m_prod(&pre[dest], &pre[at(b)], N, e);
                let t = &mut regs[dest];
                let (m, q) = (Fp::of(*s), Fp::divisor(*s));
                match w % 5 {
                    0 => {
                        t.multiply_inplace(&r, Some(e));
                        Some(p)
                    }
                    1 => {
                        t.mul_scal_lprod(&r, S::up(m), Some(e));
                        Some(p.iter().map(|v| v.mmul(m)).collect())
                    }
                    2 => {
                        t.mul_scal_rprod(&r, S::up(m), Some(e));
                        Some(p.iter().map(|v| v.mmul(m)).collect())
                    }
                    3 => {
                        t.mul_rat_ldiv(&r, Fp::den(q), Some(e));
                        Some(p.iter().map(|v| v.mdiv(q)).collect())
                    }
                    _ => {
                        t.mul_rat_rdiv(&r, Fp::den(q), Some(e));
                        Some(p.iter().map(|v| v.mdiv(q)).collect())
                    }
                }
            }
            HOp::Exp(x, a) => {
                dest = at(x);
                let t = regs[at(a)].exp();
                regs[dest] = t;
                Some(crate::series::m_exp(&pre[at(a)], N, d))
            }
            HOp::Log(x, a) => {
                dest = at(x);
                let t = regs[at(a)].log();
                regs[dest] = t;
                Some(crate::series::m_log(&pre[at(a)], N, d))
            }
            HOp::Fmexp(a, x) => {
                dest = at(a);
                if pre[dest].len() > 0 && m_degree(pre[dest].len() as u128 - 1, N) > d {
                    return Ok(()); // outside the domain of the operation
                }
                let r = Vector::to_owned(&regs[at(x)]);
                regs[dest].fmexp(&r);
                Some(m_prod(&pre[dest], &crate::series::m_exp(&crate::series::no_unit(&pre[at(x)]), N, d), N, d))
            }
        };
        if k == Class::None {
            return Ok(());
        }
        if k == Class::Degree {
            for r in 0..REGS {
                let s = regs[r].as_slice().len();
                let want = if s == 0 { 0 } else { m_degree(s as u128 - 1, N) };
                ensure_eq!(regs[r].degree(), want, "degree of register {} of dimension {} after step {} {:?}", r, s, n, op);
            }
        } else if class(op) == k {
            agree(&regs[dest], &expect.unwrap(), "result").map_err(|e| format!("step {} {:?}: {}", n, op, e))?;
            for r in 0..REGS {
                if r != dest {
                    same(&regs[r], &pre[r], &format!("register {} in step {} {:?}", r, n, op))?;
                }
            }
        }
    }
    Ok(())
}
pub fn hist_test(h: &Hist, k: Class) -> Check {
    match h.inst {
        0 => run::<2, Fp, Ft<Fp, 2, 3>>(h, k),
        1 => run::<2, Fp, Ft<Fp, 2, 5>>(h, k),
        2 => run::<2, Fp, Plain<2, Fp>>(h, k),
        3 => run::<3, Fp, Ft<Fp, 3, 2>>(h, k),
        4 => run::<3, Fp, Plain<3, Fp>>(h, k),
        5 => run::<3, Fp, Ft<Fp, 3, 4>>(h, k),
        6 => run::<1, Fp, Ft<Fp, 1, 4>>(h, k),
        7 => run::<1, Fp, Ft<Fp, 1, 20>>(h, k),
        8 => run::<4, Fp, Ft<Fp, 4, 2>>(h, k),
        9 => run::<5, Fp, Ft<Fp, 5, 2>>(h, k),
        10 => run::<7, Fp, Ft<Fp, 7, 2>>(h, k),
        11 => run::<2, Fp, Ft<Fp, 2, 2>>(h, k),
        12 => run::<2, Hp, Ft<Hp, 2, 3>>(h, k),
        _ => run::<3, Hp, Ft<Hp, 3, 2>>(h, k),
    }
}
/// Histories in which operations of the class are frequent.
pub fn hist_strat(k: Class) -> BoxedStrategy<Hist> {
    let r = || 0u8..REGS as u8;
    let e = || prop_oneof![6 => 0u32..=5, 1 => 0u32..=26];
    let w = |c: Class| if c == k { 10 } else { 1 };
    let op = prop_oneof![
        4 => (r(), tensor()).prop_map(|(a, t)| Make(a, t)),
        1 => (r(), proptest::collection::vec((any::<u32>(), coef_strategy()), 0..12), any::<u8>()).prop_map(|(a, p, h)| Pairs(a, p, h)),
        1 => (r(), proptest::collection::vec((any::<u32>(), coef_strategy()), 0..8), any::<u8>()).prop_map(|(a, p, h)| InsertAll(a, p, h)),
        2 => (r(), any::<u32>(), coef_strategy()).prop_map(|(a, i, s)| Insert(a, i, s)),
        1 => (r(), any::<u32>()).prop_map(|(a, i)| Erase(a, i)),
        3 => (r(), prop_oneof![4 => 0u32..20, 4 => 0u32..130, 1 => near32(0, 600)]).prop_map(|(a, n)| Resize(a, n)),
        1 => r().prop_map(Clear),
        1 => (r(), r()).prop_map(|(a, b)| Swap(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| AddIn(a, b)),
        1 => (r(), coef_strategy()).prop_map(|(a, s)| Scale(a, s)),
        1 => (r(), r()).prop_map(|(a, b)| SubIn(a, b)),
        1 => r().prop_map(NegIn),
        1 => (r(), coef_strategy()).prop_map(|(a, s)| Div(a, s)),
        1 => (r(), r(), coef_strategy(), any::<u8>()).prop_map(|(a, b, s, w)| Fused(a, b, s, w)),
        1 => (r(), r()).prop_map(|(a, b)| Eq(a, b)),
        w(Class::Product) => (r(), r(), r(), e()).prop_map(|(x, a, b, d)| Mul(x, a, b, d)),
        w(Class::Accumulate) => (r(), r(), r(), any::<bool>(), e()).prop_map(|(x, a, b, s, d)| AddMul(x, a, b, s, d)),
        w(Class::Accumulate).min(3) => (r(), r(), r(), e()).prop_map(|(x, a, b, d)| Comm(x, a, b, d)),
        w(Class::InPlace) => (0u8..5, r(), r(), coef_strategy(), e()).prop_map(|(k, a, b, s, d)| MulIn(k, a, b, s, d)),
        w(Class::Exp).min(5) => (r(), r()).prop_map(|(x, a)| HOp::Exp(x, a)),
        w(Class::Log).min(5) => (r(), r()).prop_map(|(x, a)| HOp::Log(x, a)),
        w(Class::Fmexp).min(5) => (r(), r()).prop_map(|(x, a)| HOp::Fmexp(x, a)),
    ];
    (0u8..14, proptest::collection::vec(tensor(), REGS), proptest::collection::vec(op, 1..12))
        .prop_map(|(inst, init, ops)| {
            let mut all: Vec<HOp> = init.into_iter().enumerate().map(|(i, t)| Make(i as u8, t)).collect();
            all.extend(ops);
            Hist { inst, ops: all, cut: None }
        })
        .boxed()
}
/// Histories over coefficients that own memory, one operation of which is interrupted by a panic of the coefficients.
fn cut_strat() -> BoxedStrategy<Hist> {
    (hist_strat(Class::None), any::<u8>(), prop_oneof![0u16..12, 0u16..200], 12u8..14)
        .prop_map(|(h, at, after, inst)| {
            let first = REGS as u8;
            let n = (h.ops.len() - REGS) as u8;
            Hist { inst, cut: Some((first + at % n, after)), ops: h.ops }
        })
        .boxed()
}
fn hist_rule(h: &Hist, k: Class, l: &mut Labels) -> bool {
    l.hit_if(h.ops.iter().any(|o| matches!(o, Resize(..))), "has a resize");
    l.hit_if(h.inst >= 12, "coefficients owning memory");
    l.hit_if(h.ops.iter().filter(|o| class(o) == k).count() >= 2, "operation repeated");
    let n = h.ops.iter().filter(|o| class(o) == k && k != Class::None || class(o) != Class::None && (k == Class::None || k == Class::Degree)).count();
    n >= 1
}
macro_rules! hist_sub {
    ($fn:ident, $k:expr) => {
        pub fn $fn(quick: u64, thorough: u64) -> Box<dyn ErasedSub> {
            Sub { name: "history", quick, thorough, always_fork: false, strat: |_| hist_strat($k), classify: |h, l| hist_rule(h, $k, l), test: |h| hist_test(h, $k) }.boxed()
        }
    };
}
hist_sub!(hist_degree, Class::Degree);
hist_sub!(hist_product, Class::Product);
hist_sub!(hist_accumulate, Class::Accumulate);
hist_sub!(hist_inplace, Class::InPlace);
hist_sub!(hist_exp, Class::Exp);
hist_sub!(hist_log, Class::Log);
hist_sub!(hist_fmexp, Class::Fmexp);

// ---------- C22 ----------

/// Only a crash counts: wrong results belong to other properties, and so does a panic raised by the check itself.
fn survives(r: impl FnOnce() -> Check) -> Check {
    match guarded(r) {
        Err(m) if m.starts_with("panic: ") && !m.contains(" at src/") => Err(m),
        _ => Ok(()),
    }
}
/// The sub-check under AddressSanitizer and again under memcheck.
fn both<T>(mk: fn(&'static str) -> Sub<T>, asan: &'static str, memcheck: &'static str, quick: u64, thorough: u64) -> [Box<dyn ErasedSub>; 2]
where
    T: Serialize + serde::de::DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    [mk(asan).boxed(), Memcheck { sub: mk(memcheck), quick, thorough }.boxed()]
}
pub fn c22() -> Property {
    use crate::vectors as v;
    let mut subs: Vec<Box<dyn ErasedSub>> = vec![];
    subs.extend(both(|name| Sub { name, quick: 18_000, thorough: 600_000, always_fork: false, strat: |_| v::all_mix(), classify: |c, l| { v::prog_labels(c, l); c.ops.len() >= 2 }, test: |c| survives(|| v::dense_test(c)) },
        "dense history", "dense history (memcheck)", 400, 6_000));
    subs.extend(both(|name| Sub { name, quick: 18_000, thorough: 600_000, always_fork: false, strat: |_| hist_strat(Class::None), classify: |h, l| hist_rule(h, Class::None, l), test: |h| survives(|| hist_test(h, Class::Degree)) },
        "tensor history", "tensor history (memcheck)", 600, 10_000));
    subs.extend(both(|name| Sub { name, quick: 18_000, thorough: 600_000, always_fork: false, strat: |_| ten_case(true), classify: two_rule, test: |c| survives(|| c15_test(c)) },
        "product", "product (memcheck)", 600, 10_000));
    subs.extend(both(|name| Sub { name, quick: 12_000, thorough: 400_000, always_fork: false, strat: |_| ten_case(true), classify: two_rule, test: |c| survives(|| c16_test(c)) },
        "accumulate", "accumulate (memcheck)", 400, 6_000));
    subs.extend(both(|name| Sub { name, quick: 12_000, thorough: 400_000, always_fork: false, strat: |_| ten_case(true), classify: two_rule, test: |c| survives(|| c17_test(c)) },
        "in place", "in place (memcheck)", 400, 6_000));
    subs.extend(both(|name| Sub { name, quick: 3_000, thorough: 100_000, always_fork: false, strat: crate::series::strat, classify: crate::series::rule, test: |c| survives(|| crate::series::all_test(c)) },
        "series", "series (memcheck)", 160, 2_000));
    subs.extend(both(|name| Sub { name, quick: 12_000, thorough: 400_000, always_fork: false, strat: |_| cut_strat(), classify: |h, l| hist_rule(h, Class::None, l), test: |h| survives(|| hist_test(h, Class::Degree)) },
        "interrupted history", "interrupted history (memcheck)", 300, 5_000));
    subs.push(Sub { name: "wrapped", quick: 7_000, thorough: 200_000, always_fork: false, strat: |_| v::portable_mix(), classify: |c, l| { v::prog_labels(c, l); c.ops.len() >= 2 }, test: |c| survives(|| v::c10_test(c)) }.boxed());
    #[cfg(feature = "hooks")]
    {
        use crate::borrowed as b;
        subs.extend(both(|name| Sub { name, quick: 12_000, thorough: 400_000, always_fork: false, strat: b::strat, classify: b::rule, test: |c| survives(|| b::history(c)) },
            "borrowed history", "borrowed history (memcheck)", 400, 6_000));
        subs.push(Sub { name: "borrowed products", quick: 7_000, thorough: 200_000, always_fork: false, strat: |_| ten_case(true), classify: two_rule, test: |c| survives(|| b::products(c)) }.boxed());
    }
    Property {
        id: "C22",
        rule: "histories of vector operations over nine bases, of tensor operations over seven alphabets, products, series and borrowed storage, executed under AddressSanitizer with unchecked-index assertions and, in smaller number, under Valgrind memcheck; only a crash, a sanitizer report or a panic inside the library counts; non-trivial = at least two operations, or two non-zero operands",
        assumptions: &["the basis gives every key a dimension larger than its index", "a truncation degree is given", "divisors are not zero"],
        subs,
    }
}
