//! C19-C21: exponential, logarithm, fused multiply-exponential.

use crate::engine::*;
use crate::prog::coef_strategy;
use crate::scal::{down, up, Fp, Hp, Lib, Scal};
use crate::tensors::*;
use crate::words::{m_start, m_word};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::free_tensor::{FreeTensor, TensorKey};
use rustyalgebra::vector::Vector;
use serde::{Deserialize, Serialize};

impl<S: Lib, const N: u32, const D: u32> FreeTensor<'static, S, N> for Ft<S, N, D> {
    const MAX_DEGREE: u32 = D;
}
// The library's own dense vector, with a coefficient type of ours.
impl FreeTensor<'static, Fp, 2> for Plain<2, Fp> {
    const MAX_DEGREE: u32 = 5;
}
impl FreeTensor<'static, Fp, 3> for Plain<3, Fp> {
    const MAX_DEGREE: u32 = 3;
}

// ---------- model ----------

fn unit<S: Scal>() -> Vec<S> {
    vec![S::of(1)]
}
pub fn no_unit<S: Scal>(x: &[S]) -> Vec<S> {
    let mut v = x.to_vec();
    if let Some(u) = v.first_mut() {
        *u = S::of(0);
    }
    v
}
/// sum of x^k / k! for k up to d, power by power
pub fn m_exp<S: Scal>(x: &[S], n: u32, d: u32) -> Vec<S> {
    let mut sum = unit::<S>();
    let mut term = unit::<S>();
    for k in 1..=d {
        term = m_prod(&term, x, n, d).into_iter().map(|v| v.mdiv(k as i64)).collect();
        sum = m_add(&sum, &term);
    }
    sum
}
/// sum of (-1)^(k+1) x^k / k for k from 1 to d, x without its constant term
pub fn m_log<S: Scal>(g: &[S], n: u32, d: u32) -> Vec<S> {
    let x = no_unit(g);
    let mut sum: Vec<S> = vec![];
    let mut pow = unit::<S>();
    for k in 1..=d {
        pow = m_prod(&pow, &x, n, d);
        let t: Vec<S> = pow.iter().map(|v| v.mdiv(k as i64)).collect();
        sum = if k % 2 == 1 { m_add(&sum, &t) } else { m_sub(&sum, &t) };
    }
    sum
}
/// Dynkin's map on a tensor homogeneous of degree k: words become left-nested brackets.
fn dynkin(level: &[Fp], n: u32, k: u32) -> Vec<Fp> {
    let lo = m_start(k, n) as usize;
    let mut out: Vec<Fp> = vec![];
    for (i, c) in level.iter().enumerate() {
        if c.zero() {
            continue;
        }
        let w = m_word((lo + i) as u128, n);
        let letter = |l: u32| {
            let mut v = vec![Fp::of(0); l as usize + 1];
            v[l as usize] = Fp::of(1);
            v
        };
        let mut b = letter(w[0]);
        for l in &w[1..] {
            let x = letter(*l);
            b = m_sub(&m_prod(&b, &x, n, k), &m_prod(&x, &b, n, k));
        }
        out = m_lin(&out, &b, |o, v| o.madd(v.mmul(*c)));
    }
    out.into_iter().skip(lo).collect()
}

// ---------- cases ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SerCase {
    /// which (letters, maximum degree, field)
    inst: u8,
    x: T,
    a: T,
    s: i64,
    t: i64,
    letters: Vec<(u32, i64)>,
}
trait Ser<const N: u32, S: Lib>: Ten<N, S> + FreeTensor<'static, S, N> {}
impl<const N: u32, S: Lib, V: Ten<N, S> + FreeTensor<'static, S, N>> Ser<N, S> for V {}

/// the instances from here on are expensive and generated rarely
pub const ORDINARY: u8 = 32;
pub const INSTANCES: u8 = 35;
macro_rules! inst_dispatch {
    ($c:expr, $f:ident) => {
        match $c.inst {
            0 => $f::<2, Fp, Ft<Fp, 2, 3>>($c),
            1 => $f::<2, Fp, Ft<Fp, 2, 4>>($c),
            2 => $f::<2, Fp, Ft<Fp, 2, 5>>($c),
            3 => $f::<2, Fp, Ft<Fp, 2, 6>>($c),
            4 => $f::<2, Fp, Ft<Fp, 2, 2>>($c),
            5 => $f::<2, Fp, Ft<Fp, 2, 1>>($c),
            6 => $f::<2, Fp, Ft<Fp, 2, 0>>($c),
            7 => $f::<3, Fp, Ft<Fp, 3, 1>>($c),
            8 => $f::<3, Fp, Ft<Fp, 3, 2>>($c),
            9 => $f::<3, Fp, Ft<Fp, 3, 3>>($c),
            10 => $f::<3, Fp, Ft<Fp, 3, 4>>($c),
            11 => $f::<1, Fp, Ft<Fp, 1, 1>>($c),
            12 => $f::<1, Fp, Ft<Fp, 1, 2>>($c),
            13 => $f::<1, Fp, Ft<Fp, 1, 5>>($c),
            14 => $f::<1, Fp, Ft<Fp, 1, 9>>($c),
            15 => $f::<1, Fp, Ft<Fp, 1, 20>>($c),
            16 => $f::<4, Fp, Ft<Fp, 4, 3>>($c),
            17 => $f::<5, Fp, Ft<Fp, 5, 2>>($c),
            18 => $f::<5, Fp, Ft<Fp, 5, 3>>($c),
            19 => $f::<10, Fp, Ft<Fp, 10, 2>>($c),
            20 => $f::<2, f64, Ft<f64, 2, 2>>($c),
            21 => $f::<2, f64, Ft<f64, 2, 5>>($c),
            22 => $f::<3, f64, Ft<f64, 3, 3>>($c),
            23 => $f::<1, f64, Ft<f64, 1, 7>>($c),
            24 => $f::<2, f32, Ft<f32, 2, 4>>($c),
            25 => $f::<3, f32, Ft<f32, 3, 2>>($c),
            26 => $f::<2, Fp, Plain<2, Fp>>($c),
            27 => $f::<3, Fp, Plain<3, Fp>>($c),
            28 => $f::<7, Fp, Ft<Fp, 7, 2>>($c),
            29 => $f::<2, Fp, Ft<Fp, 2, 7>>($c),
            30 => $f::<2, Hp, Ft<Hp, 2, 3>>($c),
            31 => $f::<3, Hp, Ft<Hp, 3, 2>>($c),
            32 => $f::<1, Fp, Ft<Fp, 1, 50>>($c),
            33 => $f::<1, Fp, Ft<Fp, 1, 140>>($c),
            _ => $f::<2, Fp, Ft<Fp, 2, 9>>($c),
        }
    };
}
fn m_lim(n: u32, d: u32) -> u32 {
    // operands may reach one degree above the maximum
    (d + 1).min(match n {
        1 => 24,
        2 => 7,
        3 => 5,
        4 => 4,
        5 => 3,
        _ => 2,
    })
}
/// Equality of the tensor with the model, with a rounding allowance in floating point: `mag` is the model evaluated on
/// absolute values, so every partial sum is bounded by it.
fn near<const N: u32, S: Lib, V: Ten<N, S>>(v: &V, m: &[S::M], mag: &[S::M], what: &str) -> Check {
    let s = down(v.as_slice());
    match S::M::EPS {
        None => agree(v, m, what),
        Some(eps) => {
            for i in 0..s.len().max(m.len()) {
                let (g, e) = (m_at(&s, i).real(), m_at(m, i).real());
                let tol = eps * 1000.0 * (1.0 + m_at(mag, i).real().abs());
                ensure!((g - e).abs() <= tol, "{}: coefficient of word {:?}: got {}, expected {} (tolerance {})", what, m_word(i as u128, N), g, e, tol);
            }
            Ok(())
        }
    }
}
fn mabs<S: Scal>(x: &[S]) -> Vec<S> {
    x.iter().map(|v| if v.real() < 0.0 { v.mneg() } else { *v }).collect()
}
fn equal<const N: u32, S: Lib, V: Ten<N, S>>(l: &V, r: &[S::M], what: &str) -> Check {
    match S::M::EPS {
        // the laws are exact consequences of the series; floating point is covered by the direct comparison
        Some(_) => Ok(()),
        None => agree(l, r, what),
    }
}

fn c19_case<const N: u32, S: Lib, V: Ser<N, S>>(c: &SerCase) -> Check {
    let d = V::MAX_DEGREE;
    let x: Vec<S::M> = c.x.scalars(N, m_lim(N, d));
    let v = V::of(up(&x));
    let e = v.exp();
    near(&e, &m_exp(&x, N, d), &m_exp(&mabs(&x), N, d), "exponential")?;
    same(&v, &x, "the argument")?;
    let y = no_unit(&x);
    let (s, t) = (S::M::of(c.s), S::M::of(c.t));
    let times = |k: S::M| V::of(y.iter().map(|a| S::up(a.mmul(k))).collect());
    let p = times(s).exp().multiply(times(t).exp(), Some(d));
    equal(&p, &down(times(s.madd(t)).exp().as_slice()), "exp(sx) exp(tx) = exp((s+t)x)")?;
    let q = V::of(up(&y)).exp().multiply(times(S::M::of(-1)).exp(), Some(d));
    equal(&q, &unit::<S::M>(), "exp(x) exp(-x) = 1")
}
fn c19_test(c: &SerCase) -> Check {
    inst_dispatch!(c, c19_case)
}
fn c20_case<const N: u32, S: Lib, V: Ser<N, S>>(c: &SerCase) -> Check {
    let d = V::MAX_DEGREE;
    let g: Vec<S::M> = c.x.scalars(N, m_lim(N, d));
    let v = V::of(up(&g));
    let l = v.log();
    // magnitude of the log series: its terms without signs
    let mag: Vec<S::M> = {
        let x = no_unit(&mabs(&g));
        let mut sum: Vec<S::M> = vec![];
        let mut pow = unit::<S::M>();
        for _ in 1..=d {
            pow = m_prod(&pow, &x, N, d);
            sum = m_add(&sum, &pow);
        }
        sum
    };
    near(&l, &m_log(&g, N, d), &mag, "logarithm")?;
    same(&v, &g, "the argument")?;
    let x = V::of(up(&no_unit(&g)));
    equal(&x.exp().log(), &m_trunc(&no_unit(&g), N, d), "log(exp(x)) = x")?;
    let mut h = m_trunc(&g, N, d);
    if h.is_empty() {
        h.push(S::M::of(1));
    }
    h[0] = S::M::of(1);
    equal(&V::of(up(&h)).log().exp(), &h, "exp(log(g)) = g")
}
fn c20_test(c: &SerCase) -> Check {
    inst_dispatch!(c, c20_case)
}
/// The logarithm of a product of exponentials of letters is a Lie element.
fn c20_lie_case<const N: u32, V: Ser<N, Fp>>(c: &SerCase) -> Check {
    let d = V::MAX_DEGREE;
    let mut sig: V = Vector::from_key(TensorKey::<N>::new());
    let mut total = vec![Fp::of(0); N as usize + 1];
    for (i, s) in &c.letters {
        let l = i % N + 1;
        let x: V = Vector::from_key_scalar(TensorKey::<N>::from_letter(l), Fp::of(*s));
        sig.multiply_inplace(x.exp(), Some(d));
        total[l as usize] = total[l as usize].madd(Fp::of(*s));
    }
    let lg = sig.log();
    let s = lg.as_slice();
    ensure_eq!(m_at(s, 0), Fp::of(0), "constant term of the logarithm");
    if d >= 1 {
        for l in 1..=N as usize {
            ensure_eq!(m_at(s, l), total[l], "letter {} of the logarithm", l);
        }
    }
    for k in 1..=d {
        let (lo, hi) = (m_start(k, N) as usize, m_start(k + 1, N) as usize);
        let level: Vec<Fp> = (lo..hi).map(|i| m_at(s, i)).collect();
        let dy = dynkin(&level, N, k);
        for (i, v) in level.iter().enumerate() {
            ensure!(m_at(&dy, i) == v.mmul(Fp::of(k as i64)), "degree {} of the logarithm is not a Lie element (word {:?})", k, m_word((lo + i) as u128, N));
        }
    }
    Ok(())
}
fn c20_lie_test(c: &SerCase) -> Check {
    match c.inst % 8 {
        0 => c20_lie_case::<2, Ft<Fp, 2, 3>>(c),
        1 => c20_lie_case::<2, Ft<Fp, 2, 4>>(c),
        2 => c20_lie_case::<2, Ft<Fp, 2, 5>>(c),
        3 => c20_lie_case::<3, Ft<Fp, 3, 2>>(c),
        4 => c20_lie_case::<3, Ft<Fp, 3, 3>>(c),
        5 => c20_lie_case::<1, Ft<Fp, 1, 6>>(c),
        6 => c20_lie_case::<4, Ft<Fp, 4, 2>>(c),
        _ => c20_lie_case::<2, Plain<2, Fp>>(c),
    }
}
fn c21_case<const N: u32, S: Lib, V: Ser<N, S>>(c: &SerCase) -> Check {
    let d = V::MAX_DEGREE;
    let a: Vec<S::M> = m_trunc(&c.a.scalars::<S::M>(N, m_lim(N, d)), N, d);
    let x: Vec<S::M> = c.x.scalars(N, m_lim(N, d));
    let vx = V::of(up(&x));
    let expect = |a: &[S::M], x: &[S::M]| m_prod(a, &m_exp(&no_unit(x), N, d), N, d);
    let mut va = V::of(up(&a));
    let r = va.fmexp(&vx);
    near(r, &expect(&a, &x), &expect(&mabs(&a), &mabs(&x)), "fused multiply-exponential (returned)")?;
    near(&va, &expect(&a, &x), &expect(&mabs(&a), &mabs(&x)), "fused multiply-exponential")?;
    same(&vx, &x, "the exponent")?;
    // the same through separate operations
    let vy = V::of(up(&no_unit(&x)));
    let sep = V::of(up(&a)).multiply(vy.exp(), Some(d));
    equal(&va, &down(sep.as_slice()), "fused and separate multiplication by the exponential")?;
    // and a second factor
    if S::M::EPS.is_none() {
        let once = expect(&a, &x);
        let z = V::of(up(&a));
        va.fmexp(&z);
        agree(&va, &expect(&once, &a), "second fused multiply-exponential")?;
    }
    Ok(())
}
fn c21_test(c: &SerCase) -> Check {
    inst_dispatch!(c, c21_case)
}

pub fn all_test(c: &SerCase) -> Check {
    c19_test(c)?;
    c20_test(c)?;
    c21_test(c)
}
pub fn strat(_: Tier) -> BoxedStrategy<SerCase> {
    (
        prop_oneof![160 => 0u8..4, 240 => 0u8..ORDINARY, 1 => ORDINARY..INSTANCES],
        tensor(),
        tensor(),
        coef_strategy(),
        coef_strategy(),
        proptest::collection::vec((0u32..8, coef_strategy()), 0..6),
    )
        .prop_map(|(inst, x, a, s, t, letters)| SerCase { inst, x, a, s, t, letters })
        .boxed()
}
pub fn rule(c: &SerCase, l: &mut Labels) -> bool {
    l.hit_if((20..26).contains(&c.inst), "floating point");
    l.hit_if(c.inst == 30 || c.inst == 31, "coefficients owning memory");
    l.hit_if(c.inst == 26 || c.inst == 27, "library type");
    let x = c.x.coefs(2, 6);
    l.hit_if(x.first().map_or(false, |u| *u != 0), "non-zero constant term");
    l.hit_if(c.x.part != 255, "storage ends inside a degree");
    l.hit_if(x.is_empty(), "empty argument");
    x.iter().skip(1).any(|v| *v != 0)
}
pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "tensors with and without constant term, empty, ending inside a degree or above the maximum degree, for 35 combinations of alphabet (1 to 10 letters), maximum degree (0 to 140) and coefficient type; the oracle sums powers over factorials; the addition law is evaluated through the library; non-trivial = a non-zero coefficient above degree zero",
        assumptions: &["floating point results are compared within 1000 units of rounding of the sum of absolute terms", "the tensor type states its maximum degree"],
        subs: vec![Sub { name: "exp", quick: 24_000, thorough: 800_000, always_fork: false, strat, classify: rule, test: c19_test }.boxed(),
            crate::memory::hist_exp(10_000, 300_000)],
    }
}
pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "tensors as for C19; the oracle sums signed powers over k; inverse laws through the library; products of up to five exponentials of multiples of letters whose logarithm must satisfy Dynkin's criterion in every degree; non-trivial = a non-zero coefficient above degree zero (series), at least two letters with non-zero multiples (Lie)",
        assumptions: &["floating point results are compared within 1000 units of rounding of the sum of absolute terms", "the tensor type states its maximum degree"],
        subs: vec![
            Sub { name: "log", quick: 24_000, thorough: 800_000, always_fork: false, strat, classify: rule, test: c20_test }.boxed(),
            Sub { name: "lie", quick: 12_000, thorough: 400_000, always_fork: false, strat,
                classify: |c, _| c.letters.iter().filter(|l| l.1 != 0).count() >= 2, test: c20_lie_test }.boxed(),
            crate::memory::hist_log(10_000, 300_000),
        ],
    }
}
pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "pairs of a tensor up to the maximum degree and an exponent as for C19; the oracle multiplies by the summed series; compared with separate exponential and product, and repeated; non-trivial = the exponent has a non-zero coefficient above degree zero",
        assumptions: &["the multiplied tensor has no coefficients above the maximum degree", "floating point results are compared within 1000 units of rounding of the sum of absolute terms"],
        subs: vec![Sub { name: "fmexp", quick: 24_000, thorough: 800_000, always_fork: false, strat, classify: rule, test: c21_test }.boxed(),
            crate::memory::hist_fmexp(10_000, 300_000)],
    }
}
