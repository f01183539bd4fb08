//! C23: the floating point coefficient fields.

use crate::dict::{near, near32};
use crate::engine::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::coefficients::{CoefficientField, FromDegreeType};
use serde::{Deserialize, Serialize};

/// Bit patterns, so that replay files hold infinities and not-a-numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FloatCase {
    single: bool,
    a: u64,
    b: u64,
    i: i16,
    j: i8,
    deg: u32,
    /// operations of a chain of in-place updates
    chain: Vec<(u8, u64)>,
}
macro_rules! field_test {
    ($name:ident, $t:ty, $bits:ty) => {
        fn $name(c: &FloatCase) -> Check {
            type F = $t;
            let f = |x: u64| F::from_bits(x as $bits);
            // equal, or both not a number
            fn eq(g: F, e: F, what: &str) -> Check {
                ensure!(g == e || (g.is_nan() && e.is_nan()), "{}: got {:?}, expected {:?}", what, g, e);
                Ok(())
            }
            let (a, b) = (f(c.a), f(c.b));
            eq(<F as CoefficientField>::ZERO, 0.0, "ZERO")?;
            eq(<F as CoefficientField>::ONE, 1.0, "ONE")?;
            eq(<F as CoefficientField>::MONE, -1.0, "MONE")?;
            eq(CoefficientField::uminus(&a), -a, "negation")?;
            eq(<F as CoefficientField>::add(&a, &b), a + b, "sum")?;
            eq(<F as CoefficientField>::sub(&a, &b), a - b, "difference")?;
            eq(<F as CoefficientField>::mul(&a, &b), a * b, "product")?;
            eq(<F as CoefficientField>::div(&a, &b), a / b, "quotient")?;
            eq(<F as CoefficientField>::inv(a), 1.0 / a, "inverse")?;
            eq(<F as CoefficientField>::inv(&b), 1.0 / b, "inverse by reference")?;
            eq(<F as CoefficientField>::from_rational(a, b), a / b, "rational")?;
            eq(<F as CoefficientField>::from_rational(c.i, b), c.i as F / b, "rational with integer numerator")?;
            eq(<F as CoefficientField>::from_rational(c.i, c.j), c.i as F / c.j as F, "rational of integers")?;
            eq(<F as CoefficientField>::from_rational(c.j, c.i), c.j as F / c.i as F, "rational of integers")?;
            eq(<F as FromDegreeType>::from_degree(&c.deg), c.deg as F, "conversion from a degree")?;
            let mut x = a;
            for (op, y) in &c.chain {
                let y = f(*y);
                let before = x;
                let (ret, value, native, what) = match op % 4 {
                    0 => (*CoefficientField::add_inplace(&mut x, &y), <F as CoefficientField>::add(&before, &y), before + y, "in-place sum"),
                    1 => (*CoefficientField::sub_inplace(&mut x, &y), <F as CoefficientField>::sub(&before, &y), before - y, "in-place difference"),
                    2 => (*CoefficientField::mul_inplace(&mut x, &y), <F as CoefficientField>::mul(&before, &y), before * y, "in-place product"),
                    _ => (*CoefficientField::div_inplace(&mut x, &y), <F as CoefficientField>::div(&before, &y), before / y, "in-place quotient"),
                };
                eq(x, native, what)?;
                eq(x, value, what)?;
                eq(ret, native, what)?;
            }
            // the returned reference is the updated value
            let mut z = b;
            let p = &mut z as *mut F;
            let r = CoefficientField::add_inplace(&mut z, &a) as *mut F;
            ensure_eq!(r, p, "reference returned by the in-place sum");
            let r = CoefficientField::sub_inplace(&mut z, &a) as *mut F;
            ensure_eq!(r, p, "reference returned by the in-place difference");
            let r = CoefficientField::mul_inplace(&mut z, &a) as *mut F;
            ensure_eq!(r, p, "reference returned by the in-place product");
            let r = CoefficientField::div_inplace(&mut z, &a) as *mut F;
            ensure_eq!(r, p, "reference returned by the in-place quotient");
            Ok(())
        }
    };
}
field_test!(single, f32, u32);
field_test!(double, f64, u64);

/// A number of the source, its negative, half or inverse.
fn dictionary(x: u64, kind: u8) -> f64 {
    let f = x as f64;
    match kind {
        0 => f,
        1 => -f,
        2 => f / 2.0,
        _ => 1.0 / f,
    }
}
fn bits(single: bool) -> BoxedStrategy<u64> {
    if single {
        prop_oneof![
            3 => any::<u32>().prop_map(|b| b as u64),
            2 => (-50i32..50).prop_map(|i| (i as f32 * 0.5).to_bits() as u64),
            2 => any::<f32>().prop_map(|f| f.to_bits() as u64),
            1 => (near(0, u64::MAX), 0u8..4).prop_map(|(x, k)| dictionary(x, k)).prop_map(|f| (f as f32).to_bits() as u64),
            1 => prop_oneof![Just(0f32), Just(-0f32), Just(1f32), Just(f32::INFINITY), Just(f32::NEG_INFINITY), Just(f32::NAN), Just(f32::MAX), Just(f32::MIN_POSITIVE), Just(1e-45f32)].prop_map(|f| f.to_bits() as u64),
        ]
        .boxed()
    } else {
        prop_oneof![
            3 => any::<u64>(),
            2 => (-50i32..50).prop_map(|i| (i as f64 * 0.5).to_bits()),
            2 => any::<f64>().prop_map(|f| f.to_bits()),
            1 => (near(0, u64::MAX), 0u8..4).prop_map(|(x, k)| dictionary(x, k)).prop_map(|f| f.to_bits()),
            1 => prop_oneof![Just(0f64), Just(-0f64), Just(1f64), Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(f64::NAN), Just(f64::MAX), Just(f64::MIN_POSITIVE), Just(5e-324f64)].prop_map(|f| f.to_bits()),
        ]
        .boxed()
    }
}
fn strat(_: Tier) -> BoxedStrategy<FloatCase> {
    any::<bool>()
        .prop_flat_map(|s| {
            (
                Just(s),
                bits(s),
                bits(s),
                any::<i16>(),
                any::<i8>(),
                prop_oneof![0u32..100, any::<u32>(), near32(0, u32::MAX), (0u32..32).prop_map(|b| (1u32 << b).wrapping_sub(1)), (0u32..32).prop_map(|b| (1u32 << b) + 1)],
                proptest::collection::vec((0u8..4, bits(s)), 0..5),
            )
        })
        .prop_map(|(single, a, b, i, j, deg, chain)| FloatCase { single, a, b, i, j, deg, chain })
        .boxed()
}
pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "pairs of bit patterns of both floating point types (uniform, small halves, typical magnitudes, zeros, infinities, not-a-numbers, subnormals, extremes), integers, degrees and chains of up to four in-place updates, compared with the native operations; values are compared with ==, not-a-numbers with each other; non-trivial = both values finite and different",
        assumptions: &["the sign of zero and the payload of not-a-number are not compared"],
        subs: vec![Sub { name: "arithmetic", quick: 400_000, thorough: 10_000_000, always_fork: false, strat,
            classify: |c, l| {
                l.hit_if(c.single, "f32");
                let (x, y) = if c.single { (f32::from_bits(c.a as u32) as f64, f32::from_bits(c.b as u32) as f64) } else { (f64::from_bits(c.a), f64::from_bits(c.b)) };
                l.hit_if(!x.is_finite() || !y.is_finite(), "infinite or not a number");
                x.is_finite() && y.is_finite() && x != y
            },
            test: |c| if c.single { single(c) } else { double(c) } }.boxed()],
    }
}
