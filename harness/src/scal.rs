//! Coefficient fields used by the checks, each with arithmetic of its own for the reference models.

use rustyalgebra::coefficients::{CoefficientBase, CoefficientField, Commutative, FromDegreeType};
use std::borrow::Borrow;
use std::fmt::{self, Debug, Display};

/// Prime modulus 2^61 - 1: exact field arithmetic.
pub const P: u64 = (1 << 61) - 1;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Fp(pub u64);

/// Divisors of Fp are a type of their own, so that multiplier and divisor cannot be confused.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Den(pub Fp);

impl Fp {
    pub fn of(i: i64) -> Fp {
        let m = (i as i128).rem_euclid(P as i128);
        Fp(m as u64)
    }
    pub fn padd(self, o: Fp) -> Fp {
        let s = self.0 + o.0;
        Fp(if s >= P { s - P } else { s })
    }
    pub fn psub(self, o: Fp) -> Fp {
        Fp(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + P - o.0 })
    }
    pub fn pmul(self, o: Fp) -> Fp {
        let x = self.0 as u128 * o.0 as u128;
        let mut r = (x & P as u128) as u64 + (x >> 61) as u64;
        if r >= P {
            r -= P;
        }
        Fp(r)
    }
    pub fn pinv(self) -> Fp {
        assert!(self.0 != 0, "division by zero in the prime field");
        let (mut b, mut e, mut r) = (self, P - 2, Fp(1));
        while e > 0 {
            if e & 1 == 1 {
                r = r.pmul(b);
            }
            b = b.pmul(b);
            e >>= 1;
        }
        r
    }
}
impl Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0 > P / 2 {
            write!(f, "-{}", P - self.0)
        } else {
            write!(f, "{}", self.0)
        }
    }
}
impl Display for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl From<i8> for Fp {
    fn from(i: i8) -> Fp {
        Fp::of(i as i64)
    }
}
impl From<i16> for Fp {
    fn from(i: i16) -> Fp {
        Fp::of(i as i64)
    }
}
impl From<i8> for Den {
    fn from(i: i8) -> Den {
        Den(Fp::of(i as i64))
    }
}
impl From<i16> for Den {
    fn from(i: i16) -> Den {
        Den(Fp::of(i as i64))
    }
}
impl CoefficientBase for Fp {}
impl Commutative for Fp {}
impl FromDegreeType for Fp {
    fn from_degree(deg: &u32) -> Fp {
        Fp::of(*deg as i64)
    }
}
impl FromDegreeType for Den {
    fn from_degree(deg: &u32) -> Den {
        Den(Fp::of(*deg as i64))
    }
}
impl CoefficientField for Fp {
    type RationalType = Den;
    const ZERO: Fp = Fp(0);
    const ONE: Fp = Fp(1);
    const MONE: Fp = Fp(P - 1);
    fn uminus(&self) -> Self {
        Fp(0).psub(*self)
    }
    fn inv(arg: impl Borrow<Den>) -> Self {
        arg.borrow().0.pinv()
    }
    fn add(&self, o: &Self) -> Self {
        self.padd(*o)
    }
    fn sub(&self, o: &Self) -> Self {
        self.psub(*o)
    }
    fn mul(&self, o: &Self) -> Self {
        self.pmul(*o)
    }
    fn div(&self, o: &Den) -> Self {
        self.pmul(o.0.pinv())
    }
    fn add_inplace(&mut self, o: &Self) -> &mut Self {
        *self = self.padd(*o);
        self
    }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self {
        *self = self.psub(*o);
        self
    }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self {
        *self = self.pmul(*o);
        self
    }
    fn div_inplace(&mut self, o: &Den) -> &mut Self {
        *self = self.pmul(o.0.pinv());
        self
    }
}

/// A coefficient field the checks run the library on. Its model may be another type.
pub trait Lib: CoefficientField<RationalType = <Self as Lib>::R> + Debug + Display + 'static {
    type R: From<i8> + From<i16> + FromDegreeType + 'static;
    type M: Scal;
    /// the model of this coefficient
    fn m(&self) -> Self::M;
    /// the coefficient with this model
    fn up(m: Self::M) -> Self;
    fn den(i: i64) -> <Self as Lib>::R;
    fn of(i: i64) -> Self {
        Self::up(Self::M::of_int(i))
    }
    /// a multiplier whose use keeps the field exact (floats: powers of two)
    fn mult(i: i64) -> i64;
    /// a divisor whose use keeps the field exact
    fn divisor(i: i64) -> i64;
    /// a coefficient that keeps the field exact
    fn coef(i: i64) -> i64;
}
pub fn up<S: Lib>(v: &[S::M]) -> Vec<S> {
    v.iter().map(|x| S::up(*x)).collect()
}
pub fn down<S: Lib>(v: &[S]) -> Vec<S::M> {
    v.iter().map(|x| x.m()).collect()
}

/// A coefficient field with independent model arithmetic.
pub trait Scal: Lib<M = Self> + Copy {
    /// rounding unit, None for exact fields
    const EPS: Option<f64>;
    fn of_int(i: i64) -> Self;
    /// numerical value (floats only)
    fn real(self) -> f64;
    fn madd(self, o: Self) -> Self;
    fn msub(self, o: Self) -> Self;
    fn mmul(self, o: Self) -> Self;
    /// division by the integer d
    fn mdiv(self, d: i64) -> Self;
    fn mneg(self) -> Self {
        Self::of_int(0).msub(self)
    }
    fn zero(self) -> bool {
        self == Self::of_int(0)
    }
}

impl Lib for Fp {
    type R = Den;
    type M = Fp;
    fn m(&self) -> Fp {
        *self
    }
    fn up(m: Fp) -> Fp {
        m
    }
    fn den(i: i64) -> Den {
        Den(Fp::of(i))
    }
    fn mult(i: i64) -> i64 {
        i
    }
    fn divisor(i: i64) -> i64 {
        if i == 0 {
            1
        } else {
            i
        }
    }
    fn coef(i: i64) -> i64 {
        i
    }
}
impl Scal for Fp {
    const EPS: Option<f64> = None;
    fn real(self) -> f64 {
        0.0
    }
    fn of_int(i: i64) -> Fp {
        Fp::of(i)
    }
    fn madd(self, o: Fp) -> Fp {
        Fp(((self.0 as u128 + o.0 as u128) % P as u128) as u64)
    }
    fn msub(self, o: Fp) -> Fp {
        Fp(((self.0 as u128 + P as u128 - o.0 as u128) % P as u128) as u64)
    }
    fn mmul(self, o: Fp) -> Fp {
        Fp(((self.0 as u128 * o.0 as u128) % P as u128) as u64)
    }
    fn mdiv(self, d: i64) -> Fp {
        self.mmul(Fp::of(d).pinv())
    }
}

macro_rules! float_scal {
    ($t:ty) => {
        impl Lib for $t {
            type R = $t;
            type M = $t;
            fn m(&self) -> $t {
                *self
            }
            fn up(m: $t) -> $t {
                m
            }
            fn den(i: i64) -> $t {
                i as $t
            }
            fn mult(i: i64) -> i64 {
                [0, 1, -1, 2, -2][i.rem_euclid(5) as usize]
            }
            fn divisor(i: i64) -> i64 {
                [1, -1, 2, -2][i.rem_euclid(4) as usize]
            }
            fn coef(i: i64) -> i64 {
                if (-9..=9).contains(&i) {
                    i
                } else {
                    i.rem_euclid(17) - 8
                }
            }
        }
        impl Scal for $t {
            const EPS: Option<f64> = Some(<$t>::EPSILON as f64);
            fn real(self) -> f64 {
                self as f64
            }
            fn of_int(i: i64) -> $t {
                i as $t
            }
            fn madd(self, o: $t) -> $t {
                self + o
            }
            fn msub(self, o: $t) -> $t {
                self - o
            }
            fn mmul(self, o: $t) -> $t {
                self * o
            }
            fn mdiv(self, d: i64) -> $t {
                self / (d as $t)
            }
            fn mneg(self) -> $t {
                -self
            }
        }
    };
}
float_scal!(f32);
float_scal!(f64);

// ---------- a field that rounds ----------

/// Double precision numbers whose integer codes stand for values that round: dividing is not multiplying by an inverse.
#[derive(Clone, Copy, PartialEq)]
pub struct Rnd(pub f64);
fn rounding(i: i64) -> f64 {
    match i {
        -1..=1 => i as f64,
        _ => (i.rem_euclid(2003) - 1001) as f64 / 7.0,
    }
}
impl Debug for Rnd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Display for Rnd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl From<i8> for Rnd {
    fn from(i: i8) -> Rnd {
        Rnd(i as f64)
    }
}
impl From<i16> for Rnd {
    fn from(i: i16) -> Rnd {
        Rnd(i as f64)
    }
}
impl FromDegreeType for Rnd {
    fn from_degree(deg: &u32) -> Rnd {
        Rnd(*deg as f64)
    }
}
impl CoefficientBase for Rnd {}
impl Commutative for Rnd {}
impl CoefficientField for Rnd {
    type RationalType = Rnd;
    const ZERO: Rnd = Rnd(0.0);
    const ONE: Rnd = Rnd(1.0);
    const MONE: Rnd = Rnd(-1.0);
    fn uminus(&self) -> Self {
        Rnd(-self.0)
    }
    fn inv(arg: impl Borrow<Rnd>) -> Self {
        Rnd(1.0 / arg.borrow().0)
    }
    fn add(&self, o: &Self) -> Self {
        Rnd(self.0 + o.0)
    }
    fn sub(&self, o: &Self) -> Self {
        Rnd(self.0 - o.0)
    }
    fn mul(&self, o: &Self) -> Self {
        Rnd(self.0 * o.0)
    }
    fn div(&self, o: &Rnd) -> Self {
        Rnd(self.0 / o.0)
    }
    fn add_inplace(&mut self, o: &Self) -> &mut Self {
        self.0 += o.0;
        self
    }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self {
        self.0 -= o.0;
        self
    }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self {
        self.0 *= o.0;
        self
    }
    fn div_inplace(&mut self, o: &Rnd) -> &mut Self {
        self.0 /= o.0;
        self
    }
}
impl Lib for Rnd {
    type R = Rnd;
    type M = Rnd;
    fn m(&self) -> Rnd {
        *self
    }
    fn up(m: Rnd) -> Rnd {
        m
    }
    fn den(i: i64) -> Rnd {
        Rnd(rounding(i))
    }
    fn mult(i: i64) -> i64 {
        i
    }
    fn divisor(i: i64) -> i64 {
        if rounding(i) == 0.0 {
            3
        } else {
            i
        }
    }
    fn coef(i: i64) -> i64 {
        i
    }
}
impl Scal for Rnd {
    const EPS: Option<f64> = Some(f64::EPSILON);
    fn of_int(i: i64) -> Rnd {
        Rnd(rounding(i))
    }
    fn real(self) -> f64 {
        self.0
    }
    fn madd(self, o: Rnd) -> Rnd {
        Rnd(self.0 + o.0)
    }
    fn msub(self, o: Rnd) -> Rnd {
        Rnd(self.0 - o.0)
    }
    fn mmul(self, o: Rnd) -> Rnd {
        Rnd(self.0 * o.0)
    }
    fn mdiv(self, d: i64) -> Rnd {
        Rnd(self.0 / rounding(d))
    }
    fn mneg(self) -> Rnd {
        Rnd(-self.0)
    }
}

// ---------- a field whose elements own memory ----------

/// The prime field again, with elements that own a heap allocation and notice being dropped twice.
#[derive(Clone)]
pub enum Hp {
    Zero,
    One,
    Mone,
    Other(Box<Cell>),
}
// The operation count down to a panic inside the field, as a field with fallible operations may raise.
thread_local!(static FUSE: std::cell::Cell<u32> = std::cell::Cell::new(0));
/// From now on, the n-th operation of the field panics (never, for zero).
pub fn arm(n: u32) {
    FUSE.with(|f| f.set(n));
}
pub fn tick() {
    FUSE.with(|f| match f.get() {
        0 => {}
        1 => {
            f.set(0);
            panic!("interrupted by the coefficients")
        }
        n => f.set(n - 1),
    })
}
const ALIVE: u64 = 0x5eed_a11e_5eed_a11e;
pub struct Cell {
    mark: u64,
    value: Fp,
}
impl Clone for Cell {
    fn clone(&self) -> Cell {
        tick();
        Cell { mark: ALIVE, value: self.get() }
    }
}
impl Cell {
    fn get(&self) -> Fp {
        // volatile: a freed cell must really be read
        let m = unsafe { std::ptr::read_volatile(&self.mark) };
        if m != ALIVE {
            std::process::abort();
        }
        self.value
    }
}
impl Drop for Cell {
    fn drop(&mut self) {
        let _ = self.get();
        unsafe { std::ptr::write_volatile(&mut self.mark, 0) };
    }
}
impl PartialEq for Hp {
    fn eq(&self, o: &Hp) -> bool {
        tick();
        self.m() == o.m()
    }
}
impl Debug for Hp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.m())
    }
}
impl Display for Hp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.m())
    }
}
impl From<i8> for Hp {
    fn from(i: i8) -> Hp {
        Hp::of(i as i64)
    }
}
impl From<i16> for Hp {
    fn from(i: i16) -> Hp {
        Hp::of(i as i64)
    }
}
impl FromDegreeType for Hp {
    fn from_degree(deg: &u32) -> Hp {
        Hp::of(*deg as i64)
    }
}
impl CoefficientBase for Hp {}
impl Commutative for Hp {}
impl CoefficientField for Hp {
    type RationalType = Den;
    const ZERO: Hp = Hp::Zero;
    const ONE: Hp = Hp::One;
    const MONE: Hp = Hp::Mone;
    fn uminus(&self) -> Self {
        tick();
        Hp::up(Fp(0).psub(self.m()))
    }
    fn inv(arg: impl Borrow<Den>) -> Self {
        Hp::up(arg.borrow().0.pinv())
    }
    fn add(&self, o: &Self) -> Self {
        tick();
        Hp::up(self.m().padd(o.m()))
    }
    fn sub(&self, o: &Self) -> Self {
        tick();
        Hp::up(self.m().psub(o.m()))
    }
    fn mul(&self, o: &Self) -> Self {
        tick();
        Hp::up(self.m().pmul(o.m()))
    }
    fn div(&self, o: &Den) -> Self {
        tick();
        Hp::up(self.m().pmul(o.0.pinv()))
    }
    fn add_inplace(&mut self, o: &Self) -> &mut Self {
        *self = self.add(o);
        self
    }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self {
        *self = self.sub(o);
        self
    }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self {
        *self = self.mul(o);
        self
    }
    fn div_inplace(&mut self, o: &Den) -> &mut Self {
        *self = self.div(o);
        self
    }
}
impl Lib for Hp {
    type R = Den;
    type M = Fp;
    fn m(&self) -> Fp {
        match self {
            Hp::Zero => Fp(0),
            Hp::One => Fp(1),
            Hp::Mone => Fp(P - 1),
            Hp::Other(b) => b.get(),
        }
    }
    fn up(m: Fp) -> Hp {
        Hp::Other(Box::new(Cell { mark: ALIVE, value: m }))
    }
    fn den(i: i64) -> Den {
        Fp::den(i)
    }
    fn mult(i: i64) -> i64 {
        Fp::mult(i)
    }
    fn divisor(i: i64) -> i64 {
        Fp::divisor(i)
    }
    fn coef(i: i64) -> i64 {
        Fp::coef(i)
    }
}
