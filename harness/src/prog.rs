//! Programs over the generic vector interface, their reference model, and the bases and wrapper types they run on.

use crate::dict::{near, near32};
use crate::engine::*;
use crate::scal::{Lib, Scal};
use crate::words::m_word;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::basis::{Basis, OrderedBasis};
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use rustyalgebra::vector::implementation::SimpleSparseVector;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, SimpleDenseVector, Vector, VectorIteratorItem, VectorKeyExt};
use rustyalgebra::DimensionType;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt;
use std::ops::{Deref, DerefMut};

// ---------- bases ----------

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct K(pub u32);
impl fmt::Display for K {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

/// A user basis with keys 0, 1, 2, ... and dimension policy P: 0 tight, 1 blocks of 8, 2 at least 300, 3 powers of two.
#[derive(Debug)]
pub struct Lin<const P: u8>;
impl<const P: u8> Basis for Lin<P> {
    type KeyType = K;
}
fn policy(p: u8, i: usize) -> usize {
    match p {
        0 => i + 1,
        1 => (i / 8 + 1) * 8,
        2 => (i + 1).max(300),
        _ => (i + 1).next_power_of_two(),
    }
}
impl<const P: u8> OrderedBasis for Lin<P> {
    type KeyIterator = std::iter::Map<std::ops::RangeFrom<u32>, fn(u32) -> K>;
    fn compare(l: &K, r: &K) -> Ordering {
        l.cmp(r)
    }
    fn iter_keys() -> Self::KeyIterator {
        (0u32..).map(K as fn(u32) -> K)
    }
    fn key_to_index(k: &K) -> DimensionType {
        k.0 as usize
    }
    fn index_to_key(i: DimensionType) -> K {
        K(i as u32)
    }
    fn vector_dimension_for_key(k: &K) -> DimensionType {
        policy(P, k.0 as usize)
    }
    fn vector_dimension_for_index(i: impl Into<DimensionType>) -> DimensionType {
        policy(P, i.into())
    }
}

/// An unordered user basis with string keys.
#[derive(Debug)]
pub struct Str;
impl Basis for Str {
    type KeyType = String;
}

/// Maps the integers of a program to the keys of a basis.
pub trait Dom: 'static {
    type B: Basis<KeyType = Self::Key> + 'static;
    type Key: Clone + 'static;
    fn key(i: u32) -> Self::Key;
    fn index(k: &Self::Key) -> u32;
}
impl<const P: u8> Dom for Lin<P> {
    type B = Lin<P>;
    type Key = K;
    fn key(i: u32) -> K {
        K(i)
    }
    fn index(k: &K) -> u32 {
        k.0
    }
}
impl Dom for Str {
    type B = Str;
    type Key = String;
    fn key(i: u32) -> String {
        format!("key-{:03}", i)
    }
    fn index(k: &String) -> u32 {
        k[4..].parse().unwrap()
    }
}
impl<const N: u32> Dom for TensorBasis<N> {
    type B = TensorBasis<N>;
    type Key = TensorKey<N>;
    fn key(i: u32) -> TensorKey<N> {
        TensorKey::from_letters(&m_word(i as u128, N))
    }
    fn index(k: &TensorKey<N>) -> u32 {
        let mut w = k.to_letters();
        w.reverse();
        crate::words::m_index(&w, N) as u32
    }
}

pub type Dense<D, S> = SimpleDenseVector<'static, <D as Dom>::B, S>;
pub type Sparse<D, S> = SimpleSparseVector<'static, <D as Dom>::B, S, <D as Dom>::Key>;

/// A user wrapper around any vector type.
pub struct Wrap<V>(pub V);
impl<V> Deref for Wrap<V> {
    type Target = V;
    fn deref(&self) -> &V {
        &self.0
    }
}
impl<V> DerefMut for Wrap<V> {
    fn deref_mut(&mut self) -> &mut V {
        &mut self.0
    }
}
impl<V> From<V> for Wrap<V> {
    fn from(v: V) -> Self {
        Wrap(v)
    }
}
impl<V: PartialEq> PartialEq for Wrap<V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

// ---------- programs ----------

pub const REGS: usize = 3;
pub type R = u8;
pub type Pairs = Vec<(u32, i64)>;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sc {
    LMul,
    RMul,
    LDiv,
    RDiv,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New(R),
    FromKey(R, u32),
    FromKeyScalar(R, u32, i64),
    FromIter(R, Pairs),
    Insert(R, u32, i64),
    InsertMany(R, Pairs),
    Erase(R, u32),
    /// overwrite through get_mut
    Set(R, u32, i64),
    /// overwrite through get_mut only where the coefficient is not zero (representation independent)
    SetNonzero(R, u32, i64),
    Clear(R),
    Swap(R, R),
    Copy(R, R),
    NegIn(R),
    Neg(R, R),
    AddIn(R, R),
    SubIn(R, R),
    Add(R, R, R),
    Sub(R, R, R),
    ScaleIn(R, Sc, i64),
    Scale(R, R, Sc, i64),
    /// r += / -= (sub) x scaled
    Fused(R, R, bool, Sc, i64),
    /// key update: subtract?, divide?
    Keyed(R, u32, bool, bool, i64),
    // dense vectors only
    FromVec(R, Vec<i64>),
    FromDim(R, u32),
    Resize(R, u32),
    SliceSet(R, u32, i64),
    RangeSet(R, u32, u32, i64),
    CloneTo(R, R),
}
use Op::*;

impl Op {
    pub fn keys(&self, out: &mut Vec<u32>) {
        match self {
            FromKey(_, k) | FromKeyScalar(_, k, _) | Insert(_, k, _) | Erase(_, k) | Set(_, k, _) | SetNonzero(_, k, _) | Keyed(_, k, ..) => out.push(*k),
            FromIter(_, p) | InsertMany(_, p) => out.extend(p.iter().map(|x| x.0)),
            FromVec(_, v) => out.extend([0, (v.len() / 2) as u32, v.len().saturating_sub(1) as u32]),
            FromDim(_, n) | Resize(_, n) => out.extend([n.saturating_sub(1), *n]),
            SliceSet(_, i, _) => out.push(*i),
            RangeSet(_, a, b, _) => out.extend([*a, *b]),
            _ => {}
        }
    }
    pub fn is_sum(&self) -> bool {
        matches!(self, AddIn(..) | SubIn(..) | Add(..) | Sub(..) | Fused(..))
    }
    pub fn is_binary(&self) -> bool {
        self.is_sum()
    }
}

pub const ROUNDS: u8 = 3;
pub const HEAP: u8 = 4;
#[macro_export]
macro_rules! by_field {
    ($field:expr, $f:ident($($a:expr),*)) => {
        match $field {
            0 => $f::<$crate::scal::Fp>($($a),*),
            1 => $f::<f64>($($a),*),
            2 => $f::<f32>($($a),*),
            $crate::prog::ROUNDS => $f::<$crate::scal::Rnd>($($a),*),
            _ => $f::<$crate::scal::Hp>($($a),*),
        }
    };
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    /// which basis / representation (meaning depends on the property)
    pub dom: u8,
    /// 0 prime field, 1 f64, 2 f32, ROUNDS, HEAP
    pub field: u8,
    pub ops: Vec<Op>,
}

/// Operation mix: weights for construction, element access, dense-only, arithmetic, keyed updates.
#[derive(Clone, Copy)]
pub struct Mix {
    pub cons: u32,
    pub elem: u32,
    pub dense: u32,
    pub arith: u32,
    pub keyed: u32,
    /// use SetNonzero rather than Set
    pub portable: bool,
    pub maxkey: u32,
    pub ndoms: u8,
    pub len: usize,
    /// many keys and large dimensions
    pub big: bool,
}

pub fn coef_strategy() -> BoxedStrategy<i64> {
    prop_oneof![
        2 => Just(0i64),
        2 => Just(1i64),
        2 => Just(-1i64),
        4 => -9i64..=9,
        2 => any::<i32>().prop_map(|x| x as i64),
        1 => any::<i64>(),
        1 => (near(0, i64::MAX as u64), any::<bool>()).prop_map(|(x, n)| if n { -(x as i64) } else { x as i64 }),
    ]
    .boxed()
}

fn reg() -> BoxedStrategy<R> {
    (0u8..REGS as u8).boxed()
}
fn sc() -> BoxedStrategy<Sc> {
    prop_oneof![Just(Sc::LMul), Just(Sc::RMul), Just(Sc::LDiv), Just(Sc::RDiv)].boxed()
}

/// Many pairs from one seed: a run of neighbouring keys or keys all over the place, each once or repeated.
fn many(mk: u32) -> BoxedStrategy<Pairs> {
    (any::<u64>(), prop_oneof![4 => 40u32..400, 1 => near32(0, 600)], 0u8..3)
        .prop_map(move |(seed, n, kind)| {
            let n = n as usize;
            let r = |i: usize| crate::words::scramble(seed.wrapping_add(i as u64));
            (0..n)
                .map(|i| {
                    let k = match kind {
                        0 => (seed % (mk as u64 + 1)) as u32 / 2 + i as u32,
                        1 => (r(i) >> 20) as u32,
                        _ => (r(i) >> 20) as u32 % 64,
                    };
                    (k % (mk + 1), (r(i + n) % 19) as i64 - 9)
                })
                .collect()
        })
        .boxed()
}

pub fn prog_strategy(m: Mix) -> BoxedStrategy<Prog> {
    let mk = m.maxkey;
    let key = prop_oneof![4 => 0u32..=mk.min(6), 3 => 0u32..=mk.min(40), 1 => 0u32..=mk, 1 => near32(0, mk)].boxed();
    let s = coef_strategy();
    let key = if m.big { prop_oneof![2 => 0u32..=mk.min(40), 6 => 0u32..=mk, 1 => near32(0, mk)].boxed() } else { key };
    let pairs = prop_oneof![
        3 => proptest::collection::vec((key.clone(), s.clone()), 0..8),
        1 => proptest::collection::vec((key.clone(), s.clone()), 8..40),
        // few keys, many repetitions
        1 => proptest::collection::vec((0u32..=mk.min(2), s.clone()), 2..9),
    ]
    .boxed();
    let pairs = if m.big { prop_oneof![1 => pairs, 3 => many(mk)].boxed() } else { pairs };
    let cons = prop_oneof![
        1 => reg().prop_map(New),
        2 => (reg(), key.clone()).prop_map(|(r, k)| FromKey(r, k)),
        2 => (reg(), key.clone(), s.clone()).prop_map(|(r, k, s)| FromKeyScalar(r, k, s)),
        5 => (reg(), pairs.clone()).prop_map(|(r, p)| FromIter(r, p)),
    ];
    let set = {
        let portable = m.portable;
        (reg(), key.clone(), s.clone()).prop_map(move |(r, k, s)| if portable { SetNonzero(r, k, s) } else { Set(r, k, s) })
    };
    let elem = prop_oneof![
        4 => (reg(), key.clone(), s.clone()).prop_map(|(r, k, s)| Insert(r, k, s)),
        2 => (reg(), pairs).prop_map(|(r, p)| InsertMany(r, p)),
        3 => (reg(), key.clone()).prop_map(|(r, k)| Erase(r, k)),
        3 => set,
        1 => reg().prop_map(Clear),
        2 => (reg(), reg()).prop_map(|(a, b)| Swap(a, b)),
        2 => (reg(), reg()).prop_map(|(a, b)| Copy(a, b)),
    ];
    let (dim, size) = if m.big { (mk, prop_oneof![2 => 0u32..=mk.min(80), 2 => 0u32..=mk, 1 => near32(0, mk)].boxed()) } else { (mk.min(70), prop_oneof![4 => 0u32..=mk.min(12), 4 => 0u32..=mk.min(80), 1 => near32(0, mk.min(80))].boxed()) };
    let data = if m.big {
        (any::<u64>(), prop_oneof![3 => 0u32..1500, 1 => near32(0, 1500)]).prop_map(|(seed, n)| (0..n as usize).map(|i| (crate::words::scramble(seed.wrapping_add(i as u64)) % 19) as i64 - 9).collect()).boxed()
    } else {
        proptest::collection::vec(s.clone(), 0..=(mk as usize).min(70)).boxed()
    };
    let dense = prop_oneof![
        3 => (reg(), data).prop_map(|(r, v)| FromVec(r, v)),
        1 => (reg(), 0u32..=dim).prop_map(|(r, n)| FromDim(r, n)),
        3 => (reg(), size).prop_map(|(r, n)| Resize(r, n)),
        2 => (reg(), key.clone(), s.clone()).prop_map(|(r, i, s)| SliceSet(r, i, s)),
        2 => (reg(), key.clone(), key.clone(), s.clone()).prop_map(|(r, a, b, s)| RangeSet(r, a.min(b), a.max(b), s)),
        1 => (reg(), reg()).prop_map(|(a, b)| CloneTo(a, b)),
    ];
    let arith = prop_oneof![
        1 => reg().prop_map(NegIn),
        1 => (reg(), reg()).prop_map(|(d, a)| Neg(d, a)),
        3 => (reg(), reg()).prop_map(|(a, b)| AddIn(a, b)),
        3 => (reg(), reg()).prop_map(|(a, b)| SubIn(a, b)),
        2 => (reg(), reg(), reg()).prop_map(|(d, a, b)| Add(d, a, b)),
        2 => (reg(), reg(), reg()).prop_map(|(d, a, b)| Sub(d, a, b)),
        2 => (reg(), sc(), s.clone()).prop_map(|(r, c, s)| ScaleIn(r, c, s)),
        2 => (reg(), reg(), sc(), s.clone()).prop_map(|(d, a, c, s)| Scale(d, a, c, s)),
        5 => (reg(), reg(), any::<bool>(), sc(), s.clone()).prop_map(|(a, b, neg, c, s)| Fused(a, b, neg, c, s)),
    ];
    let keyed = (reg(), key, any::<bool>(), any::<bool>(), s).prop_map(|(r, k, sub, div, s)| Keyed(r, k, sub, div, s));
    let mut parts: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    for (w, st) in [(m.cons, cons.boxed()), (m.elem, elem.boxed()), (m.dense, dense.boxed()), (m.arith, arith.boxed()), (m.keyed, keyed.boxed())] {
        if w > 0 {
            parts.push((w, st));
        }
    }
    let op = proptest::strategy::Union::new_weighted(parts);
    // registers start with some content
    let first = prop_oneof![Just(true), Just(true), Just(false)];
    let init_pairs = proptest::collection::vec((0u32..=mk.min(12), coef_strategy()), 0..10);
    (0..m.ndoms, prop_oneof![6 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 2 => Just(ROUNDS), 1 => Just(HEAP)], first, proptest::collection::vec(init_pairs, REGS), proptest::collection::vec(op, 1..=m.len))
        .prop_map(move |(dom, field, first, init, ops)| {
            let limit = match field {
                0 | HEAP => usize::MAX,
                1 => 12,
                ROUNDS => 8,
                _ => 4,
            };
            let mut all: Vec<Op> = vec![];
            if first {
                for (i, p) in init.into_iter().enumerate() {
                    all.push(FromIter(i as u8, p));
                }
            }
            all.extend(ops.into_iter().take(limit));
            if field == ROUNDS {
                // the order in which repeated keys are summed is not specified
                for o in &mut all {
                    if let FromIter(_, p) = o {
                        let mut seen = std::collections::BTreeSet::new();
                        p.retain(|x| seen.insert(x.0));
                    }
                }
            }
            Prog { dom, field, ops: all }
        })
        .boxed()
}

// ---------- execution ----------

fn two<V>(regs: &mut [V], a: R, b: R, f: impl FnOnce(&mut V, &V))
where
    V: Vector<'static>,
{
    let (a, b) = (a as usize, b as usize);
    if a == b {
        let c = regs[b].to_owned();
        f(&mut regs[a], &c);
    } else {
        let c = std::mem::replace(&mut regs[b], V::new());
        f(&mut regs[a], &c);
        regs[b] = c;
    }
}

pub fn pairs_of<D: Dom, S: Lib>(p: &Pairs) -> Vec<(D::Key, S)> {
    p.iter().map(|(k, s)| (D::key(*k), S::of(S::coef(*s)))).collect()
}

/// The pairs as iterators that know more or less about how many are left.
fn as_iter<T: 'static>(pairs: Vec<T>) -> Box<dyn Iterator<Item = T>> {
    let n = pairs.len();
    let mut it = pairs.into_iter();
    match n % 4 {
        0 => Box::new(it),
        1 => Box::new(std::iter::from_fn(move || it.next())),
        2 => {
            let half: Vec<T> = it.by_ref().take(n / 2).collect();
            Box::new(half.into_iter().chain(it.filter(|_| true)))
        }
        _ => Box::new(it.filter(|_| true)),
    }
}

pub trait Gen<D: Dom, S: Lib>: Vector<'static, KeyType = D::Key, ScalarType = S, RationalType = <S as Lib>::R> + Sized {}
impl<D: Dom, S: Lib, V> Gen<D, S> for V where V: Vector<'static, KeyType = D::Key, ScalarType = S, RationalType = <S as Lib>::R> {}

/// Executes one generic operation. Returns whether a Set found its key.
pub fn step<D: Dom, S: Lib, V: Gen<D, S>>(regs: &mut [V], op: &Op) -> Result<bool, String> {
    let c = |s: &i64| S::of(S::coef(*s));
    let m = |s: &i64| S::of(S::mult(*s));
    let d = |s: &i64| S::den(S::divisor(*s));
    match op {
        New(r) => regs[*r as usize] = V::new(),
        FromKey(r, k) => regs[*r as usize] = V::from_key(D::key(*k)),
        FromKeyScalar(r, k, s) => regs[*r as usize] = V::from_key_scalar(D::key(*k), c(s)),
        FromIter(r, p) => regs[*r as usize] = V::from_iterator(as_iter(pairs_of::<D, S>(p))),
        Insert(r, k, s) => Vector::insert_single(&mut regs[*r as usize], &D::key(*k), c(s)),
        InsertMany(r, p) => Vector::insert(&mut regs[*r as usize], as_iter(pairs_of::<D, S>(p))),
        Erase(r, k) => Vector::erase(&mut regs[*r as usize], D::key(*k)),
        Set(r, k, s) => {
            let v = &mut regs[*r as usize];
            let seen = Vector::get(v, &D::key(*k)).is_some();
            let found = match Vector::get_mut(v, &D::key(*k)) {
                Some(x) => {
                    *x = c(s);
                    true
                }
                None => false,
            };
            ensure_eq!(found, seen, "get_mut and get disagree on the presence of key {}", k);
            return Ok(found);
        }
        SetNonzero(r, k, s) => {
            let v = &mut regs[*r as usize];
            let nz = matches!(Vector::get(v, &D::key(*k)), Some(x) if !x.m().zero());
            if nz {
                match Vector::get_mut(v, D::key(*k)) {
                    Some(x) => *x = c(s),
                    None => return Err(format!("get_mut does not find key {}", k)),
                }
            }
        }
        Clear(r) => Vector::clear(&mut regs[*r as usize]),
        Swap(a, b) => {
            if a != b {
                let mut t = std::mem::replace(&mut regs[*b as usize], V::new());
                Vector::swap(&mut regs[*a as usize], &mut t);
                regs[*b as usize] = t;
            }
        }
        Copy(x, y) => {
            let t = Vector::to_owned(&regs[*y as usize]);
            regs[*x as usize] = t;
        }
        NegIn(r) => {
            Vector::uminus_inplace(&mut regs[*r as usize]);
        }
        Neg(x, y) => {
            let t = Vector::uminus(&regs[*y as usize]);
            regs[*x as usize] = t;
        }
        AddIn(a, b) => two(regs, *a, *b, |x, y| {
            Vector::add_inplace(x, y);
        }),
        SubIn(a, b) => two(regs, *a, *b, |x, y| {
            Vector::sub_inplace(x, y);
        }),
        Add(x, a, b) => {
            let t = Vector::add(&regs[*a as usize], &regs[*b as usize]);
            regs[*x as usize] = t;
        }
        Sub(x, a, b) => {
            let t = Vector::sub(&regs[*a as usize], &regs[*b as usize]);
            regs[*x as usize] = t;
        }
        ScaleIn(r, k, s) => {
            let v = &mut regs[*r as usize];
            match k {
                Sc::LMul => Vector::scalar_lmultiply_inplace(v, m(s)),
                Sc::RMul => Vector::scalar_rmultiply_inplace(v, m(s)),
                Sc::LDiv => Vector::scalar_ldivide_inplace(v, d(s)),
                Sc::RDiv => Vector::scalar_rdivide_inplace(v, d(s)),
            };
        }
        Scale(x, a, k, s) => {
            let v = &regs[*a as usize];
            let t = match k {
                Sc::LMul => Vector::scalar_lmultiply(v, m(s)),
                Sc::RMul => Vector::scalar_rmultiply(v, m(s)),
                Sc::LDiv => Vector::scalar_ldivide(v, d(s)),
                Sc::RDiv => Vector::scalar_rdivide(v, d(s)),
            };
            regs[*x as usize] = t;
        }
        Fused(a, b, neg, k, s) => two(regs, *a, *b, |x, y| {
            match (neg, k) {
                (false, Sc::LMul) => Vector::add_scalar_lmultiply(x, y, m(s)),
                (false, Sc::RMul) => Vector::add_scalar_rmultiply(x, y, m(s)),
                (false, Sc::LDiv) => Vector::add_scalar_ldivide(x, y, d(s)),
                (false, Sc::RDiv) => Vector::add_scalar_rdivide(x, y, d(s)),
                (true, Sc::LMul) => Vector::sub_scalar_lmultiply(x, y, m(s)),
                (true, Sc::RMul) => Vector::sub_scalar_rmultiply(x, y, m(s)),
                (true, Sc::LDiv) => Vector::sub_scalar_ldivide(x, y, d(s)),
                (true, Sc::RDiv) => Vector::sub_scalar_rdivide(x, y, d(s)),
            };
        }),
        Keyed(r, k, sub, div, s) => {
            let v = &mut regs[*r as usize];
            let key = D::key(*k);
            match (sub, div) {
                (false, false) => VectorKeyExt::add_scalar_multiply(v, &key, m(s)),
                (true, false) => VectorKeyExt::sub_scalar_multiply(v, &key, m(s)),
                (false, true) => VectorKeyExt::add_scalar_divide(v, &key, d(s)),
                (true, true) => VectorKeyExt::sub_scalar_divide(v, &key, d(s)),
            };
        }
        _ => return Err("dense-only operation in a generic program (harness error)".into()),
    }
    Ok(true)
}

/// Executes an operation on plain dense vectors, including the dense-only ones.
pub fn step_dense<D: Dom, S: Lib>(regs: &mut [Dense<D, S>], op: &Op) -> Result<bool, String>
where
    D::B: OrderedBasis,
{
    match op {
        FromVec(r, v) => regs[*r as usize] = SimpleDenseVector::from(v.iter().map(|s| S::of(S::coef(*s))).collect()),
        FromDim(r, n) => {
            regs[*r as usize] = SimpleDenseVector::from_dimension(*n as usize);
            ensure_eq!(regs[*r as usize].size(), *n as usize, "size of a vector made of dimension {}", n);
        }
        Resize(r, n) => {
            ResizeableDenseVector::resize(&mut regs[*r as usize], *n as usize);
            ensure_eq!(regs[*r as usize].size(), *n as usize, "size after resize to {}", n);
        }
        SliceSet(r, i, s) => {
            if let Some(x) = DenseVector::as_mut_slice(&mut regs[*r as usize]).get_mut(*i as usize) {
                *x = S::of(S::coef(*s));
                return Ok(true);
            }
            return Ok(false);
        }
        RangeSet(r, a, b, s) => {
            let v = &mut regs[*r as usize];
            let n = v.size();
            let (a, b) = (*a as usize, *b as usize);
            match DenseVector::get_mut_slice(v, a..b) {
                Some(sl) => {
                    ensure_eq!(sl.len(), b - a, "length of the mutable slice {}..{}", a, b);
                    for x in sl {
                        *x = S::of(S::coef(*s));
                    }
                    ensure!(b <= n, "mutable slice {}..{} of a vector of size {}", a, b, n);
                    return Ok(true);
                }
                None => {
                    ensure!(b > n, "no mutable slice {}..{} of a vector of size {}", a, b, n);
                    return Ok(false);
                }
            }
        }
        CloneTo(x, y) => {
            let t = regs[*y as usize].clone();
            regs[*x as usize] = t;
        }
        _ => return step::<D, S, Dense<D, S>>(regs, op),
    }
    Ok(true)
}

// ---------- model ----------

pub type Map<S> = BTreeMap<u32, S>;

pub fn mget<S: Scal>(m: &Map<S>, k: u32) -> S {
    m.get(&k).copied().unwrap_or(S::of(0))
}
fn mset<S: Scal>(m: &mut Map<S>, k: u32, v: S) {
    if v.zero() {
        m.remove(&k);
    } else {
        m.insert(k, v);
    }
}
fn scaled<S: Scal>(m: &Map<S>, k: Sc, s: i64) -> Map<S> {
    let mut o: Map<S> = Map::new();
    for (i, v) in m {
        let x = match k {
            Sc::LMul | Sc::RMul => v.mmul(S::of(S::mult(s))),
            Sc::LDiv | Sc::RDiv => v.mdiv(S::divisor(s)),
        };
        mset(&mut o, *i, x);
    }
    o
}
fn combined<S: Scal>(a: &Map<S>, b: &Map<S>, neg: bool) -> Map<S> {
    let mut o = a.clone();
    for (k, v) in b {
        let x = mget(a, *k);
        mset(&mut o, *k, if neg { x.msub(*v) } else { x.madd(*v) });
    }
    o
}

/// Applies `op` to the model; `found` is what step returned (for Set).
pub fn model_step<S: Scal>(m: &mut [Map<S>], op: &Op, found: bool) -> Check {
    let c = |s: &i64| S::of(S::coef(*s));
    match op {
        New(r) => m[*r as usize].clear(),
        FromKey(r, k) => {
            m[*r as usize].clear();
            mset(&mut m[*r as usize], *k, S::of(1));
        }
        FromKeyScalar(r, k, s) => {
            m[*r as usize].clear();
            mset(&mut m[*r as usize], *k, c(s));
        }
        FromIter(r, p) => {
            let mut o: Map<S> = Map::new();
            for (k, s) in p {
                let x = mget(&o, *k).madd(c(s));
                mset(&mut o, *k, x);
            }
            m[*r as usize] = o;
        }
        Insert(r, k, s) => mset(&mut m[*r as usize], *k, c(s)),
        InsertMany(r, p) => {
            for (k, s) in p {
                mset(&mut m[*r as usize], *k, c(s));
            }
        }
        Erase(r, k) => mset(&mut m[*r as usize], *k, S::of(0)),
        Set(r, k, s) => {
            if found {
                mset(&mut m[*r as usize], *k, c(s));
            } else {
                ensure!(mget(&m[*r as usize], *k).zero(), "key {} has a non-zero coefficient but no mutable reference", k);
            }
        }
        SetNonzero(r, k, s) => {
            if !mget(&m[*r as usize], *k).zero() {
                mset(&mut m[*r as usize], *k, c(s));
            }
        }
        Clear(r) => m[*r as usize].clear(),
        Swap(a, b) => m.swap(*a as usize, *b as usize),
        Copy(x, y) | CloneTo(x, y) => m[*x as usize] = m[*y as usize].clone(),
        NegIn(r) => m[*r as usize] = m[*r as usize].iter().map(|(k, v)| (*k, v.mneg())).collect(),
        Neg(x, y) => m[*x as usize] = m[*y as usize].iter().map(|(k, v)| (*k, v.mneg())).collect(),
        AddIn(a, b) => m[*a as usize] = combined(&m[*a as usize], &m[*b as usize], false),
        SubIn(a, b) => m[*a as usize] = combined(&m[*a as usize], &m[*b as usize], true),
        Add(x, a, b) => m[*x as usize] = combined(&m[*a as usize], &m[*b as usize], false),
        Sub(x, a, b) => m[*x as usize] = combined(&m[*a as usize], &m[*b as usize], true),
        ScaleIn(r, k, s) => m[*r as usize] = scaled(&m[*r as usize], *k, *s),
        Scale(x, a, k, s) => m[*x as usize] = scaled(&m[*a as usize], *k, *s),
        Fused(a, b, neg, k, s) => {
            let t = scaled(&m[*b as usize], *k, *s);
            m[*a as usize] = combined(&m[*a as usize], &t, *neg);
        }
        Keyed(r, k, sub, div, s) => {
            let x = mget(&m[*r as usize], *k);
            let t = if *div { S::of(1).mdiv(S::divisor(*s)) } else { S::of(S::mult(*s)) };
            mset(&mut m[*r as usize], *k, if *sub { x.msub(t) } else { x.madd(t) });
        }
        FromVec(r, v) => {
            let mut o: Map<S> = Map::new();
            for (i, s) in v.iter().enumerate() {
                mset(&mut o, i as u32, c(s));
            }
            m[*r as usize] = o;
        }
        FromDim(r, _) => m[*r as usize].clear(),
        Resize(r, n) => m[*r as usize].retain(|k, _| k < n),
        SliceSet(r, i, s) => {
            if found {
                mset(&mut m[*r as usize], *i, c(s));
            } else {
                ensure!(mget(&m[*r as usize], *i).zero(), "index {} has a non-zero coefficient but is outside the slice", i);
            }
        }
        RangeSet(r, a, b, s) => {
            if found {
                for i in *a..*b {
                    mset(&mut m[*r as usize], i, c(s));
                }
            }
        }
    }
    Ok(())
}

// ---------- observation ----------

pub fn see_dense<D: Dom, S: Lib>(v: &Dense<D, S>, m: &Map<S::M>, probe: &[u32], what: &str) -> Check
where
    D::B: OrderedBasis,
{
    let sl = DenseVector::as_slice(v);
    ensure_eq!(v.size(), sl.len(), "{}: size and slice length", what);
    for (i, x) in sl.iter().enumerate() {
        ensure_eq!(x.m(), mget(m, i as u32), "{}: coefficient at index {}", what, i);
    }
    if let Some((k, x)) = m.iter().next_back() {
        ensure!((*k as usize) < sl.len(), "{}: coefficient {:?} of index {} is lost (size {})", what, x, k, sl.len());
    }
    for k in probe {
        let got = Vector::get(v, D::key(*k));
        ensure_eq!(got, sl.get(*k as usize), "{}: get of key {}", what, k);
        let a = (*k as usize).min(sl.len());
        ensure_eq!(DenseVector::get_slice(v, a..), Some(&sl[a..]), "{}: slice from {}", what, a);
        ensure_eq!(DenseVector::get_slice(v, *k as usize), sl.get(*k as usize), "{}: slice element {}", what, k);
    }
    Ok(())
}

pub fn see_sparse<D: Dom, S: Lib>(v: &Sparse<D, S>, m: &Map<S::M>, probe: &[u32], what: &str) -> Check
where
    D::Key: std::hash::Hash + Eq,
{
    let mut seen: Map<S::M> = Map::new();
    for item in v {
        let (k, x): (&D::Key, &S) = (item.key(), item.value());
        ensure!(item.0 == k && item.1 == x, "{}: iterator item accessors", what);
        let i = D::index(k);
        ensure!(seen.insert(i, x.m()).is_none(), "{}: key {} is iterated twice", what, i);
        ensure_eq!(x.m(), mget(m, i), "{}: iterated coefficient of key {}", what, i);
        ensure_eq!(Vector::get(v, k).map(|x| x.m()), Some(x.m()), "{}: get of iterated key {}", what, i);
    }
    for (k, x) in m {
        ensure!(seen.contains_key(k), "{}: key {} with coefficient {:?} is not iterated", what, k, x);
    }
    for k in probe.iter().chain(m.keys()) {
        let got = Vector::get(v, D::key(*k)).map(|x| x.m());
        ensure_eq!(got, seen.get(k).copied(), "{}: get of key {} against iteration", what, k);
        ensure_eq!(got.unwrap_or(S::M::of(0)), mget(m, *k), "{}: coefficient of key {}", what, k);
    }
    Ok(())
}

pub fn probes(ops: &[Op]) -> Vec<u32> {
    let mut p = vec![0, 1, 7];
    for o in ops {
        o.keys(&mut p);
    }
    p.sort();
    p.dedup();
    p
}

pub fn run_dense<D: Dom, S: Lib>(ops: &[Op]) -> Check
where
    D::B: OrderedBasis,
{
    let mut regs: Vec<Dense<D, S>> = (0..REGS).map(|_| SimpleDenseVector::new()).collect();
    let mut m: Vec<Map<S::M>> = vec![Map::new(); REGS];
    let all = probes(ops);
    let last = ops.len().saturating_sub(1);
    for (n, op) in ops.iter().enumerate() {
        let found = step_dense::<D, S>(&mut regs, op).map_err(|e| format!("step {} {:?}: {}", n, op, e))?;
        model_step(&mut m, op, found).map_err(|e| format!("step {} {:?}: {}", n, op, e))?;
        let mut few = vec![];
        op.keys(&mut few);
        let pr = if n == last { &all } else { &few };
        for r in 0..REGS {
            see_dense::<D, S>(&regs[r], &m[r], pr, "dense").map_err(|e| format!("register {} after step {} {:?}: {}", r, n, op, e))?;
        }
    }
    Ok(())
}

pub fn run_sparse<D: Dom, S: Lib>(ops: &[Op]) -> Check
where
    D::Key: std::hash::Hash + Eq,
{
    let mut regs: Vec<Sparse<D, S>> = (0..REGS).map(|_| <Sparse<D, S> as Vector<'static>>::new()).collect();
    let mut m: Vec<Map<S::M>> = vec![Map::new(); REGS];
    let pr = probes(ops);
    for (n, op) in ops.iter().enumerate() {
        let before = m.clone();
        let found = step::<D, S, Sparse<D, S>>(&mut regs, op).map_err(|e| format!("step {} {:?}: {}", n, op, e))?;
        model_step(&mut m, op, found).map_err(|e| format!("step {} {:?}: {}", n, op, e))?;
        for r in 0..REGS {
            see_sparse::<D, S>(&regs[r], &m[r], &pr, "sparse").map_err(|e| format!("register {} after step {} {:?}: {}", r, n, op, e))?;
        }
        // cancellation removes the key
        let (res, a, b) = match op {
            AddIn(a, b) | SubIn(a, b) | Fused(a, b, ..) => (*a, *a, *b),
            Add(x, a, b) | Sub(x, a, b) => (*x, *a, *b),
            _ => continue,
        };
        if let Fused(_, _, _, Sc::LMul | Sc::RMul, s) = op {
            if S::mult(*s) == 0 {
                continue;
            }
        }
        for k in before[a as usize].keys() {
            if before[b as usize].contains_key(k) && mget(&m[res as usize], *k).zero() {
                ensure!(Vector::get(&regs[res as usize], D::key(*k)).is_none(), "step {} {:?}: key {} cancelled to zero but is still stored", n, op, k);
            }
        }
    }
    Ok(())
}
