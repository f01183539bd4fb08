//! C06-C13: dense, sparse and wrapped vectors.

use crate::engine::*;
use crate::prog::*;
use crate::scal::Lib;
use crate::{by_field, ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use rustyalgebra::vector::{SimpleDenseVector, Vector};
use serde::{Deserialize, Serialize};
use std::ops::Deref;

const MAXKEY: u32 = 400;

fn shift_keys(ops: &[Op], cap: u32) -> Vec<Op> {
    // folds keys, dimensions and lengths of a program into a basis of cap+1 elements
    let f = |k: &u32| k % (cap + 1);
    ops.iter()
        .map(|o| match o {
            Op::FromKey(r, k) => Op::FromKey(*r, f(k)),
            Op::FromKeyScalar(r, k, s) => Op::FromKeyScalar(*r, f(k), *s),
            Op::FromIter(r, p) => Op::FromIter(*r, p.iter().map(|(k, s)| (f(k), *s)).collect()),
            Op::Insert(r, k, s) => Op::Insert(*r, f(k), *s),
            Op::InsertMany(r, p) => Op::InsertMany(*r, p.iter().map(|(k, s)| (f(k), *s)).collect()),
            Op::Erase(r, k) => Op::Erase(*r, f(k)),
            Op::Set(r, k, s) => Op::Set(*r, f(k), *s),
            Op::SetNonzero(r, k, s) => Op::SetNonzero(*r, f(k), *s),
            Op::Keyed(r, k, a, b, s) => Op::Keyed(*r, f(k), *a, *b, *s),
            Op::FromVec(r, v) => Op::FromVec(*r, v.iter().take(cap as usize + 1).copied().collect()),
            Op::FromDim(r, n) => Op::FromDim(*r, f(n)),
            Op::Resize(r, n) => Op::Resize(*r, f(n)),
            Op::SliceSet(r, k, s) => Op::SliceSet(*r, f(k), *s),
            Op::RangeSet(r, a, b, s) => {
                let (a, b) = (f(a), f(b));
                Op::RangeSet(*r, a.min(b), a.max(b), *s)
            }
            o => o.clone(),
        })
        .collect()
}

fn dense_case<S: Lib>(c: &Prog) -> Check {
    match c.dom {
        0 => run_dense::<Lin<0>, S>(&c.ops),
        1 => run_dense::<Lin<1>, S>(&c.ops),
        2 => run_dense::<Lin<2>, S>(&c.ops),
        3 => run_dense::<Lin<3>, S>(&c.ops),
        4 => run_dense::<TensorBasis<1>, S>(&shift_keys(&c.ops, 58)),
        5 => run_dense::<TensorBasis<2>, S>(&c.ops),
        6 => run_dense::<TensorBasis<3>, S>(&c.ops),
        7 => run_dense::<TensorBasis<5>, S>(&c.ops),
        _ => run_dense::<TensorBasis<10>, S>(&c.ops),
    }
}
pub fn dense_test(c: &Prog) -> Check {
    by_field!(c.field, dense_case(c))
}
fn sparse_case<S: Lib>(c: &Prog) -> Check {
    match c.dom {
        0 => run_sparse::<Lin<0>, S>(&c.ops),
        _ => run_sparse::<Str, S>(&c.ops),
    }
}
fn sparse_test(c: &Prog) -> Check {
    by_field!(c.field, sparse_case(c))
}

const BASE: Mix = Mix { cons: 2, elem: 4, dense: 0, arith: 1, keyed: 0, portable: false, maxkey: MAXKEY, ndoms: 9, len: 25, big: false };
const BIG: Mix = Mix { len: 6, maxkey: 2500, big: true, ..BASE };

pub fn all_mix() -> BoxedStrategy<Prog> {
    prog_strategy(Mix { cons: 3, elem: 5, dense: 4, arith: 6, keyed: 2, ..BASE })
}
pub fn portable_mix() -> BoxedStrategy<Prog> {
    prog_strategy(Mix { cons: 3, elem: 4, arith: 6, keyed: 2, portable: true, ndoms: 1, ..BASE })
}
pub fn prog_labels(c: &Prog, l: &mut Labels) {
    l.hit_if(c.field == 0, "prime field");
    l.hit_if(c.field == 1 || c.field == 2, "floating point");
    l.hit_if(c.field == ROUNDS, "rounding arithmetic");
    l.hit_if(c.field == HEAP, "coefficients owning memory");
    let mut sum = false;
    let mut el = false;
    for o in &c.ops {
        match o {
            Op::Insert(..) | Op::InsertMany(..) => l.hit("op insert"),
            Op::Erase(..) => l.hit("op erase"),
            Op::Set(..) | Op::SetNonzero(..) | Op::SliceSet(..) | Op::RangeSet(..) => l.hit("op overwrite"),
            Op::Resize(..) => l.hit("op resize"),
            Op::Swap(..) | Op::Copy(..) | Op::CloneTo(..) => l.hit("op swap or copy"),
            Op::Fused(..) => l.hit("op fused"),
            Op::ScaleIn(..) | Op::Scale(..) => l.hit("op scale"),
            Op::AddIn(..) | Op::SubIn(..) | Op::Add(..) | Op::Sub(..) => l.hit("op sum"),
            Op::Keyed(..) => l.hit("op keyed update"),
            _ => {}
        }
        sum |= o.is_binary();
        el |= matches!(o, Op::Insert(..) | Op::InsertMany(..) | Op::Erase(..) | Op::Set(..) | Op::Resize(..));
    }
    l.hit_if(sum, "has a binary operation");
    l.hit_if(el, "has an element update");
}
fn element_rule(c: &Prog, l: &mut Labels) -> bool {
    prog_labels(c, l);
    let built = c.ops.iter().any(|o| matches!(o, Op::FromKey(..) | Op::FromKeyScalar(..) | Op::FromIter(..) | Op::FromVec(..) | Op::Insert(..) | Op::InsertMany(..)));
    let touched = c.ops.iter().filter(|o| matches!(o, Op::Insert(..) | Op::InsertMany(..) | Op::Erase(..) | Op::Set(..) | Op::SetNonzero(..) | Op::Resize(..) | Op::Swap(..) | Op::Copy(..) | Op::SliceSet(..) | Op::RangeSet(..))).count();
    built && touched >= 1
}
fn arith_rule(c: &Prog, l: &mut Labels) -> bool {
    prog_labels(c, l);
    let built = c.ops.iter().any(|o| match o {
        Op::FromIter(_, p) => p.iter().any(|x| x.1 != 0),
        Op::FromVec(_, v) => v.iter().any(|x| *x != 0),
        Op::FromKey(..) => true,
        _ => false,
    });
    built && c.ops.iter().any(|o| matches!(o, Op::NegIn(..) | Op::Neg(..) | Op::ScaleIn(..) | Op::Scale(..)) || o.is_binary())
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "histories of up to 25 operations on three dense vectors over nine bases (four user bases with different dimension policies, tensor bases of width 1, 2, 3, 5, 10) and five coefficient fields (prime field, two floating point types, one whose operations round, one whose elements own memory), compared with a map after every step; non-trivial = something was stored and an element update, swap, copy or resize follows",
        assumptions: &["the basis gives every key a dimension larger than its index", "indices up to 400"],
        subs: vec![
            Sub { name: "history", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 6, dense: 3, arith: 1, ..BASE }), classify: element_rule, test: dense_test }.boxed(),
            Sub { name: "construct", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 6, elem: 2, dense: 2, arith: 0, len: 4, maxkey: 3000, ..BASE }), classify: element_rule, test: dense_test }.boxed(),
            Sub { name: "large", quick: 4000, thorough: 150000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 5, dense: 4, arith: 1, ..BIG }), classify: element_rule, test: dense_test }.boxed(),
            crate::huge::dense_elements(500),
        ],
    }
}
pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "histories of up to 25 operations, mostly arithmetic, on three dense vectors of unequal dimensions over nine bases and five coefficient fields (prime field, two floating point types, one whose operations round, one whose elements own memory); every vector is compared with the model after every step; non-trivial = a vector with a non-zero coefficient was built and an arithmetic operation is applied",
        assumptions: &["divisors are not zero", "floating point cases use small integers, halves and doubles, which are exact; in the rounding field every operation is taken to be the single rounded operation it names"],
        subs: vec![
            Sub { name: "history", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 0, dense: 2, arith: 10, ..BASE }), classify: arith_rule, test: dense_test }.boxed(),
            Sub { name: "short", quick: 100_000, thorough: 3_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 2, elem: 0, dense: 3, arith: 5, len: 4, ..BASE }), classify: arith_rule, test: dense_test }.boxed(),
            Sub { name: "large", quick: 4000, thorough: 150000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 0, dense: 3, arith: 8, ..BIG }), classify: arith_rule, test: dense_test }.boxed(),
            crate::huge::dense_arithmetic(800),
        ],
    }
}
pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "histories of up to 25 operations on three sparse vectors over two user bases (integer and string keys) and five coefficient fields (prime field, two floating point types, one whose operations round, one whose elements own memory); get and iteration are compared with a map after every step; non-trivial = something was stored and an element update, swap or copy follows",
        assumptions: &["keys hash and compare consistently"],
        subs: vec![
            Sub { name: "history", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 6, arith: 1, ndoms: 2, ..BASE }), classify: element_rule, test: sparse_test }.boxed(),
            Sub { name: "construct", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 6, elem: 2, arith: 0, ndoms: 2, len: 4, ..BASE }), classify: element_rule, test: sparse_test }.boxed(),
            Sub { name: "large", quick: 2000, thorough: 80000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 5, dense: 0, arith: 1, ndoms: 2, ..BIG }), classify: element_rule, test: sparse_test }.boxed(),
            crate::huge::sparse_elements(300),
        ],
    }
}
pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "histories of up to 25 operations, mostly arithmetic, on three sparse vectors with overlapping supports over two user bases and five fields; every vector is compared with the model after every step, and keys cancelled by a sum must not be stored; non-trivial = a vector with a non-zero coefficient was built and an arithmetic operation is applied",
        assumptions: &["divisors are not zero", "floating point cases use small integers, halves and doubles, which are exact; in the rounding field every operation is taken to be the single rounded operation it names"],
        subs: vec![
            Sub { name: "history", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 1, arith: 10, ndoms: 2, maxkey: 60, ..BASE }), classify: arith_rule, test: sparse_test }.boxed(),
            Sub { name: "cancel", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 2, elem: 0, arith: 8, ndoms: 2, maxkey: 5, len: 10, ..BASE }), classify: arith_rule, test: sparse_test }.boxed(),
            Sub { name: "large", quick: 2000, thorough: 80000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 0, dense: 0, arith: 8, ndoms: 2, ..BIG }), classify: arith_rule, test: sparse_test }.boxed(),
            crate::huge::sparse_arithmetic(500),
        ],
    }
}

// ---------- C10 ----------

fn trace<D: Dom, S: Lib, V: Gen<D, S>>(ops: &[Op], keys: &[u32]) -> Result<Vec<Vec<S::M>>, String> {
    let mut regs: Vec<V> = (0..REGS).map(|_| V::new()).collect();
    let mut out = vec![];
    for op in ops {
        step::<D, S, V>(&mut regs, op)?;
        let mut row = vec![];
        for r in &regs {
            for k in keys {
                row.push(Vector::get(r, D::key(*k)).map(|x| x.m()).unwrap_or(S::M::of(0)));
            }
        }
        out.push(row);
    }
    Ok(out)
}
fn c10_case<S: Lib>(c: &Prog) -> Check {
    let mut keys = probes(&c.ops);
    keys.extend(0..10);
    keys.sort();
    keys.dedup();
    let base = trace::<Lin<0>, S, Dense<Lin<0>, S>>(&c.ops, &keys).map_err(|e| format!("dense: {}", e))?;
    macro_rules! against {
        ($name:expr, $d:ty, $v:ty) => {{
            let t = trace::<$d, S, $v>(&c.ops, &keys).map_err(|e| format!("{}: {}", $name, e))?;
            for (n, (a, b)) in base.iter().zip(&t).enumerate() {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    ensure!(x == y, "after step {} {:?}, register {}, key {}: dense has {:?}, {} has {:?}", n, c.ops[n], i / keys.len(), keys[i % keys.len()], x, $name, y);
                }
            }
        }};
    }
    against!("sparse", Lin<0>, Sparse<Lin<0>, S>);
    against!("sparse with string keys", Str, Sparse<Str, S>);
    against!("dense in blocks", Lin<1>, Dense<Lin<1>, S>);
    against!("dense of fixed size", Lin<2>, Dense<Lin<2>, S>);
    against!("dense over two letters", TensorBasis<2>, Dense<TensorBasis<2>, S>);
    against!("dense over five letters", TensorBasis<5>, Dense<TensorBasis<5>, S>);
    against!("dense tensor over three letters", TensorBasis<3>, DenseTensor<'static, S, 3>);
    against!("wrapped dense", Lin<3>, Wrap<Dense<Lin<3>, S>>);
    against!("wrapped sparse", Lin<0>, Wrap<Sparse<Lin<0>, S>>);
    Ok(())
}
pub fn c10_test(c: &Prog) -> Check {
    by_field!(c.field, c10_case(c))
}
pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "programs of up to 25 operations of the generic interface run on ten representations; the coefficients of all keys the program names (and the first ten) are compared after every step; non-trivial = a vector was built and an element update or arithmetic operation follows",
        assumptions: &["programs read coefficients through get, treating absent keys as zero"],
        subs: vec![
            Sub { name: "program", quick: 25_000, thorough: 800_000, always_fork: false,
                strat: |_| portable_mix(),
                classify: |c, l| element_rule(c, l) || arith_rule(c, &mut Labels::default()),
                test: c10_test }.boxed(),
            Sub { name: "large", quick: 1000, thorough: 40000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 3, arith: 5, keyed: 1, portable: true, ndoms: 1, ..BIG }), classify: |c, l| element_rule(c, l) || arith_rule(c, &mut Labels::default()), test: c10_test }.boxed(),
        ],
    }
}

// ---------- C11 ----------

pub fn c11() -> Property {
    fn rule(c: &Prog, l: &mut Labels) -> bool {
        prog_labels(c, l);
        let n = c.ops.iter().filter(|o| matches!(o, Op::Keyed(..))).count();
        l.hit_if(c.ops.iter().any(|o| matches!(o, Op::Keyed(_, _, true, true, _))), "subtracts a quotient");
        n >= 1
    }
    Property {
        id: "C11",
        rule: "histories of up to 25 single-key updates mixed with construction and element access, on dense vectors over nine bases and sparse vectors over two; compared with the model at every key after every step; non-trivial = at least one keyed update",
        assumptions: &["divisors are not zero"],
        subs: vec![
            Sub { name: "dense", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 2, elem: 2, dense: 1, arith: 0, keyed: 8, ..BASE }), classify: rule, test: dense_test }.boxed(),
            Sub { name: "sparse", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 2, elem: 2, dense: 0, arith: 0, keyed: 8, ndoms: 2, ..BASE }), classify: rule, test: sparse_test }.boxed(),
            crate::huge::keyed(300),
        ],
    }
}

// ---------- C12 ----------

/// Runs the program on the wrapper and on the wrapped type side by side.
fn lockstep<D: Dom, S: Lib, U, W>(ops: &[Op]) -> Check
where
    U: Gen<D, S>,
    W: Gen<D, S> + Deref<Target = U> + From<U>,
{
    let pr = probes(ops);
    let mut w: Vec<W> = (0..REGS).map(|_| W::new()).collect();
    let mut u: Vec<U> = (0..REGS).map(|_| U::new()).collect();
    for (n, op) in ops.iter().enumerate() {
        let fw = step::<D, S, W>(&mut w, op).map_err(|e| format!("wrapper, step {} {:?}: {}", n, op, e))?;
        let fu = step::<D, S, U>(&mut u, op).map_err(|e| format!("wrapped, step {} {:?}: {}", n, op, e))?;
        ensure_eq!(fw, fu, "step {} {:?}: outcome of the wrapper", n, op);
        for r in 0..REGS {
            ensure!(*w[r] == u[r], "register {} after step {} {:?}: the wrapper holds another vector than the wrapped type", r, n, op);
            for k in &pr {
                let (a, b) = (Vector::get(&w[r], D::key(*k)).map(|x| x.m()), Vector::get(&u[r], D::key(*k)).map(|x| x.m()));
                ensure_eq!(a, b, "register {} after step {} {:?}: get of key {} through the wrapper", r, n, op, k);
            }
        }
    }
    for r in 0..REGS {
        for s in 0..REGS {
            ensure_eq!(w[r] == w[s], u[r] == u[s], "equality of wrapped registers {} and {}", r, s);
        }
    }
    // conversion in
    for (r, x) in u.into_iter().enumerate() {
        let t = W::from(x);
        ensure!(t == w[r], "converting register {} into the wrapper changes it", r);
    }
    Ok(())
}
fn tensor_conversions<const N: u32, S: Lib>(ops: &[Op]) -> Check {
    let mut regs: Vec<Dense<TensorBasis<N>, S>> = (0..REGS).map(|_| SimpleDenseVector::new()).collect();
    let mut m: Vec<Map<S::M>> = vec![Map::new(); REGS];
    for op in ops {
        let f = step::<TensorBasis<N>, S, _>(&mut regs, op)?;
        model_step(&mut m, op, f)?;
    }
    for (v, m) in regs.into_iter().zip(&m) {
        let copy = v.clone();
        let t: DenseTensor<'static, S, N> = v.into();
        ensure!(*t == copy, "conversion into the dense tensor changes the vector");
        see_dense::<TensorBasis<N>, S>(&t, m, &[0, 1, 2], "dense tensor")?;
        let back: Dense<TensorBasis<N>, S> = t.into();
        ensure!(back == copy, "conversion out of the dense tensor changes the vector");
        see_dense::<TensorBasis<N>, S>(&back, m, &[0, 1, 2], "back from dense tensor")?;
    }
    Ok(())
}
fn c12_case<S: Lib>(c: &Prog) -> Check {
    match c.dom {
        0 => lockstep::<TensorBasis<3>, S, Dense<TensorBasis<3>, S>, DenseTensor<'static, S, 3>>(&c.ops),
        1 => lockstep::<TensorBasis<2>, S, Dense<TensorBasis<2>, S>, DenseTensor<'static, S, 2>>(&c.ops),
        2 => lockstep::<TensorBasis<7>, S, Dense<TensorBasis<7>, S>, DenseTensor<'static, S, 7>>(&c.ops),
        3 => lockstep::<Lin<1>, S, Dense<Lin<1>, S>, Wrap<Dense<Lin<1>, S>>>(&c.ops),
        4 => lockstep::<Lin<0>, S, Sparse<Lin<0>, S>, Wrap<Sparse<Lin<0>, S>>>(&c.ops),
        5 => lockstep::<Str, S, Sparse<Str, S>, Wrap<Sparse<Str, S>>>(&c.ops),
        6 => lockstep::<Lin<0>, S, Wrap<Sparse<Lin<0>, S>>, Wrap<Wrap<Sparse<Lin<0>, S>>>>(&c.ops),
        7 => tensor_conversions::<3, S>(&c.ops),
        _ => tensor_conversions::<4, S>(&c.ops),
    }
}
pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "programs of up to 20 operations covering every operation of the vector interface, run in lockstep on a wrapper and on the wrapped type (dense tensors of three widths, user wrappers around dense and sparse vectors, a wrapper of a wrapper), and conversions in and out; non-trivial = a vector was built and an element update or arithmetic operation follows",
        assumptions: &["wrappers dereference to the vector they own and convert from it"],
        subs: vec![
            Sub { name: "lockstep", quick: 60_000, thorough: 2_000_000, always_fork: false,
                strat: |_| prog_strategy(Mix { cons: 3, elem: 4, arith: 6, keyed: 2, len: 20, ..BASE }),
                classify: |c, l| { l.hit_if(c.dom < 3, "dense tensor"); l.hit_if((3..7).contains(&c.dom), "user wrapper"); element_rule(c, l) || arith_rule(c, &mut Labels::default()) },
                test: |c| by_field!(c.field, c12_case(c)) }.boxed(),
            crate::huge::wrapped(500),
        ],
    }
}

// ---------- C13 ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EqCase {
    kind: u8,
    prog: Prog,
    key: u32,
    val: i64,
}
fn eq_laws<D: Dom, S: Lib, V: Gen<D, S>>(c: &EqCase, see: impl Fn(&V, &V, &str) -> Check) -> Check {
    let mut regs: Vec<V> = (0..REGS).map(|_| V::new()).collect();
    let mut m: Vec<Map<S::M>> = vec![Map::new(); REGS];
    for op in &c.prog.ops {
        let f = step::<D, S, V>(&mut regs, op)?;
        model_step(&mut m, op, f)?;
    }
    for r in 0..REGS {
        let v = &regs[r];
        ensure!(*v == *v, "register {} does not equal itself", r);
        ensure!(!(*v != *v), "register {} differs from itself", r);
        let copy = Vector::to_owned(v);
        ensure!(copy == *v && *v == copy, "a copy of register {} does not equal it", r);
        see(v, &copy, "copy")?;
        // one coefficient changed
        let old = mget(&m[r], c.key);
        let new = S::M::of(S::coef(c.val));
        let mut ch = Vector::to_owned(v);
        Vector::insert_single(&mut ch, &D::key(c.key), S::up(new));
        if new != old {
            ensure!(ch != *v && *v != ch, "register {} with the coefficient of key {} changed from {:?} to {:?} still compares equal", r, c.key, old, new);
        }
        for s in 0..REGS {
            let e = regs[r] == regs[s];
            ensure_eq!(regs[s] == regs[r], e, "symmetry of the equality of registers {} and {}", r, s);
            if e {
                ensure!(m[r] == m[s], "registers {} and {} compare equal but hold different coefficients {:?} and {:?}", r, s, m[r], m[s]);
            }
        }
    }
    Ok(())
}
/// Two vectors built differently but with the same stored entries compare equal.
fn c13_case<S: Lib>(c: &EqCase) -> Check {
    match c.kind {
        0 => eq_laws::<Lin<0>, S, Dense<Lin<0>, S>>(c, |a, b, w| {
            let t = a.clone();
            ensure!(t == *a && t == *b, "{}: clone does not equal the vector", w);
            Ok(())
        }),
        1 => eq_laws::<TensorBasis<3>, S, Dense<TensorBasis<3>, S>>(c, |a, b, w| {
            let t: Dense<TensorBasis<3>, S> = SimpleDenseVector::from(rustyalgebra::vector::DenseVector::as_slice(a).to_vec());
            ensure!(t == *a && t == *b, "{}: a vector with the same coefficients and dimension does not compare equal", w);
            Ok(())
        }),
        2 => eq_laws::<Lin<0>, S, Sparse<Lin<0>, S>>(c, |a, b, w| {
            let mut pairs: Vec<(K, S)> = a.into_iter().map(|(k, v)| (*k, v.clone())).collect();
            pairs.reverse();
            let t = <Sparse<Lin<0>, S> as Vector<'static>>::from_iterator(pairs);
            ensure!(t == *a && *a == t && t == *b, "{}: a vector with the same entries does not compare equal", w);
            Ok(())
        }),
        3 => eq_laws::<TensorBasis<2>, S, DenseTensor<'static, S, 2>>(c, |_, _, _| Ok(())),
        _ => eq_laws::<Str, S, Wrap<Sparse<Str, S>>>(c, |_, _, _| Ok(())),
    }
}
fn eq_strat(_: Tier) -> BoxedStrategy<EqCase> {
    (
        0u8..5,
        prog_strategy(Mix { cons: 4, elem: 3, arith: 3, keyed: 1, len: 10, maxkey: 30, ..BASE }),
        prop_oneof![3 => 0u32..8, 2 => 0u32..=30],
        coef_strategy(),
    )
        .prop_map(|(kind, prog, key, val)| EqCase { kind, prog, key, val })
        .boxed()
}
pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "three vectors built by programs of up to 10 operations (dense, sparse and wrapped), their copies, and a copy with one coefficient replaced; non-trivial = a vector with a non-zero coefficient was built",
        assumptions: &["nothing is claimed about vectors that differ only in how many zeros they store"],
        subs: vec![
            Sub { name: "laws", quick: 100_000, thorough: 3_000_000, always_fork: false, strat: eq_strat,
                classify: |c, l| { prog_labels(&c.prog, l); l.hit_if(c.kind == 2 || c.kind == 4, "sparse"); c.prog.ops.iter().any(|o| match o { Op::FromIter(_, p) => p.iter().any(|x| x.1 != 0), Op::FromKey(..) => true, _ => false }) },
                test: |c| by_field!(c.prog.field, c13_case(c)) }.boxed(),
            crate::huge::equality(500),
        ],
    }
}
