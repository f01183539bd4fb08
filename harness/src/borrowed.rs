//! C28: dense vectors over borrowed data. Needs the hooks.

use crate::dict::near;
use crate::engine::*;
use crate::prog::*;
use crate::scal::{down, up, Fp, Hp, Lib};
use crate::tensors::*;
use crate::vectors::prog_labels;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::TensorBasis;
use rustyalgebra::vector::{DenseVector, SimpleDenseVector, Vector, VectorWithDegree};
use serde::{Deserialize, Serialize};

/// Data lent to a vector; taken back when everything that could use it is gone.
struct Loan<S>(*mut [S]);
impl<S: Clone> Loan<S> {
    fn new(v: &[S]) -> Self {
        Loan(Box::into_raw(v.to_vec().into_boxed_slice()))
    }
    fn shared(&self) -> &'static [S] {
        unsafe { &*self.0 }
    }
    fn mutable(&self) -> &'static mut [S] {
        unsafe { &mut *self.0 }
    }
    fn back(self) -> Vec<S> {
        unsafe { Box::from_raw(self.0) }.into_vec()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LoanCase {
    mutable: bool,
    /// which register starts with the borrowed data
    at: u8,
    data: Vec<i64>,
    prog: Prog,
}
/// The register an operation replaces as a whole.
fn replaced(op: &Op) -> Option<u8> {
    match op {
        Op::New(r) | Op::FromKey(r, ..) | Op::FromKeyScalar(r, ..) | Op::FromIter(r, ..) | Op::Copy(r, _) | Op::CloneTo(r, _) | Op::Neg(r, _) | Op::Add(r, ..) | Op::Sub(r, ..) | Op::Scale(r, ..) | Op::FromVec(r, _) | Op::FromDim(r, _) => Some(*r),
        _ => None,
    }
}
/// Whether an operation on register `v`, a vector of dimension `n`, needs a greater dimension.
fn needs_growth(op: &Op, v: usize, n: usize, size: impl Fn(u8) -> usize) -> bool {
    match op {
        Op::Insert(r, k, _) | Op::Keyed(r, k, ..) => *r as usize == v && *k as usize >= n,
        Op::InsertMany(r, p) => *r as usize == v && p.iter().any(|(k, _)| *k as usize >= n),
        Op::AddIn(a, b) | Op::SubIn(a, b) | Op::Fused(a, b, ..) => *a as usize == v && size(*b) > n,
        _ => false,
    }
}
fn run<D: Dom, S: Lib>(c: &LoanCase) -> Check
where
    D::B: OrderedBasis,
{
    let data: Vec<S> = c.data.iter().map(|x| S::of(S::coef(*x))).collect();
    let loan = Loan::new(&data);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_loan::<D, S>(c, &data, &loan)));
    // every vector is gone here
    let after = loan.back();
    match r {
        Ok(Ok(expect)) => {
            if let Some(e) = expect {
                ensure_eq!(down(&after), e, "the borrowed slice after the program");
            }
            Ok(())
        }
        Ok(Err(e)) => Err(e),
        Err(p) => std::panic::resume_unwind(p),
    }
}
/// Returns what the borrowed slice must hold afterwards, if that is determined.
fn run_loan<D: Dom, S: Lib>(c: &LoanCase, data: &[S], loan: &Loan<S>) -> Result<Option<Vec<S::M>>, String>
where
    D::B: OrderedBasis,
{
    let at = c.at as usize % REGS;
    let mut regs: Vec<Dense<D, S>> = (0..REGS).map(|_| SimpleDenseVector::new()).collect();
    let mut m: Vec<Map<S::M>> = vec![Map::new(); REGS];
    regs[at] = if c.mutable { SimpleDenseVector::verif_borrowed_mut(loan.mutable()) } else { SimpleDenseVector::verif_borrowed(loan.shared()) };
    let seed = Op::FromVec(at as u8, c.data.clone());
    model_step(&mut m, &seed, true)?;
    let owned: Dense<D, S> = SimpleDenseVector::from(data.to_vec());
    ensure!(regs[at] == owned && owned == regs[at], "a vector over borrowed data differs from one owning it");
    let pr = probes(&c.prog.ops);
    let check = |regs: &Vec<Dense<D, S>>, m: &Vec<Map<S::M>>, pr: &[u32], what: &str| -> Check {
        for r in 0..REGS {
            see_dense::<D, S>(&regs[r], &m[r], pr, "dense").map_err(|e| format!("register {} {}: {}", r, what, e))?;
        }
        Ok(())
    };
    check(&regs, &m, &pr, "at the start")?;
    // register that still views the slice, and what the slice holds
    let mut view = Some(at);
    let mut slice: Option<Vec<S::M>> = Some(down(data));
    for (n, op) in c.prog.ops.iter().enumerate() {
        let size = view.map_or(0, |v| regs[v].size());
        let grows = view.map_or(false, |v| needs_growth(op, v, size, |r| regs[r as usize].size()));
        let f = step_dense::<D, S>(&mut regs, op).map_err(|e| format!("step {} {:?}: {}", n, op, e))?;
        model_step(&mut m, op, f).map_err(|e| format!("step {} {:?}: {}", n, op, e))?;
        check(&regs, &m, &pr, &format!("after step {} {:?}", n, op))?;
        if !c.mutable {
            continue; // a shared slice never changes
        }
        if let Some(v) = view {
            if let Op::Swap(a, b) = op {
                if *a as usize == v {
                    view = Some(*b as usize);
                } else if *b as usize == v {
                    view = Some(*a as usize);
                }
            } else if replaced(op) == Some(v as u8) {
                view = None; // the slice keeps what it held
            } else if matches!(op, Op::Resize(r, _) if *r as usize == v) {
                view = None;
            } else if grows {
                // it had to grow and now owns its data; what was written before that is not specified
                view = None;
                slice = None;
            } else {
                // written through
                slice = Some((0..data.len()).map(|i| mget(&m[v], i as u32)).collect());
                if regs[v].size() != size {
                    view = None;
                }
            }
        }
    }
    Ok(slice)
}
fn history_case<S: Lib>(c: &LoanCase) -> Check {
    match c.prog.dom % 5 {
        0 => run::<Lin<0>, S>(c),
        1 => run::<Lin<1>, S>(c),
        2 => run::<Lin<3>, S>(c),
        3 => run::<TensorBasis<2>, S>(c),
        _ => run::<TensorBasis<5>, S>(c),
    }
}
pub fn history(c: &LoanCase) -> Check {
    crate::by_field!(c.prog.field, history_case(c))
}

// ---------- products ----------

fn product_case<const N: u32, S: Lib>(c: &TenCase) -> Check {
    let cap = c.cap2_over(N);
    let (a, b, e): (Vec<S::M>, Vec<S::M>, Vec<S::M>) = (c.a.scalars(N, cap), c.b.scalars(N, cap), c.c.scalars(N, cap));
    let (la, lb): (Loan<S>, Loan<S>) = (Loan::new(&up(&a)), Loan::new(&up(&b)));
    let loans: Vec<Loan<S>> = (0..3).map(|_| Loan::new(&up(&e))).collect();
    let r = guarded(|| {
        let d = Some(c.d);
        let va: Plain<N, S> = SimpleDenseVector::verif_borrowed(la.shared());
        let vb: Plain<N, S> = SimpleDenseVector::verif_borrowed_mut(lb.mutable());
        let (oa, ob): (Plain<N, S>, Plain<N, S>) = (SimpleDenseVector::from(up(&a)), SimpleDenseVector::from(up(&b)));
        ensure_eq!(va.degree(), oa.degree(), "degree over shared data");
        ensure_eq!(vb.degree(), ob.degree(), "degree over mutable data");
        agree(&va.multiply(&vb, d), &m_prod(&a, &b, N, c.d), "product of borrowed tensors")?;
        agree(&vb.commutator(&va, d), &m_sub(&m_prod(&b, &a, N, c.d), &m_prod(&a, &b, N, c.d)), "commutator of borrowed tensors")?;
        let mut x: Plain<N, S> = SimpleDenseVector::verif_borrowed(loans[0].shared());
        x.add_mul(&va, &vb, d);
        agree(&x, &m_add(&e, &m_prod(&a, &b, N, c.d)), "accumulation on shared data")?;
        let mut y: Plain<N, S> = SimpleDenseVector::verif_borrowed_mut(loans[1].mutable());
        y.sub_mul(&va, &ob, d);
        agree(&y, &m_sub(&e, &m_prod(&a, &b, N, c.d)), "accumulation on mutable data")?;
        let mut z: Plain<N, S> = SimpleDenseVector::verif_borrowed_mut(loans[2].mutable());
        z.multiply_inplace(&vb, d);
        agree(&z, &m_prod(&e, &b, N, c.d), "in-place product on mutable data")?;
        let mut w: Plain<N, S> = SimpleDenseVector::verif_borrowed(la.shared());
        w.multiply_inplace(&vb, d);
        agree(&w, &m_prod(&a, &b, N, c.d), "in-place product on shared data")?;
        ensure_eq!(format!("{}", va), format!("{}", oa), "text of a vector over borrowed data");
        Ok(())
    });
    let (aa, bb) = (la.back(), lb.back());
    let es: Vec<Vec<S>> = loans.into_iter().map(|l| l.back()).collect();
    r?;
    ensure_eq!(down(&aa), a, "shared data of an operand");
    ensure_eq!(down(&bb), b, "mutably borrowed data of an operand");
    ensure_eq!(down(&es[0]), e, "shared data under an accumulator");
    Ok(())
}
pub fn products(c: &TenCase) -> Check {
    match (c.width, c.field) {
        (1, 3) => product_case::<1, Hp>(c),
        (2, 3) => product_case::<2, Hp>(c),
        (_, 3) => product_case::<3, Hp>(c),
        (1, 0) => product_case::<1, Fp>(c),
        (1, _) => product_case::<1, f64>(c),
        (2, 0) => product_case::<2, Fp>(c),
        (2, _) => product_case::<2, f64>(c),
        (3, 0) => product_case::<3, Fp>(c),
        (3, _) => product_case::<3, f32>(c),
        (_, 0) => product_case::<5, Fp>(c),
        (_, _) => product_case::<5, f64>(c),
    }
}

pub fn strat(_: Tier) -> BoxedStrategy<LoanCase> {
    let mix = Mix { cons: 2, elem: 5, dense: 2, arith: 7, keyed: 3, portable: false, maxkey: 30, ndoms: 5, len: 14, big: false };
    (
        any::<bool>(),
        0u8..3,
        proptest::collection::vec(coef_strategy(), 0..40),
        prog_strategy(mix),
    )
        .prop_map(|(mutable, at, data, mut prog)| {
            // keep the borrowed register: drop initial constructions into it
            let first: Vec<Op> = prog.ops.drain(..).collect();
            let mut lead = true;
            for o in first {
                if lead {
                    if let Op::FromIter(r, _) = &o {
                        if *r == at {
                            continue;
                        }
                    } else {
                        lead = false;
                    }
                }
                prog.ops.push(o);
            }
            LoanCase { mutable, at, data, prog }
        })
        .boxed()
}
/// Larger slices, fewer operations.
fn big(_: Tier) -> BoxedStrategy<LoanCase> {
    let mix = Mix { cons: 1, elem: 5, dense: 4, arith: 7, keyed: 2, portable: false, maxkey: 2500, ndoms: 5, len: 6, big: true };
    (any::<bool>(), 0u8..3, (any::<u64>(), prop_oneof![4 => 40u64..300, 4 => 40u64..5000, 1 => near(1, 10_000)]), prog_strategy(mix))
        .prop_map(|(mutable, at, (seed, n), mut prog)| {
            let data = (0..n as usize).map(|i| (crate::words::scramble(seed.wrapping_add(i as u64)) % 19) as i64 - 9).collect();
            // the borrowed register keeps its data at first
            let k = prog.ops.iter().position(|o| !matches!(o, Op::FromIter(..))).unwrap_or(prog.ops.len());
            let mut i = 0;
            prog.ops.retain(|o| {
                i += 1;
                i > k || !matches!(o, Op::FromIter(r, _) if *r == at)
            });
            LoanCase { mutable, at, data, prog }
        })
        .boxed()
}
pub fn rule(c: &LoanCase, l: &mut Labels) -> bool {
    prog_labels(&c.prog, l);
    l.hit_if(c.mutable, "mutable slice");
    !c.data.is_empty() && !c.prog.ops.is_empty()
}
pub fn c28() -> Property {
    Property {
        id: "C28",
        rule: "histories of up to 14 operations on three vectors one of which views a shared or mutable slice of up to 40 (some up to 5000) coefficients, over five bases and five fields, compared with the map model after every step and with the slice at the end; products, commutators and accumulations of borrowed tensors against the model; non-trivial = the data is not empty and an operation follows",
        assumptions: &["borrowed vectors are made through the verification hook (the crate has no public constructor for them)", "a vector that is resized or has to grow owns its data from then on"],
        subs: vec![
            Sub { name: "history", quick: 60_000, thorough: 2_000_000, always_fork: false, strat,
                classify: rule, test: history }.boxed(),
            Sub { name: "large", quick: 3_000, thorough: 100_000, always_fork: false, strat: big, classify: rule, test: history }.boxed(),
            Sub { name: "products", quick: 20_000, thorough: 600_000, always_fork: false, strat: |_| ten_case(true), classify: two_rule, test: products }.boxed(),
        ],
    }
}
