//! Clock sets as sets of points: a grid fine enough to meet every region of up to three clocks.
use crate::model::{Comp, F};
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use std::collections::HashMap;

/// Points are given in units of 1/SCALE; SCALE must exceed the number of clocks.
pub const SCALE: i64 = 4;

pub fn grid(n: usize, top: i64, scale: i64) -> Vec<Vec<i64>> {
    let mut g = vec![vec![]];
    for _ in 0..n {
        g = g
            .into_iter()
            .flat_map(|p: Vec<i64>| {
                (0..=top * scale).map(move |a| {
                    let mut q = p.clone();
                    q.push(a * (SCALE / scale));
                    q
                })
            })
            .collect();
    }
    g
}

pub fn holds(f: &F, v: &[i64]) -> bool {
    match f {
        F::T => true,
        F::N => false,
        F::C(x, op, k) => op.holds(v[*x].cmp(&(*k as i64 * SCALE))),
        F::D(x, y, op, k) => op.holds((v[*x] - v[*y]).cmp(&(*k as i64 * SCALE))),
        F::And(a, b) => holds(a, v) && holds(b, v),
        F::Or(a, b) => holds(a, v) || holds(b, v),
        F::Not(a) => !holds(a, v),
    }
}

pub fn assign(v: &[i64], resets: &[(usize, i32)]) -> Vec<i64> {
    let mut v = v.to_vec();
    for (x, k) in resets {
        v[*x] = *k as i64 * SCALE;
    }
    v
}

/// Value (in units of 1/SCALE) of an expression of the code under test; None: no integer linear meaning.
fn value(a: &A, at: &dyn Fn(&A) -> Option<i64>, konst: &mut bool) -> Option<i64> {
    let mut two = |l: &A, r: &A| {
        let (mut cl, mut cr) = (true, true);
        let v = (value(l, at, &mut cl)?, value(r, at, &mut cr)?);
        *konst = cl && cr;
        Some((v.0, v.1, cl, cr))
    };
    match a {
        A::Difference(l, r) => two(l, r).map(|(l, r, ..)| l - r),
        A::Addition(l, r) => two(l, r).map(|(l, r, ..)| l + r),
        A::Multiplication(l, r) => two(l, r).and_then(|(l, r, cl, cr)| (cl || cr).then_some(l * r / SCALE)),
        A::Division(l, r) => two(l, r).and_then(|(l, r, cl, cr)| (cl && cr && r != 0).then(|| l / r * SCALE)),
        A::Modulo(l, r) => two(l, r).and_then(|(l, r, cl, cr)| (cl && cr && r != 0).then(|| l % r)),
        A::Int(i) => Some(*i as i64 * SCALE),
        _ => {
            *konst = false;
            at(a)
        }
    }
}

/// Does the code's own expression hold at the point? Names are looked up in `names`.
pub fn holds_real(b: &B, names: &HashMap<String, usize>, v: &[i64]) -> Option<bool> {
    let at = |a: &A| match a {
        A::VarName(n) => names.get(n).map(|i| v[*i]),
        A::Clock(i) => v.get(i.checked_sub(1)?).copied(),
        _ => None,
    };
    let cmp = |l: &A, r: &A, ok: fn(std::cmp::Ordering) -> bool| {
        let (mut p, mut q) = (true, true);
        Some(ok(value(l, &at, &mut p)?.cmp(&value(r, &at, &mut q)?)))
    };
    use std::cmp::Ordering::*;
    match b {
        B::AndOp(l, r) => Some(holds_real(l, names, v)? & holds_real(r, names, v)?),
        B::OrOp(l, r) => Some(holds_real(l, names, v)? | holds_real(r, names, v)?),
        B::LessT(l, r) => cmp(l, r, |o| o == Less),
        B::LessEQ(l, r) => cmp(l, r, |o| o != Greater),
        B::EQ(l, r) => cmp(l, r, |o| o == Equal),
        B::GreatEQ(l, r) => cmp(l, r, |o| o != Less),
        B::GreatT(l, r) => cmp(l, r, |o| o == Greater),
        B::Bool(x) => Some(*x),
    }
}

pub fn names_of(c: &Comp) -> HashMap<String, usize> {
    c.clocks.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect()
}

pub fn place(names: &[String], v: &[i64]) -> String {
    names.iter().zip(v).map(|(n, a)| format!("{n}={}/{SCALE}", a)).collect::<Vec<_>>().join(" ")
}
