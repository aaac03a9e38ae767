//! Catalogues of small components shared by several checks.
use crate::model::*;
use crate::sem::*;

pub type Upd = Vec<(usize, i32)>;

pub fn le(k: i32) -> F {
    c(0, Op::Le, k)
}
pub fn lt(k: i32) -> F {
    c(0, Op::Lt, k)
}
pub fn ge(k: i32) -> F {
    c(0, Op::Ge, k)
}
pub fn gt(k: i32) -> F {
    c(0, Op::Gt, k)
}
pub fn eq(k: i32) -> F {
    c(0, Op::Eq, k)
}

/// One location, at most one output loop and one input loop.
pub fn one_loc(name: &str, o: &str, i: &str, guards: &[F], upds: &[Upd], invs: &[F]) -> Vec<Comp> {
    let mut edges: Vec<Option<(F, Upd)>> = vec![None];
    for g in guards {
        for u in upds {
            edges.push(Some((g.clone(), u.clone())));
        }
    }
    let mut out = vec![];
    for inv in invs {
        for eo in &edges {
            for ei in &edges {
                let mut c = Comp::new(name, 1);
                c.loc(inv.clone());
                if let Some((g, u)) = eo {
                    c.edge(0, &format!("{o}!"), g.clone(), u, 0);
                }
                if let Some((g, u)) = ei {
                    c.edge(0, &format!("{i}?"), g.clone(), u, 0);
                }
                out.push(c);
            }
        }
    }
    out
}

/// Two locations: L0 -first-> L1, L1 -second-> back or L1 again.
pub fn two_loc(
    name: &str,
    first: &str,
    seconds: &[(&str, usize)],
    g0: &[F],
    u0: &[Upd],
    g1: &[F],
    u1: &[Upd],
    inv0: &[F],
    inv1: &[F],
) -> Vec<Comp> {
    let mut out = vec![];
    for i0 in inv0 {
        for i1 in inv1 {
            for a in g0 {
                for ua in u0 {
                    for b in g1 {
                        for ub in u1 {
                            for (act, dst) in seconds {
                                let mut c = Comp::new(name, 1);
                                c.loc(i0.clone());
                                c.loc(i1.clone());
                                c.edge(0, first, a.clone(), ua, 1);
                                c.edge(1, act, b.clone(), ub, *dst);
                                out.push(c);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

/// Keeps the components that are deterministic and have no reachable stuck state.
pub fn keep_good(v: Vec<Comp>) -> Vec<Comp> {
    v.into_iter().filter(|c| good(&leaf(c)).is_some()).collect()
}

pub fn renamed(v: &[Comp], name: &str) -> Vec<Comp> {
    v.iter().map(|c| c.renamed(name)).collect()
}
