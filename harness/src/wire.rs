//! Reads states, zones and decisions as they come over the wire, in terms of the reference semantics.
use crate::model::*;
use crate::region::*;
use crate::sem::*;
use reveaal::ProtobufServer::services::{self, clock::Clock as WClock, location_tree::NodeType};
use std::collections::HashSet;
use std::rc::Rc;

/// Component instances of a system, in instance order, with the place of their clocks.
pub struct Names {
    pub comps: Vec<(Comp, usize)>,
    pub quot: Vec<usize>,
}

pub fn names(ts: &Ts) -> Names {
    fn go(ts: &Ts, n: &mut Names) {
        match &ts.node {
            Node::Leaf { comp, off, .. } => n.comps.push((comp.clone(), *off)),
            Node::Par(a, b) | Node::Conj(a, b) => {
                go(a, n);
                go(b, n);
            }
            Node::Quot { t, s, clock, .. } => {
                go(t, n);
                go(s, n);
                n.quot.push(*clock);
            }
        }
    }
    let mut n = Names { comps: vec![], quot: vec![] };
    go(ts, &mut n);
    n
}

impl Names {
    fn inst(&self, ci: &Option<services::ComponentInstance>) -> Result<usize, String> {
        let ci = ci.as_ref().ok_or("no component instance")?;
        let i = ci.component_index as usize;
        match self.comps.get(i) {
            Some((c, _)) if c.name == ci.component_name => Ok(i),
            _ => Err(format!("no component instance {}#{}", ci.component_name, ci.component_index)),
        }
    }
    fn clock(&self, c: &Option<services::Clock>) -> Result<Option<usize>, String> {
        match c.as_ref().and_then(|c| c.clock.as_ref()).ok_or("no clock")? {
            WClock::ZeroClock(_) => Ok(None),
            WClock::ComponentClock(cc) => {
                let i = self.inst(&cc.component_instance)?;
                let (comp, off) = &self.comps[i];
                let k = comp.clocks.iter().position(|x| *x == cc.clock_name).ok_or(format!("no clock {}", cc.clock_name))?;
                Ok(Some(off + k))
            }
            WClock::SystemClock(s) => match self.quot.as_slice() {
                [one, rest @ ..] if rest.iter().all(|q| q == one) => Ok(Some(*one)),
                // several quotients: clocks are numbered from one, in the order of the expression
                all if s.clock_index > 0 && all.contains(&(s.clock_index as usize - 1)) => Ok(Some(s.clock_index as usize - 1)),
                _ => Err(format!("system clock {} of {} quotients", s.clock_index, self.quot.len())),
            },
        }
    }
    /// The zone as a formula over the reference clocks.
    pub fn zone(&self, z: &services::Disjunction) -> Result<F, String> {
        let mut f = F::N;
        for conj in &z.conjunctions {
            let mut g = F::T;
            for k in &conj.constraints {
                let op = if k.strict { Op::Lt } else { Op::Le };
                // x - y op c
                let atom = match (self.clock(&k.x)?, self.clock(&k.y)?) {
                    (Some(x), Some(y)) => F::D(x, y, op, k.c),
                    (Some(x), None) => F::C(x, op, k.c),
                    (None, Some(y)) => F::C(y, if k.strict { Op::Gt } else { Op::Ge }, -k.c),
                    (None, None) => {
                        if op.holds(0.cmp(&k.c)) {
                            F::T
                        } else {
                            F::N
                        }
                    }
                };
                g = and(g, atom);
            }
            f = or(f, g);
        }
        Ok(f)
    }
    pub fn loc(&self, ts: &Ts, t: &services::LocationTree) -> Result<L, String> {
        let nt = t.node_type.as_ref().ok_or("empty location tree")?;
        match (&ts.node, nt) {
            (Node::Leaf { comp, inst, .. }, NodeType::LeafLocation(l)) => {
                let i = self.inst(&l.component_instance)?;
                if i != *inst {
                    return Err(format!("location of instance {i} where instance {inst} is expected"));
                }
                comp.locs.iter().position(|x| x.id == l.id).map(L::S).ok_or(format!("no location {}", l.id))
            }
            (Node::Par(a, b), NodeType::BinaryLocationOp(x)) if x.operator == 1 => self.two(a, b, x),
            (Node::Conj(a, b), NodeType::BinaryLocationOp(x)) if x.operator == 0 => self.two(a, b, x),
            (Node::Quot { t, s, .. }, NodeType::BinaryLocationOp(x)) if x.operator == 2 => self.two(t, s, x),
            (Node::Quot { .. }, NodeType::SpecialLocation(0)) => Ok(L::Univ),
            (Node::Quot { .. }, NodeType::SpecialLocation(1)) => Ok(L::Err),
            _ => Err(format!("location tree {nt:?} does not fit the system")),
        }
    }
    fn two(&self, a: &Ts, b: &Ts, x: &services::BinaryLocationOperator) -> Result<L, String> {
        let l = self.loc(a, x.left.as_ref().ok_or("no left side")?)?;
        let r = self.loc(b, x.right.as_ref().ok_or("no right side")?)?;
        Ok(L::P(Rc::new(l), Rc::new(r)))
    }
    pub fn state(&self, ts: &Ts, s: &Option<services::State>) -> Result<(L, F), String> {
        let s = s.as_ref().ok_or("no state")?;
        Ok((
            self.loc(ts, s.location_tree.as_ref().ok_or("no location tree")?)?,
            self.zone(s.zone.as_ref().ok_or("no zone")?)?,
        ))
    }
    /// Own edges of the components, in order, with the artificial ones left out.
    pub fn edges(&self, es: &[services::Edge]) -> Result<Vec<(usize, String)>, String> {
        let mut out = vec![];
        for e in es {
            let i = self.inst(&e.component_instance)?;
            if self.comps[i].0.edges.iter().any(|x| x.id == e.id) {
                out.push((i, e.id.clone()));
            }
        }
        Ok(out)
    }
}

pub struct Dec {
    pub src: (L, F),
    pub act: String,
    pub edges: Vec<(usize, String)>,
    pub dst: (L, F),
}

pub fn decision(n: &Names, ts: &Ts, d: &services::Decision) -> Result<Dec, String> {
    Ok(Dec {
        src: n.state(ts, &d.source)?,
        act: d.action.clone(),
        edges: n.edges(&d.edges)?,
        dst: n.state(ts, &d.destination)?,
    })
}

/// Delay closure of a set of regions in a location.
pub fn delayed(ts: &Ts, l: &L, rs: &HashSet<Reg>, b: Bound) -> HashSet<Reg> {
    let inv = ts.inv(l);
    let mut out = HashSet::new();
    for r in rs {
        let mut cur = *r;
        if !cur.eval(&inv) {
            continue;
        }
        while out.insert(cur) {
            match cur.succ(b) {
                Some(n) if n.eval(&inv) => cur = n,
                _ => break,
            }
        }
    }
    out
}

/// Regions with diagonal information that fit the constants, all of them.
pub fn universe(n: usize, m: i32) -> Vec<Reg> {
    let b = Bound { m, diag: true };
    let g = 2 * m + 2;
    // order of the clocks and gaps between neighbours, from zero upwards
    let mut out: HashSet<Reg> = HashSet::new();
    let top = (g as usize + 1) * n;
    let per: Vec<(u8, u8)> = (0..=top as u8).flat_map(|i| (0..=n as u8).map(move |f| (i, f))).collect();
    for k in 0..(per.len() as u64).pow(n as u32) {
        let mut d = Dig(k);
        let mut r = Reg::zero(n);
        for i in 0..n {
            let (ip, fr) = *d.of(&per);
            r.ip[i] = ip;
            r.fr[i] = fr;
        }
        out.insert(r.canon(b));
    }
    let mut v: Vec<Reg> = out.into_iter().collect();
    v.sort();
    v
}
