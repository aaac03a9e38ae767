use crate::util::bounds::Bounds;
use crate::util::constraints::*;
use std::fmt;
use std::ops::{Add, AddAssign, BitAnd, Neg, Not, Sub, SubAssign};

/// A closed, non-empty difference bound matrix: `m[i][j]` bounds `x_i - x_j`.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Dbm { dim: usize, m: Vec<RawInequality> }
impl Dbm {
    fn at(&self, i: usize, j: usize) -> RawInequality { self.m[i * self.dim + j] }
    fn set(&mut self, i: usize, j: usize, r: RawInequality) { let d = self.dim; self.m[i * d + j] = r }
    fn universe(dim: usize) -> Dbm {
        let mut d = Dbm { dim, m: vec![INFINITY; dim * dim] };
        for i in 0..dim { d.set(i, i, LE_ZERO); d.set(0, i, LE_ZERO) }
        d
    }
    fn zero(dim: usize) -> Dbm { Dbm { dim, m: vec![LE_ZERO; dim * dim] } }
    fn close(mut self) -> Option<Dbm> {
        for k in 0..self.dim {
            for i in 0..self.dim {
                for j in 0..self.dim {
                    let c = self.at(i, k).add(self.at(k, j));
                    if c < self.at(i, j) { self.set(i, j, c) }
                }
                if self.at(i, i) < LE_ZERO { return None }
            }
        }
        Some(self)
    }
    fn constrain(&self, i: usize, j: usize, r: RawInequality) -> Option<Dbm> {
        if i == j { return if r < LE_ZERO { None } else { Some(self.clone()) } }
        if r >= self.at(i, j) { return Some(self.clone()) }
        if r.add(self.at(j, i)) < LE_ZERO { return None }
        let mut d = self.clone();
        for a in 0..d.dim {
            let ai = self.at(a, i).add(r);
            if ai.is_infinity() { continue }
            for b in 0..d.dim { let c = ai.add(self.at(j, b)); if c < d.at(a, b) { d.set(a, b, c) } }
        }
        Some(d)
    }
    fn intersect(&self, o: &Dbm) -> Option<Dbm> {
        let mut d = self.clone();
        let mut changed = false;
        for k in 0..d.m.len() { if o.m[k] < d.m[k] { d.m[k] = o.m[k]; changed = true } }
        if changed { d.close() } else { Some(d) }
    }
    fn subset(&self, o: &Dbm) -> bool { self.m.iter().zip(&o.m).all(|(a, b)| a <= b) }
    /// `self \ o` as disjoint DBMs.
    fn minus(&self, o: &Dbm, out: &mut Vec<Dbm>) {
        let mut rest = self.clone();
        for (i, j, r) in o.minimal() {
            if let Some(p) = rest.constrain(j, i, r.as_negated()) { out.push(p) }
            match rest.constrain(i, j, r) { Some(n) => rest = n, None => return }
        }
    }
    fn up(&self) -> Dbm { let mut d = self.clone(); for i in 1..d.dim { d.set(i, 0, INFINITY) } d }
    fn down(&self) -> Dbm {
        let mut d = self.clone();
        for i in 1..d.dim {
            let mut r = LE_ZERO;
            for j in 1..d.dim { if d.at(j, i) < r { r = d.at(j, i) } }
            d.set(0, i, r);
        }
        d.close().expect("down of a non-empty zone is non-empty")
    }
    fn free(&self, x: usize) -> Dbm {
        let mut d = self.clone();
        for i in 0..d.dim { if i != x { d.set(x, i, INFINITY); let r = d.at(i, 0); d.set(i, x, r) } }
        d.set(0, x, LE_ZERO);
        d
    }
    fn reset(&self, x: usize, v: i32) -> Dbm {
        let mut d = self.clone();
        for i in 0..d.dim {
            if i != x {
                let a = RawInequality::new_weak(v).add(d.at(0, i)); d.set(x, i, a);
                let b = d.at(i, 0).add(RawInequality::new_weak(-v)); d.set(i, x, b);
            }
        }
        d
    }
    /// A minimal set of constraints whose closure (with `x >= 0`) is `self`.
    fn minimal(&self) -> Vec<(usize, usize, RawInequality)> {
        let mut cs: Vec<(usize, usize, RawInequality)> = vec![];
        for i in 0..self.dim { for j in 0..self.dim {
            let r = self.at(i, j);
            if i != j && !r.is_infinity() && !(i == 0 && r == LE_ZERO) { cs.push((i, j, r)) }
        } }
        let close = |cs: &[(usize, usize, RawInequality)]| {
            let mut d = Dbm::universe(self.dim);
            for (i, j, r) in cs { if *r < d.at(*i, *j) { d.set(*i, *j, *r) } }
            d.close()
        };
        let mut k = cs.len();
        while k > 0 {
            k -= 1;
            let c = cs.remove(k);
            if close(&cs).as_ref() != Some(self) { cs.insert(k, c) }
        }
        cs
    }
    fn extrapolate(&self, b: &Bounds) -> Dbm {
        let mut d = self.clone();
        for i in 0..d.dim { for j in 0..d.dim {
            if i == j { continue }
            let r = d.at(i, j);
            if i > 0 && !r.is_infinity() && b.get_max(i).map_or(true, |m| r.bound() > m) { d.set(i, j, INFINITY) }
            else if j > 0 {
                match b.get_max(j) {
                    None => d.set(i, j, if i == 0 { LE_ZERO } else { INFINITY }),
                    Some(m) => if -r.bound() > m && !r.is_infinity() { d.set(i, j, RawInequality::new_strict(-m)) }
                }
            }
        } }
        d.close().expect("extrapolation only grows a zone")
    }
}

/// A finite union of zones.
#[derive(Clone)]
pub struct OwnedFederation { dim: usize, dbms: Vec<Dbm> }
impl OwnedFederation {
    fn of(dim: usize, mut v: Vec<Dbm>) -> Self {
        let mut keep: Vec<Dbm> = vec![];
        while let Some(d) = v.pop() {
            if !keep.iter().any(|k| d.subset(k)) { keep.retain(|k| !k.subset(&d)); keep.push(d) }
        }
        keep.reverse();
        OwnedFederation { dim, dbms: keep }
    }
    fn each(&self, f: impl Fn(&Dbm) -> Option<Dbm>) -> Self { Self::of(self.dim, self.dbms.iter().filter_map(f).collect()) }
    fn check(&self, o: &Self) { assert_eq!(self.dim, o.dim, "federations of different dimensions") }
    pub fn empty(dim: ClockIndex) -> Self { OwnedFederation { dim, dbms: vec![] } }
    pub fn universe(dim: ClockIndex) -> Self { OwnedFederation { dim, dbms: vec![Dbm::universe(dim)] } }
    pub fn zero(dim: ClockIndex) -> Self { OwnedFederation { dim, dbms: vec![Dbm::zero(dim)] } }
    /// All clocks equal: everything reachable from the origin by delay.
    pub fn init(dim: ClockIndex) -> Self { OwnedFederation { dim, dbms: vec![Dbm::zero(dim).up()] } }
    pub fn from_disjunction(d: &Disjunction, dim: ClockIndex) -> Self {
        let mut v = vec![];
        for c in &d.conjunctions {
            let mut z = Some(Dbm::universe(dim));
            for k in &c.constraints { z = z.and_then(|z| z.constrain(k.i, k.j, k.raw())) }
            v.extend(z);
        }
        Self::of(dim, v)
    }
    pub fn from_conjunction(c: &Conjunction, dim: ClockIndex) -> Self { Self::from_disjunction(&Disjunction::new(vec![c.clone()]), dim) }
    pub fn from_constraint(c: &Constraint, dim: ClockIndex) -> Self { Self::from_conjunction(&Conjunction::new(vec![c.clone()]), dim) }
    pub fn dim(&self) -> ClockIndex { self.dim }
    pub fn size(&self) -> usize { self.dbms.len() }
    pub fn is_empty(&self) -> bool { self.dbms.is_empty() }
    pub fn is_universe(&self) -> bool { Self::universe(self.dim).subset_eq(self) }
    pub fn is_init(&self) -> bool { self.equals(&Self::init(self.dim)) }
    pub fn set_empty(mut self) -> Self { self.dbms.clear(); self }
    pub fn set_universe(self) -> Self { Self::universe(self.dim) }
    pub fn set_init(self) -> Self { Self::init(self.dim) }
    pub fn set_zero(self) -> Self { Self::zero(self.dim) }
    pub fn constrain(self, i: ClockIndex, j: ClockIndex, q: Inequality) -> Self { let r = q.into(); self.each(|d| d.constrain(i, j, r)) }
    pub fn constrain_raw(self, i: ClockIndex, j: ClockIndex, r: RawInequality) -> Self { self.each(|d| d.constrain(i, j, r)) }
    pub fn constrain_eq(self, i: ClockIndex, v: i32) -> Self { self.constrain(i, 0, Inequality::LE(v)).constrain(0, i, Inequality::LE(-v)) }
    pub fn constrain_many(self, cs: Vec<Constraint>) -> Self { cs.into_iter().fold(self, |s, c| s.constrain_raw(c.i, c.j, c.raw())) }
    pub fn intersection(self, o: &Self) -> Self {
        self.check(o);
        let mut v = vec![];
        for a in &self.dbms { for b in &o.dbms { v.extend(a.intersect(b)) } }
        Self::of(self.dim, v)
    }
    pub fn has_intersection(&self, o: &Self) -> bool { self.check(o); self.dbms.iter().any(|a| o.dbms.iter().any(|b| a.intersect(b).is_some())) }
    pub fn union(mut self, o: &Self) -> Self { self.check(o); self.dbms.extend(o.dbms.iter().cloned()); Self::of(self.dim, self.dbms) }
    pub fn append(self, o: &Self) -> Self { self.union(o) }
    pub fn subtraction(self, o: &Self) -> Self {
        self.check(o);
        let mut cur = self.dbms;
        for b in &o.dbms {
            let mut next = vec![];
            for a in &cur { if a.intersect(b).is_some() { a.minus(b, &mut next) } else { next.push(a.clone()) } }
            cur = next;
        }
        Self::of(self.dim, cur)
    }
    pub fn inverse(self) -> Self { Self::universe(self.dim).subtraction(&self) }
    pub fn subset_eq(&self, o: &Self) -> bool { self.clone().subtraction(o).is_empty() }
    pub fn superset_eq(&self, o: &Self) -> bool { o.subset_eq(self) }
    pub fn subset(&self, o: &Self) -> bool { self.subset_eq(o) && !o.subset_eq(self) }
    pub fn superset(&self, o: &Self) -> bool { o.subset(self) }
    pub fn equals(&self, o: &Self) -> bool { self.subset_eq(o) && o.subset_eq(self) }
    pub fn up(self) -> Self { self.each(|d| Some(d.up())) }
    pub fn down(self) -> Self { self.each(|d| Some(d.down())) }
    pub fn free_clock(self, x: ClockIndex) -> Self { self.each(|d| Some(d.free(x))) }
    pub fn update_clock_val(self, x: ClockIndex, v: i32) -> Self { self.each(|d| Some(d.reset(x, v))) }
    /// States that can delay into `self` without touching `bad` on the way (endpoints included).
    pub fn predt(&self, bad: &Self) -> Self {
        self.check(bad);
        let mut out = vec![];
        for g in &self.dbms {
            let g = OwnedFederation { dim: self.dim, dbms: vec![g.clone()] };
            let mut acc = g.clone().down();
            for b in &bad.dbms {
                let b = OwnedFederation { dim: self.dim, dbms: vec![b.clone()] };
                let bd = b.clone().down();
                let one = g.clone().down().subtraction(&bd).union(&g.clone().intersection(&bd).subtraction(&b).down());
                acc = acc.intersection(&one);
            }
            out.extend(acc.dbms);
        }
        Self::of(self.dim, out)
    }
    pub fn extrapolate_max_bounds(self, b: &Bounds) -> Self { self.each(|d| Some(d.extrapolate(b))) }
    pub fn get_bounds(&self) -> Bounds {
        let mut b = Bounds::new(self.dim);
        for d in &self.dbms { for i in 0..self.dim { for j in 0..self.dim {
            let r = d.at(i, j);
            if i == j || r.is_infinity() || (i == 0 && r == LE_ZERO) { continue }
            if i > 0 { b.add_upper(i, r.bound()) }
            if j > 0 { b.add_lower(j, -r.bound()) }
        } } }
        b
    }
    pub fn minimal_constraints(&self) -> Disjunction {
        Disjunction::new(self.dbms.iter().map(|d| Conjunction::new(d.minimal().into_iter().map(|(i, j, r)| Constraint::new(i, j, r)).collect())).collect())
    }
    pub fn reduce(self) -> Self { Self::of(self.dim, self.dbms) }
    pub fn expensive_reduce(self) -> Self {
        let mut v = self.dbms;
        let mut k = v.len();
        while k > 0 {
            k -= 1;
            let d = v.remove(k);
            let rest = OwnedFederation { dim: self.dim, dbms: v.clone() };
            if !(OwnedFederation { dim: self.dim, dbms: vec![d.clone()] }).subset_eq(&rest) { v.insert(k, d) }
        }
        OwnedFederation { dim: self.dim, dbms: v }
    }
    pub fn can_delay_indefinitely(&self) -> bool { self.dbms.iter().any(|d| (1..self.dim).all(|i| d.at(i, 0).is_infinity())) }
    pub fn is_unbounded(&self) -> bool { self.can_delay_indefinitely() }
    /// Whether the point `v / scale` (with `v[0] == 0`) is a member.
    pub fn contains_scaled(&self, v: &[i64], scale: i64) -> bool {
        self.dbms.iter().any(|d| (0..self.dim).all(|i| (0..self.dim).all(|j| {
            let r = d.at(i, j);
            r.is_infinity() || { let (l, b) = (v[i] - v[j], r.bound() as i64 * scale); if r.is_strict() { l < b } else { l <= b } }
        })))
    }
}
impl PartialEq for OwnedFederation { fn eq(&self, o: &Self) -> bool { self.dim == o.dim && self.equals(o) } }
impl Eq for OwnedFederation {}
impl Not for OwnedFederation { type Output = Self; fn not(self) -> Self { self.inverse() } }
impl Neg for OwnedFederation { type Output = Self; fn neg(self) -> Self { self.inverse() } }
impl Add for OwnedFederation { type Output = Self; fn add(self, o: Self) -> Self { self.union(&o) } }
impl Add<&OwnedFederation> for OwnedFederation { type Output = Self; fn add(self, o: &Self) -> Self { self.union(o) } }
impl Sub for OwnedFederation { type Output = Self; fn sub(self, o: Self) -> Self { self.subtraction(&o) } }
impl Sub<&OwnedFederation> for OwnedFederation { type Output = Self; fn sub(self, o: &Self) -> Self { self.subtraction(o) } }
impl BitAnd for OwnedFederation { type Output = Self; fn bitand(self, o: Self) -> Self { self.intersection(&o) } }
impl AddAssign for OwnedFederation { fn add_assign(&mut self, o: Self) { *self = self.clone().union(&o) } }
impl AddAssign<&OwnedFederation> for OwnedFederation { fn add_assign(&mut self, o: &Self) { *self = self.clone().union(o) } }
impl SubAssign for OwnedFederation { fn sub_assign(&mut self, o: Self) { *self = self.clone().subtraction(&o) } }
impl fmt::Debug for OwnedFederation { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self) } }
impl fmt::Display for OwnedFederation { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if self.is_empty() { write!(f, "empty") } else { write!(f, "{}", self.minimal_constraints()) } } }
