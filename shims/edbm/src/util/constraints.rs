use std::fmt;
pub type ClockIndex = usize;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Inequality { LS(i32), LE(i32) }
impl Inequality {
    pub fn strictness(&self) -> Strictness { match self { Inequality::LS(_) => Strictness::Strict, _ => Strictness::Weak } }
    pub fn is_strict(&self) -> bool { matches!(self, Inequality::LS(_)) }
    pub fn bound(&self) -> i32 { match self { Inequality::LS(b) | Inequality::LE(b) => *b } }
    pub fn is_infinity(&self) -> bool { RawInequality::from_inequality(self).is_infinity() }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub enum Strictness { Strict, Weak }
/// `2*bound` for `<`, `2*bound + 1` for `<=`.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RawInequality { raw: i32 }
pub const INFINITY: RawInequality = RawInequality { raw: i32::MAX - 1 };
pub const LE_ZERO: RawInequality = RawInequality { raw: 1 };
pub const LS_ZERO: RawInequality = RawInequality { raw: 0 };
impl RawInequality {
    pub fn inf() -> Self { INFINITY }
    pub fn le_zero() -> Self { LE_ZERO }
    pub fn ls_zero() -> Self { LS_ZERO }
    pub fn new_weak(b: i32) -> Self { RawInequality { raw: b * 2 + 1 } }
    pub fn new_strict(b: i32) -> Self { RawInequality { raw: b * 2 } }
    pub fn from_inequality(i: &Inequality) -> Self { match i { Inequality::LS(b) => Self::new_strict(*b), Inequality::LE(b) => Self::new_weak(*b) } }
    pub fn from_bound(b: i32, strict: bool) -> Self { if strict { Self::new_strict(b) } else { Self::new_weak(b) } }
    pub fn is_infinity(self) -> bool { self.raw >= INFINITY.raw }
    pub fn is_inf(self) -> bool { self.is_infinity() }
    pub fn bound(self) -> i32 { self.raw >> 1 }
    pub fn is_strict(self) -> bool { self.raw & 1 == 0 }
    pub fn is_weak(self) -> bool { !self.is_strict() }
    pub fn as_negated(self) -> Self { RawInequality { raw: 1 - self.raw } }
    pub fn add(self, o: Self) -> Self {
        if self.is_infinity() || o.is_infinity() { INFINITY } else { RawInequality { raw: self.raw + o.raw - ((self.raw & 1) | (o.raw & 1)) } }
    }
}
impl From<Inequality> for RawInequality { fn from(i: Inequality) -> Self { Self::from_inequality(&i) } }
impl From<RawInequality> for Inequality { fn from(r: RawInequality) -> Self { if r.is_strict() { Inequality::LS(r.bound()) } else { Inequality::LE(r.bound()) } } }
impl fmt::Debug for RawInequality { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if self.is_infinity() { write!(f, "<inf") } else { write!(f, "<{}{}", if self.is_weak() { "=" } else { "" }, self.bound()) } } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Constraint { pub i: ClockIndex, pub j: ClockIndex, raw: RawInequality }
impl Constraint {
    pub fn new(i: ClockIndex, j: ClockIndex, raw: RawInequality) -> Self { Constraint { i, j, raw } }
    pub fn ineq(&self) -> Inequality { self.raw.into() }
    pub fn raw(&self) -> RawInequality { self.raw }
}
impl fmt::Display for Constraint { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "x{}-x{}{:?}", self.i, self.j, self.raw) } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Conjunction { pub constraints: Vec<Constraint> }
impl Conjunction {
    pub fn new(constraints: Vec<Constraint>) -> Self { Conjunction { constraints } }
    pub fn iter(&self) -> impl Iterator<Item = &Constraint> { self.constraints.iter() }
    pub fn len(&self) -> usize { self.constraints.len() }
    pub fn is_empty(&self) -> bool { self.constraints.is_empty() }
}
impl fmt::Display for Conjunction { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for (n, c) in self.constraints.iter().enumerate() { if n > 0 { write!(f, " && ")? } write!(f, "{}", c)? } Ok(()) } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Disjunction { pub conjunctions: Vec<Conjunction> }
impl Disjunction {
    pub fn new(conjunctions: Vec<Conjunction>) -> Self { Disjunction { conjunctions } }
    pub fn iter(&self) -> impl Iterator<Item = &Conjunction> { self.conjunctions.iter() }
    pub fn len(&self) -> usize { self.conjunctions.len() }
    pub fn is_empty(&self) -> bool { self.conjunctions.is_empty() }
}
impl fmt::Display for Disjunction { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for (n, c) in self.conjunctions.iter().enumerate() { if n > 0 { write!(f, " || ")? } write!(f, "({})", c)? } Ok(()) } }
