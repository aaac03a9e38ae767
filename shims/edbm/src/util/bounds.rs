use super::constraints::ClockIndex;
/// The maximal constant each clock is compared with from below (`lower`) and from above (`upper`).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bounds { lower: Vec<Option<i32>>, upper: Vec<Option<i32>> }
fn put(v: &mut [Option<i32>], c: ClockIndex, b: i32) { if v[c].map_or(true, |o| b > o) { v[c] = Some(b) } }
impl Bounds {
    pub fn new(dim: ClockIndex) -> Self { Bounds { lower: vec![None; dim], upper: vec![None; dim] } }
    pub fn dim(&self) -> usize { self.lower.len() }
    pub fn add_lower(&mut self, c: ClockIndex, b: i32) { put(&mut self.lower, c, b) }
    pub fn add_upper(&mut self, c: ClockIndex, b: i32) { put(&mut self.upper, c, b) }
    pub fn get_lower(&self, c: ClockIndex) -> Option<i32> { self.lower[c] }
    pub fn get_upper(&self, c: ClockIndex) -> Option<i32> { self.upper[c] }
    pub fn get_max(&self, c: ClockIndex) -> Option<i32> { self.lower[c].max(self.upper[c]) }
    pub fn add_bounds(&mut self, o: &Bounds) {
        for c in 0..o.dim().min(self.dim()) {
            if let Some(b) = o.lower[c] { self.add_lower(c, b) }
            if let Some(b) = o.upper[c] { self.add_upper(c, b) }
        }
    }
}
