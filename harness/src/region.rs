//! Exact region semantics for clock valuations.
use crate::model::{Op, F};
use std::cmp::Ordering;

pub const MAXC: usize = 8;
pub const INF: u8 = 255;

/// A clock region: integer parts and the ordering of the fractional parts (0 = no fraction).
/// Diagonal-free mode forgets clocks above `m` (INF). Diagonal mode shrinks gaps instead.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Reg {
    pub n: u8,
    pub ip: [u8; MAXC],
    pub fr: [u8; MAXC],
}

#[derive(Clone, Copy, Debug)]
pub struct Bound {
    pub m: i32,
    pub diag: bool,
}

impl Reg {
    pub fn zero(n: usize) -> Reg {
        assert!(n <= MAXC);
        Reg { n: n as u8, ip: [0; MAXC], fr: [0; MAXC] }
    }

    fn ranks(&mut self) {
        let n = self.n as usize;
        let mut used = [false; MAXC + 2];
        for i in 0..n {
            if self.ip[i] != INF {
                used[self.fr[i] as usize] = true;
            }
        }
        let mut map = [0u8; MAXC + 2];
        let mut k = 0;
        for r in 1..MAXC + 2 {
            if used[r] {
                k += 1;
                map[r] = k;
            }
        }
        for i in 0..n {
            self.fr[i] = if self.ip[i] == INF { 0 } else { map[self.fr[i] as usize] };
        }
    }

    pub fn canon(mut self, b: Bound) -> Reg {
        let n = self.n as usize;
        if !b.diag {
            for i in 0..n {
                if self.ip[i] == INF {
                    continue;
                }
                let v = self.ip[i] as i32;
                if v > b.m || (v == b.m && self.fr[i] > 0) {
                    self.ip[i] = INF;
                    self.fr[i] = 0;
                }
            }
        } else {
            // Comparisons are with constants of size <= m, and clocks are assigned constants <= m, so
            // gaps above 2m+2 between neighbouring clock values (and zero) are indistinguishable.
            let g = 2 * b.m + 2;
            let mut ord: Vec<usize> = (0..n).collect();
            ord.sort_by_key(|&i| (self.ip[i], self.fr[i]));
            let mut prev = (0i32, 0u8);
            for k in 0..n {
                let i = ord[k];
                let gap = self.ip[i] as i32 - prev.0 - if self.fr[i] < prev.1 { 1 } else { 0 };
                if gap > g {
                    let d = (gap - g) as u8;
                    for &j in &ord[k..] {
                        self.ip[j] -= d;
                    }
                }
                prev = (self.ip[i] as i32, self.fr[i]);
            }
        }
        self.ranks();
        self
    }

    /// The next region reached by letting time pass; None if time can pass forever without change.
    pub fn succ(mut self, b: Bound) -> Option<Reg> {
        let n = self.n as usize;
        let live = (0..n).any(|i| self.ip[i] != INF);
        if !live {
            return None;
        }
        if (0..n).any(|i| self.ip[i] != INF && self.fr[i] == 0) {
            for i in 0..n {
                if self.ip[i] != INF {
                    self.fr[i] += 1;
                }
            }
        } else {
            let mx = (0..n).filter(|&i| self.ip[i] != INF).map(|i| self.fr[i]).max().unwrap();
            for i in 0..n {
                if self.ip[i] != INF && self.fr[i] == mx {
                    self.ip[i] += 1;
                    self.fr[i] = 0;
                }
            }
        }
        let r = self.canon(b);
        Some(r)
    }

    pub fn assign(mut self, resets: &[(usize, i32)], b: Bound) -> Reg {
        for (x, v) in resets {
            self.ip[*x] = *v as u8;
            self.fr[*x] = 0;
        }
        self.canon(b)
    }

    fn cmp1(&self, x: usize, k: i32) -> Ordering {
        if self.ip[x] == INF {
            return Ordering::Greater;
        }
        (self.ip[x] as i32).cmp(&k).then(if self.fr[x] > 0 { Ordering::Greater } else { Ordering::Equal })
    }
    fn cmp2(&self, x: usize, y: usize, k: i32) -> Ordering {
        assert!(self.ip[x] != INF && self.ip[y] != INF, "diagonal constraint in diagonal-free mode");
        let d = self.ip[x] as i32 - self.ip[y] as i32;
        // difference is d exactly, in (d, d+1) or in (d-1, d)
        match self.fr[x].cmp(&self.fr[y]) {
            Ordering::Equal => d.cmp(&k),
            Ordering::Greater => {
                if d >= k {
                    Ordering::Greater
                } else {
                    Ordering::Less
                }
            }
            Ordering::Less => {
                if d <= k {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            }
        }
    }

    pub fn eval(&self, f: &F) -> bool {
        match f {
            F::T => true,
            F::N => false,
            F::C(x, op, k) => op.holds(self.cmp1(*x, *k)),
            F::D(x, y, op, k) => op.holds(self.cmp2(*x, *y, *k)),
            F::And(a, b) => self.eval(a) && self.eval(b),
            F::Or(a, b) => self.eval(a) || self.eval(b),
            F::Not(a) => !self.eval(a),
        }
    }

    /// A representative valuation scaled by `scale` (an integer > 2 * number of clocks).
    pub fn point(&self, m: i32, scale: i64) -> Vec<i64> {
        (0..self.n as usize)
            .map(|i| {
                if self.ip[i] == INF {
                    // distinct large values so that nothing coincides by accident
                    (m as i64 + 1) * scale + i as i64 * scale * 7 + 1 + i as i64
                } else {
                    self.ip[i] as i64 * scale + self.fr[i] as i64
                }
            })
            .collect()
    }

    pub fn show(&self) -> String {
        let v: Vec<String> = (0..self.n as usize)
            .map(|i| {
                if self.ip[i] == INF {
                    "inf".into()
                } else if self.fr[i] == 0 {
                    format!("{}", self.ip[i])
                } else {
                    format!("{}+f{}", self.ip[i], self.fr[i])
                }
            })
            .collect();
        format!("({})", v.join(","))
    }
}

/// Every diagonal-free region of n clocks with maximal constant m.
pub fn all_regions(n: usize, m: i32) -> Vec<Reg> {
    let b = Bound { m, diag: false };
    let mut out = std::collections::BTreeSet::new();
    let per: Vec<(u8, u8)> = (0..=m as u8)
        .flat_map(|i| (0..=n as u8).map(move |f| (i, f)))
        .chain(std::iter::once((INF, 0)))
        .collect();
    let total = (per.len() as u64).pow(n as u32);
    for k in 0..total {
        let mut k = k;
        let mut r = Reg::zero(n);
        for i in 0..n {
            let (ip, fr) = per[(k % per.len() as u64) as usize];
            k /= per.len() as u64;
            r.ip[i] = ip;
            r.fr[i] = fr;
        }
        out.insert(r.canon(b));
    }
    out.into_iter().collect()
}

/// Atoms used in many guard alphabets.
pub fn atoms(x: usize, ks: &[i32], ops: &[Op]) -> Vec<F> {
    ks.iter().flat_map(|&k| ops.iter().map(move |&o| F::C(x, o, k))).collect()
}
