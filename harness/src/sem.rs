//! Reference semantics of system expressions: synchronised product, conjunction and quotient of
//! timed I/O components, explored exactly on clock regions.
use crate::model::*;
use crate::region::*;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Expr {
    C(Comp),
    Par(Box<Expr>, Box<Expr>),
    Conj(Box<Expr>, Box<Expr>),
    /// T \\ S
    Quot(Box<Expr>, Box<Expr>),
}

pub fn par(a: Expr, b: Expr) -> Expr {
    Expr::Par(Box::new(a), Box::new(b))
}
pub fn conj(a: Expr, b: Expr) -> Expr {
    Expr::Conj(Box::new(a), Box::new(b))
}
pub fn quot(t: Expr, s: Expr) -> Expr {
    Expr::Quot(Box::new(t), Box::new(s))
}
pub fn leaf(c: &Comp) -> Expr {
    Expr::C(c.clone())
}

impl Expr {
    pub fn text(&self) -> String {
        match self {
            Expr::C(c) => c.name.clone(),
            Expr::Par(a, b) => format!("({} || {})", a.text(), b.text()),
            Expr::Conj(a, b) => format!("({} && {})", a.text(), b.text()),
            Expr::Quot(a, b) => format!("({} // {})", a.text(), b.text()),
        }
    }
    pub fn comps<'a>(&'a self, out: &mut Vec<&'a Comp>) {
        match self {
            Expr::C(c) => out.push(c),
            Expr::Par(a, b) | Expr::Conj(a, b) | Expr::Quot(a, b) => {
                a.comps(out);
                b.comps(out);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum L {
    S(usize),
    P(Rc<L>, Rc<L>),
    Univ,
    Err,
}

#[derive(Clone, Debug)]
pub struct Tr {
    pub guard: F,
    pub resets: Vec<(usize, i32)>,
    pub dst: L,
    /// (component instance, edge id) of the own edges that take part
    pub edges: Vec<(usize, String)>,
}

#[derive(Clone, Debug)]
pub enum Node {
    Leaf { comp: Comp, off: usize, inst: usize },
    Par(Box<Ts>, Box<Ts>),
    Conj(Box<Ts>, Box<Ts>),
    Quot { t: Box<Ts>, s: Box<Ts>, clock: usize, newi: String },
}

#[derive(Clone, Debug)]
pub struct Ts {
    pub node: Node,
    pub inputs: BTreeSet<String>,
    pub outputs: BTreeSet<String>,
}

#[derive(Default)]
pub struct Alloc {
    pub clocks: usize,
    pub inst: usize,
    /// one clock for all quotients of the system, as the implementation has it
    pub shared: bool,
    pub quot: Option<usize>,
}

impl Ts {
    /// None: the expression is not defined (alphabets do not fit).
    pub fn build(e: &Expr, al: &mut Alloc) -> Option<Ts> {
        Some(match e {
            Expr::C(c) => {
                let t = Ts {
                    inputs: c.inputs(),
                    outputs: c.outputs(),
                    node: Node::Leaf { comp: c.clone(), off: al.clocks, inst: al.inst },
                };
                al.clocks += c.clocks.len();
                al.inst += 1;
                if !t.inputs.is_disjoint(&t.outputs) {
                    return None;
                }
                t
            }
            Expr::Par(a, b) => {
                let a = Ts::build(a, al)?;
                let b = Ts::build(b, al)?;
                if !a.outputs.is_disjoint(&b.outputs) {
                    return None;
                }
                let outputs: BTreeSet<String> = a.outputs.union(&b.outputs).cloned().collect();
                let inputs = a.inputs.union(&b.inputs).filter(|i| !outputs.contains(*i)).cloned().collect();
                Ts { inputs, outputs, node: Node::Par(Box::new(a), Box::new(b)) }
            }
            Expr::Conj(a, b) => {
                let a = Ts::build(a, al)?;
                let b = Ts::build(b, al)?;
                if !a.inputs.is_disjoint(&b.outputs) || !a.outputs.is_disjoint(&b.inputs) {
                    return None;
                }
                Ts {
                    inputs: a.inputs.intersection(&b.inputs).cloned().collect(),
                    outputs: a.outputs.intersection(&b.outputs).cloned().collect(),
                    node: Node::Conj(Box::new(a), Box::new(b)),
                }
            }
            Expr::Quot(t, s) => {
                let t = Ts::build(t, al)?;
                let s = Ts::build(s, al)?;
                if !s.outputs.is_disjoint(&t.inputs) {
                    return None;
                }
                let clock = match al.quot {
                    Some(q) if al.shared => q,
                    _ => {
                        al.clocks += 1;
                        al.clocks - 1
                    }
                };
                al.quot = Some(clock);
                let mut inputs: BTreeSet<String> = t.inputs.union(&s.outputs).cloned().collect();
                let mut outputs: BTreeSet<String> = t.outputs.difference(&s.outputs).cloned().collect();
                outputs.extend(s.inputs.difference(&t.inputs).cloned());
                // an action of its own
                let newi = (0..).map(|i| format!("quotient_new_input{i}")).find(|a| !inputs.contains(a) && !outputs.contains(a)).unwrap();
                inputs.insert(newi.clone());
                Ts { inputs, outputs, node: Node::Quot { t: Box::new(t), s: Box::new(s), clock, newi } }
            }
        })
    }

    /// With the quotients of the system sharing their clock.
    pub fn of_shared(e: &Expr) -> Option<(Ts, usize)> {
        let mut al = Alloc { shared: true, ..Default::default() };
        let t = Ts::build(e, &mut al)?;
        Some((t, al.clocks))
    }

    pub fn of(e: &Expr) -> Option<(Ts, usize)> {
        let mut al = Alloc::default();
        let t = Ts::build(e, &mut al)?;
        Some((t, al.clocks))
    }

    pub fn actions(&self) -> BTreeSet<String> {
        self.inputs.union(&self.outputs).cloned().collect()
    }
    pub fn has(&self, a: &str) -> bool {
        self.inputs.contains(a) || self.outputs.contains(a)
    }

    pub fn max_const(&self) -> i32 {
        match &self.node {
            Node::Leaf { comp, .. } => comp.max_const(),
            Node::Par(a, b) | Node::Conj(a, b) => a.max_const().max(b.max_const()),
            Node::Quot { t, s, .. } => t.max_const().max(s.max_const()),
        }
    }
    /// Largest constant assigned to a clock.
    pub fn max_assigned(&self) -> i32 {
        match &self.node {
            Node::Leaf { comp, .. } => comp.edges.iter().flat_map(|e| &e.resets).map(|u| u.1).max().unwrap_or(0),
            Node::Par(a, b) | Node::Conj(a, b) => a.max_assigned().max(b.max_assigned()),
            Node::Quot { t, s, .. } => t.max_assigned().max(s.max_assigned()),
        }
    }
    pub fn has_diag(&self) -> bool {
        match &self.node {
            Node::Leaf { comp, .. } => comp.has_diag(),
            Node::Par(a, b) | Node::Conj(a, b) => a.has_diag() || b.has_diag(),
            Node::Quot { t, s, .. } => t.has_diag() || s.has_diag(),
        }
    }

    pub fn init(&self) -> Option<L> {
        Some(match &self.node {
            Node::Leaf { comp, .. } => L::S(comp.locs.iter().position(|l| l.kind == Kind::Initial)?),
            Node::Par(a, b) | Node::Conj(a, b) => L::P(Rc::new(a.init()?), Rc::new(b.init()?)),
            Node::Quot { t, s, .. } => L::P(Rc::new(t.init()?), Rc::new(s.init()?)),
        })
    }

    pub fn inv(&self, l: &L) -> F {
        match (&self.node, l) {
            (Node::Leaf { comp, off, .. }, L::S(i)) => comp.locs[*i].inv.shift(*off),
            (Node::Par(a, b), L::P(x, y)) | (Node::Conj(a, b), L::P(x, y)) => and(a.inv(x), b.inv(y)),
            (Node::Quot { .. }, L::P(..)) | (Node::Quot { .. }, L::Univ) => F::T,
            (Node::Quot { clock, .. }, L::Err) => F::C(*clock, Op::Eq, 0),
            _ => unreachable!(),
        }
    }

    pub fn is_univ(&self, l: &L) -> bool {
        match (&self.node, l) {
            (Node::Leaf { comp, .. }, L::S(i)) => comp.locs[*i].kind == Kind::Universal,
            (_, L::Univ) => true,
            _ => false,
        }
    }
    pub fn is_err(&self, l: &L) -> bool {
        match (&self.node, l) {
            (Node::Leaf { comp, .. }, L::S(i)) => comp.locs[*i].kind == Kind::Inconsistent,
            (_, L::Err) => true,
            _ => false,
        }
    }

    /// Transitions with their full enabling condition (guard and target invariant after the update);
    /// the source invariant is left to the state.
    pub fn trans(&self, l: &L, act: &str) -> Vec<Tr> {
        if !self.has(act) {
            return vec![];
        }
        match (&self.node, l) {
            (Node::Leaf { comp, off, inst }, L::S(i)) => {
                let input = self.inputs.contains(act);
                let stay = |g: F| Tr { guard: g, resets: vec![], dst: l.clone(), edges: vec![] };
                match comp.locs[*i].kind {
                    Kind::Universal => return vec![stay(F::T)],
                    Kind::Inconsistent if input => return vec![stay(F::T)],
                    _ => {}
                }
                let mut out = vec![];
                let mut any = F::N;
                for e in &comp.edges {
                    if e.src != *i || e.act != act {
                        continue;
                    }
                    let g = and(e.guard.clone(), comp.locs[e.dst].inv.after(&e.resets)).shift(*off);
                    any = or(any, g.clone());
                    out.push(Tr {
                        guard: g,
                        resets: e.resets.iter().map(|(x, v)| (x + off, *v)).collect(),
                        dst: L::S(e.dst),
                        edges: vec![(*inst, e.id.clone())],
                    });
                }
                if input {
                    // Missing inputs are ignored: a self-loop where no own edge is enabled.
                    out.push(stay(not(any)));
                }
                out
            }
            (Node::Par(a, b), L::P(x, y)) => {
                let ta = if a.has(act) { a.trans(x, act) } else { vec![idle(x)] };
                let tb = if b.has(act) { b.trans(y, act) } else { vec![idle(y)] };
                pairs(&ta, &tb)
            }
            (Node::Conj(a, b), L::P(x, y)) => pairs(&a.trans(x, act), &b.trans(y, act)),
            (Node::Quot { .. }, L::Univ) => vec![idle(l)],
            (Node::Quot { clock, .. }, L::Err) => {
                if self.inputs.contains(act) {
                    vec![Tr { guard: F::C(*clock, Op::Eq, 0), resets: vec![], dst: L::Err, edges: vec![] }]
                } else {
                    vec![]
                }
            }
            (Node::Quot { t, s, clock, newi }, L::P(lt, ls)) => {
                let mut out = vec![];
                let inv_t = t.inv(lt);
                let inv_s = s.inv(ls);
                let tt: Vec<Tr> = t.trans(lt, act);
                let ss: Vec<Tr> = s.trans(ls, act);
                let gt = tt.iter().fold(F::N, |f, x| or(f, and(x.guard.clone(), inv_t.clone())));
                let gs = ss.iter().fold(F::N, |f, x| or(f, and(x.guard.clone(), inv_s.clone())));
                let (in_t, in_s) = (t.has(act), s.has(act));
                let mk = |g: F, r: Vec<(usize, i32)>, d: L, e: Vec<(usize, String)>| Tr {
                    guard: g,
                    resets: r,
                    dst: d,
                    edges: e,
                };
                if in_t && in_s {
                    for a in &tt {
                        for b in &ss {
                            let g = and(and(a.guard.clone(), inv_t.clone()), and(b.guard.clone(), inv_s.clone()));
                            let mut r = a.resets.clone();
                            r.extend(b.resets.iter().cloned());
                            let mut e = a.edges.clone();
                            e.extend(b.edges.iter().cloned());
                            out.push(mk(g, r, L::P(Rc::new(a.dst.clone()), Rc::new(b.dst.clone())), e));
                        }
                    }
                } else if in_s {
                    for b in &ss {
                        let g = and(b.guard.clone(), inv_s.clone());
                        out.push(mk(g, b.resets.clone(), L::P(lt.clone(), Rc::new(b.dst.clone())), b.edges.clone()));
                    }
                } else if in_t {
                    for a in &tt {
                        let g = and(and(a.guard.clone(), inv_t.clone()), inv_s.clone());
                        out.push(mk(g, a.resets.clone(), L::P(Rc::new(a.dst.clone()), ls.clone()), a.edges.clone()));
                    }
                }
                if s.outputs.contains(act) {
                    out.push(mk(or(not(inv_s.clone()), not(gs.clone())), vec![], L::Univ, vec![]));
                } else {
                    out.push(mk(not(inv_s.clone()), vec![], L::Univ, vec![]));
                }
                if s.outputs.contains(act) && t.outputs.contains(act) {
                    for b in &ss {
                        let g = and(and(b.guard.clone(), inv_s.clone()), not(gt.clone()));
                        out.push(mk(g, vec![(*clock, 0)], L::Err, b.edges.clone()));
                    }
                }
                if act == newi {
                    out.push(mk(and(not(inv_t.clone()), inv_s.clone()), vec![(*clock, 0)], L::Err, vec![]));
                }
                out
            }
            _ => unreachable!(),
        }
    }
}

fn idle(l: &L) -> Tr {
    Tr { guard: F::T, resets: vec![], dst: l.clone(), edges: vec![] }
}

fn pairs(a: &[Tr], b: &[Tr]) -> Vec<Tr> {
    let mut out = vec![];
    for x in a {
        for y in b {
            let mut r = x.resets.clone();
            r.extend(y.resets.iter().cloned());
            let mut e = x.edges.clone();
            e.extend(y.edges.iter().cloned());
            out.push(Tr {
                guard: and(x.guard.clone(), y.guard.clone()),
                resets: r,
                dst: L::P(Rc::new(x.dst.clone()), Rc::new(y.dst.clone())),
                edges: e,
            });
        }
    }
    out
}

/// Memoised transition tables plus the state-space counters reported as evidence.
pub struct Sem<'a> {
    pub ts: &'a Ts,
    pub b: Bound,
    pub n: usize,
    pub acts: Vec<String>,
    memo: HashMap<L, Rc<LocInfo>>,
}

pub struct LocInfo {
    pub inv: F,
    /// per action (index into acts)
    pub tr: Vec<Vec<Tr>>,
}

pub type St = (L, Reg);

impl<'a> Sem<'a> {
    pub fn new(ts: &'a Ts, n: usize, b: Bound) -> Sem<'a> {
        Sem { ts, b, n, acts: ts.actions().into_iter().collect(), memo: HashMap::new() }
    }
    pub fn info(&mut self, l: &L) -> Rc<LocInfo> {
        if let Some(i) = self.memo.get(l) {
            return i.clone();
        }
        let i = Rc::new(LocInfo {
            inv: self.ts.inv(l),
            tr: self.acts.iter().map(|a| self.ts.trans(l, a)).collect(),
        });
        self.memo.insert(l.clone(), i.clone());
        i
    }
    pub fn init(&mut self) -> Option<St> {
        let l = self.ts.init()?;
        let r = Reg::zero(self.n).canon(self.b);
        if r.eval(&self.info(&l).inv) {
            Some((l, r))
        } else {
            None
        }
    }
    /// The next region by delay, if the invariant allows it. Some(None) cannot happen.
    pub fn delay(&mut self, s: &St) -> Delay {
        match s.1.succ(self.b) {
            None => Delay::Forever,
            Some(r) => {
                if r.eval(&self.info(&s.0).inv) {
                    Delay::To(r)
                } else {
                    Delay::Blocked
                }
            }
        }
    }
    pub fn enabled(&mut self, s: &St, ai: usize) -> Vec<(Tr, St)> {
        let info = self.info(&s.0);
        info.tr[ai]
            .iter()
            .filter(|t| s.1.eval(&t.guard))
            .map(|t| (t.clone(), (t.dst.clone(), s.1.assign(&t.resets, self.b))))
            .collect()
    }
    /// All reachable states, breadth first; returns them with the number of transitions.
    pub fn reachable(&mut self, starts: Vec<St>) -> (Vec<St>, u64) {
        let mut seen: HashSet<St> = starts.iter().cloned().collect();
        let mut q: VecDeque<St> = starts.into();
        let mut out = vec![];
        let mut tr = 0;
        while let Some(s) = q.pop_front() {
            if let Delay::To(r) = self.delay(&s) {
                tr += 1;
                let t = (s.0.clone(), r);
                if seen.insert(t.clone()) {
                    q.push_back(t);
                }
            }
            for ai in 0..self.acts.len() {
                for (_, t) in self.enabled(&s, ai) {
                    tr += 1;
                    if seen.insert(t.clone()) {
                        q.push_back(t);
                    }
                }
            }
            out.push(s);
        }
        (out, tr)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Delay {
    Forever,
    To(Reg),
    Blocked,
}

#[derive(Clone, Debug, Default)]
pub struct Cnt {
    pub states: u64,
    pub trans: u64,
}

/// Refinement S <= T on the joint region graph. S has clocks [0,ns), T is built with its clocks after
/// them. Returns Ok or the reason it fails.
pub fn refines(s: &Ts, t: &Ts, n: usize, cnt: &mut Cnt) -> Result<(), String> {
    let b = Bound { m: s.max_const().max(t.max_const()), diag: s.has_diag() || t.has_diag() };
    let mut ss = Sem::new(s, n, b);
    let mut tt = Sem::new(t, n, b);
    let (ls, lt) = match (s.init(), t.init()) {
        (Some(a), Some(b)) => (a, b),
        _ => return Err("no initial location".into()),
    };
    let z = Reg::zero(n).canon(b);
    if !z.eval(&ss.info(&ls).inv) || !z.eval(&tt.info(&lt).inv) {
        return Err("no initial state".into());
    }
    let mut seen: HashSet<(L, L, Reg)> = HashSet::new();
    let mut q = VecDeque::new();
    seen.insert((ls.clone(), lt.clone(), z));
    q.push_back((ls, lt, z));
    let mut verdict = Ok(());
    let outs: Vec<String> = s.outputs.iter().cloned().collect();
    let ins: Vec<String> = t.inputs.iter().cloned().collect();
    'bfs: while let Some((a, bb, r)) = q.pop_front() {
        cnt.states += 1;
        let ia = ss.info(&a);
        let ib = tt.info(&bb);
        if let Some(r2) = r.succ(b) {
            if r2.eval(&ia.inv) {
                cnt.trans += 1;
                if !r2.eval(&ib.inv) {
                    verdict = Err("delay".to_string());
                    break 'bfs;
                }
                if seen.insert((a.clone(), bb.clone(), r2)) {
                    q.push_back((a.clone(), bb.clone(), r2));
                }
            }
        }
        let en = |sem: &mut Sem, l: &L, act: &str| -> Vec<Tr> {
            if !sem.ts.has(act) {
                return vec![idle(l)];
            }
            let info = sem.info(l);
            let ai = sem.acts.iter().position(|x| x == act).unwrap();
            info.tr[ai].iter().filter(|t| r.eval(&t.guard)).cloned().collect()
        };
        for (lead_left, acts) in [(true, &outs), (false, &ins)] {
            for act in acts {
                let ea = en(&mut ss, &a, act);
                let eb = en(&mut tt, &bb, act);
                let (lead, follow) = if lead_left { (&ea, &eb) } else { (&eb, &ea) };
                if lead.is_empty() {
                    continue;
                }
                if follow.is_empty() {
                    verdict = Err(format!("{} {}", if lead_left { "output" } else { "input" }, act));
                    break 'bfs;
                }
                for x in &ea {
                    for y in &eb {
                        cnt.trans += 1;
                        let r2 = r.assign(&x.resets, b).assign(&y.resets, b);
                        let k = (x.dst.clone(), y.dst.clone(), r2);
                        if seen.insert(k.clone()) {
                            q.push_back(k);
                        }
                    }
                }
            }
        }
    }
    verdict
}

/// Refinement of two expressions (clocks allocated jointly).
pub fn refines_expr(s: &Expr, t: &Expr, cnt: &mut Cnt) -> Option<Result<(), String>> {
    let mut al = Alloc::default();
    let a = Ts::build(s, &mut al)?;
    let b = Ts::build(t, &mut al)?;
    Some(refines(&a, &b, al.clocks, cnt))
}

/// How a refinement fails in a state.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fault {
    /// one side has the action, the other has to follow and has not
    Unmatched(String),
    /// after the action (none: to begin with) the left side can delay where the right side cannot
    Cut(Option<String>),
}

/// Visits the states of the joint behaviour of S and T (both take part in every step) with what is wrong
/// there, breadth first, until `enough` says that is enough.
pub fn faults(s: &Ts, t: &Ts, n: usize, m: i32, cnt: &mut Cnt, mut enough: impl FnMut(&L, &L, &Reg, &BTreeSet<Fault>) -> bool) {
    let b = Bound { m, diag: true };
    let mut ss = Sem::new(s, n, b);
    let mut tt = Sem::new(t, n, b);
    let (Some(ls), Some(lt)) = (s.init(), t.init()) else { return };
    let z = Reg::zero(n).canon(b);
    if !z.eval(&ss.info(&ls).inv) || !z.eval(&tt.info(&lt).inv) {
        return;
    }
    // whether, from a state, S can delay to where T cannot be
    let cut = |is: &F, it: &F, r: Reg| {
        let (mut r, mut met) = (r, HashSet::new());
        while met.insert(r) {
            match r.succ(b) {
                Some(x) if x.eval(is) => r = x,
                _ => return false,
            }
            if !r.eval(it) {
                return true;
            }
        }
        false
    };
    let mut seen: HashSet<(L, L, Reg)> = HashSet::new();
    let mut q = VecDeque::new();
    let first_cut = cut(&ss.info(&ls).inv, &tt.info(&lt).inv, z);
    // states that only delays led to from the beginning
    seen.insert((ls.clone(), lt.clone(), z));
    q.push_back((ls.clone(), lt.clone(), z));
    let mut waited: HashSet<Reg> = HashSet::from([z]);
    let mut r = z;
    while let Some(x) = r.succ(b) {
        if !x.eval(&ss.info(&ls).inv) || !x.eval(&tt.info(&lt).inv) || !waited.insert(x) {
            break;
        }
        r = x;
    }
    while let Some((l, k, r)) = q.pop_front() {
        cnt.states += 1;
        let (ia, ib) = (ss.info(&l), tt.info(&k));
        let mut wrong = BTreeSet::new();
        if first_cut && l == ls && k == lt && waited.contains(&r) {
            wrong.insert(Fault::Cut(None));
        }
        if let Some(x) = r.succ(b) {
            if x.eval(&ia.inv) && x.eval(&ib.inv) && seen.insert((l.clone(), k.clone(), x)) {
                q.push_back((l.clone(), k.clone(), x));
            }
        }
        let en = |sem: &mut Sem, l: &L, act: &str| -> Vec<Tr> {
            if !sem.ts.has(act) {
                return vec![idle(l)];
            }
            let info = sem.info(l);
            let ai = sem.acts.iter().position(|x| x == act).unwrap();
            info.tr[ai].iter().filter(|t| r.eval(&t.guard)).cloned().collect()
        };
        for (left, acts) in [(true, &s.outputs), (false, &t.inputs)] {
            for act in acts {
                let (ea, eb) = (en(&mut ss, &l, act), en(&mut tt, &k, act));
                if !(if left { &ea } else { &eb }).is_empty() && (if left { &eb } else { &ea }).is_empty() {
                    wrong.insert(Fault::Unmatched(act.clone()));
                }
                for x in &ea {
                    for y in &eb {
                        cnt.trans += 1;
                        let r2 = r.assign(&x.resets, b).assign(&y.resets, b);
                        if cut(&ss.info(&x.dst).inv, &tt.info(&y.dst).inv, r2) {
                            wrong.insert(Fault::Cut(Some(act.clone())));
                        }
                        let to = (x.dst.clone(), y.dst.clone(), r2);
                        if seen.insert(to.clone()) {
                            q.push_back(to);
                        }
                    }
                }
            }
        }
        if enough(&l, &k, &r, &wrong) {
            return;
        }
    }
}

/// Facts about a single system that several properties need.
#[derive(Clone, Debug, Default)]
pub struct Facts {
    pub has_init: bool,
    /// a reachable state enables two transitions of one action
    pub reach_overlap: BTreeSet<String>,
    /// some location has two transitions of one action enabled at a valuation in its invariant
    pub any_overlap: BTreeSet<String>,
    /// reachable state that is stuck: cannot delay forever and no output ever enabled, or inconsistent
    pub reach_stuck: bool,
    pub states: u64,
    pub trans: u64,
}

pub fn facts(ts: &Ts, n: usize) -> Facts {
    let b = Bound { m: ts.max_const(), diag: ts.has_diag() };
    let mut sem = Sem::new(ts, n, b);
    let mut f = Facts::default();
    let Some(init) = sem.init() else { return f };
    f.has_init = true;
    let (states, trans) = sem.reachable(vec![init]);
    f.states = states.len() as u64;
    f.trans = trans;
    for s in &states {
        for ai in 0..sem.acts.len() {
            if sem.enabled(s, ai).len() > 1 {
                f.reach_overlap.insert(sem.acts[ai].clone());
            }
        }
        if ts.is_err(&s.0) {
            f.reach_stuck = true;
        }
        if !f.reach_stuck && stuck(&mut sem, s) {
            f.reach_stuck = true;
        }
    }
    f.any_overlap = leaf_overlaps(ts);
    f
}

/// Actions for which some location of some leaf component, reachable or not, has two transitions enabled
/// at one valuation of its invariant.
pub fn leaf_overlaps(ts: &Ts) -> BTreeSet<String> {
    overlap_places(ts).into_iter().map(|p| p.2).collect()
}

/// The same with the component's name and the location.
pub fn overlap_places(ts: &Ts) -> BTreeSet<(String, usize, String)> {
    match &ts.node {
        Node::Par(a, b) | Node::Conj(a, b) => overlap_places(a).union(&overlap_places(b)).cloned().collect(),
        Node::Quot { t, s, .. } => overlap_places(t).union(&overlap_places(s)).cloned().collect(),
        Node::Leaf { comp, .. } => {
            let mut out = BTreeSet::new();
            let (own, n) = Ts::of(&Expr::C(comp.clone())).unwrap();
            // every valuation of the diagonal classes, where there are any
            let regs: Vec<Reg> = if own.has_diag() { diag_regions(n, own.max_const()) } else { all_regions(n, own.max_const()) };
            for l in 0..comp.locs.len() {
                let inv = own.inv(&L::S(l));
                for a in own.actions() {
                    let tr = own.trans(&L::S(l), &a);
                    if tr.len() > 1
                        && regs.iter().any(|r| r.eval(&inv) && tr.iter().filter(|t| r.eval(&t.guard)).count() > 1)
                    {
                        out.insert((comp.name.clone(), l, a));
                    }
                }
            }
            out
        }
    }
}

fn diag_regions(n: usize, m: i32) -> Vec<Reg> {
    let b = Bound { m, diag: true };
    let top = (2 * b.m + 2) as u8 * n as u8;
    let mut regs = HashSet::new();
    let per: Vec<(u8, u8)> = (0..=top).flat_map(|i| (0..=n as u8).map(move |f| (i, f))).collect();
    for k in 0..(per.len() as u64).pow(n as u32) {
        let mut d = Dig(k);
        let mut r = Reg::zero(n);
        for i in 0..n {
            let (ip, fr) = *d.of(&per);
            r.ip[i] = ip;
            r.fr[i] = fr;
        }
        regs.insert(r.canon(b));
    }
    regs.into_iter().collect()
}

/// No output is enabled now or after any delay, and time cannot diverge.
pub fn stuck(sem: &mut Sem, s: &St) -> bool {
    let outs: Vec<usize> = (0..sem.acts.len()).filter(|&i| sem.ts.outputs.contains(&sem.acts[i])).collect();
    let mut cur = s.clone();
    let mut seen = HashSet::new();
    loop {
        if !seen.insert(cur.1) {
            return false; // diagonal mode: delays cycle, time diverges
        }
        for &o in &outs {
            if !sem.enabled(&cur, o).is_empty() {
                return false;
            }
        }
        match sem.delay(&cur) {
            Delay::Forever => return false,
            Delay::Blocked => return true,
            Delay::To(r) => cur.1 = r,
        }
    }
}

/// Good operand for refinement: deterministic everywhere and no reachable stuck state, so the
/// implementation must accept it whatever order it explores in.
pub fn good(c: &Expr) -> Option<Facts> {
    let (ts, n) = Ts::of(c)?;
    let f = facts(&ts, n);
    if f.has_init && f.any_overlap.is_empty() && !f.reach_stuck {
        Some(f)
    } else {
        None
    }
}

/// Whether the system has an implementation, when that can be read off the locations: every transition
/// that moves resets all clocks, so each location has one entry state. None outside this class.
pub fn consistent_exact(ts: &Ts, n: usize) -> Option<bool> {
    let b = Bound { m: ts.max_const(), diag: ts.has_diag() };
    let zero = Reg::zero(n).canon(b);
    let mut sem = Sem::new(ts, n, b);
    let Some(init) = sem.init() else { return Some(false) };
    // locations reachable through any choice
    let mut locs = vec![init.0.clone()];
    // per location: inputs' targets, outputs' targets, time diverges
    let mut rows: Vec<(Vec<usize>, Vec<usize>, bool, bool)> = vec![];
    let mut i = 0;
    while i < locs.len() {
        let l = locs[i].clone();
        let mut cur: St = (l.clone(), zero);
        let (mut ins, mut outs, mut free) = (vec![], vec![], false);
        let mut seen = HashSet::new();
        loop {
            if !seen.insert(cur.1) {
                free = true;
                break;
            }
            for ai in 0..sem.acts.len() {
                let input = ts.inputs.contains(&sem.acts[ai]);
                for (t, d) in sem.enabled(&cur, ai) {
                    if t.dst == l && t.resets.is_empty() {
                        if !input {
                            return None;
                        }
                        continue;
                    }
                    if d.1 != zero {
                        return None;
                    }
                    let j = locs.iter().position(|x| *x == t.dst).unwrap_or_else(|| {
                        locs.push(t.dst.clone());
                        locs.len() - 1
                    });
                    if input {
                        ins.push(j)
                    } else {
                        outs.push(j)
                    }
                }
            }
            match sem.delay(&cur) {
                Delay::Forever => {
                    free = true;
                    break;
                }
                Delay::Blocked => break,
                Delay::To(r) => cur.1 = r,
            }
        }
        rows.push((ins, outs, free, ts.is_err(&l)));
        i += 1;
    }
    let mut good = vec![true; rows.len()];
    loop {
        let mut changed = false;
        for (i, (ins, outs, free, err)) in rows.iter().enumerate() {
            if good[i] && (*err || !ins.iter().all(|j| good[*j]) || !(*free || outs.iter().any(|j| good[*j]))) {
                good[i] = false;
                changed = true;
            }
        }
        if !changed {
            return Some(good[0]);
        }
    }
}
