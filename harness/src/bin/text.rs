//! G01, G02: the texts of guards, invariants and updates.
use edbm::util::constraints::{Disjunction, Inequality};
use edbm::zones::OwnedFederation;
use mc::driver::*;
use mc::model::Dig;
use mc::report::*;
use reveaal::DataReader::parse_edge::{parse_guard, parse_updates, Update};
use reveaal::EdgeEval::constraint_applyer::apply_constraints_to_state;
use reveaal::EdgeEval::updater::CompiledUpdate;
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use reveaal::ModelObjects::{Component, Declarations};
use serde_json::json;
use std::collections::HashMap;

// ---------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    V(usize),
    N(i64),
    Op(char),
    Cmp(&'static str),
    And,
    Or,
    Open,
    Close,
    True,
    False,
}

fn show(ts: &[Tok], gap: &str) -> String {
    let mut s = String::new();
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            s += gap;
        }
        s += &match t {
            Tok::V(i) => ["x", "y", "z"][*i].to_string(),
            Tok::N(n) => n.to_string(),
            Tok::Op(c) => c.to_string(),
            Tok::Cmp(c) => c.to_string(),
            Tok::And => "&&".into(),
            Tok::Or => "||".into(),
            Tok::Open => "(".into(),
            Tok::Close => ")".into(),
            Tok::True => "true".into(),
            Tok::False => "false".into(),
        };
    }
    s
}

/// a*x + b*y + k, or no integer linear form (a clock multiplied, divided, or a division by zero)
type Lin = Option<([i64; 2], i64)>;

#[derive(Clone, Debug)]
enum R {
    And(Box<R>, Box<R>),
    Or(Box<R>, Box<R>),
    Cmp(Lin, &'static str, Lin),
    Bool(bool),
}

struct P<'a>(&'a [Tok], usize);
impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.0.get(self.1)
    }
    fn eat(&mut self, t: &Tok) -> bool {
        if self.peek() == Some(t) {
            self.1 += 1;
            true
        } else {
            false
        }
    }
    fn or(&mut self) -> Option<R> {
        let mut l = self.and()?;
        while self.eat(&Tok::Or) {
            l = R::Or(Box::new(l), Box::new(self.and()?));
        }
        Some(l)
    }
    fn and(&mut self) -> Option<R> {
        let mut l = self.term()?;
        while self.eat(&Tok::And) {
            l = R::And(Box::new(l), Box::new(self.term()?));
        }
        Some(l)
    }
    fn term(&mut self) -> Option<R> {
        let at = self.1;
        if let Some(l) = self.sum() {
            if let Some(Tok::Cmp(c)) = self.peek().cloned() {
                self.1 += 1;
                let r = self.sum()?;
                return Some(R::Cmp(l, c, r));
            }
        }
        self.1 = at;
        if self.eat(&Tok::True) {
            return Some(R::Bool(true));
        }
        if self.eat(&Tok::False) {
            return Some(R::Bool(false));
        }
        if self.eat(&Tok::Open) {
            let r = self.or()?;
            return if self.eat(&Tok::Close) { Some(r) } else { None };
        }
        None
    }
    fn sum(&mut self) -> Option<Lin> {
        let mut l = self.prod()?;
        while let Some(Tok::Op(c @ ('+' | '-'))) = self.peek().cloned() {
            self.1 += 1;
            l = lin(c, l, self.prod()?);
        }
        Some(l)
    }
    fn prod(&mut self) -> Option<Lin> {
        let mut l = self.atom()?;
        while let Some(Tok::Op(c @ ('*' | '/' | '%'))) = self.peek().cloned() {
            self.1 += 1;
            l = lin(c, l, self.atom()?);
        }
        Some(l)
    }
    fn atom(&mut self) -> Option<Lin> {
        match self.peek().cloned()? {
            Tok::V(i) if i < 2 => {
                self.1 += 1;
                let mut c = [0; 2];
                c[i] = 1;
                Some(Some((c, 0)))
            }
            Tok::N(n) => {
                self.1 += 1;
                Some(Some(([0; 2], n)))
            }
            // a name without meaning here
            Tok::True | Tok::False => {
                self.1 += 1;
                Some(None)
            }
            Tok::Open => {
                self.1 += 1;
                let r = self.sum()?;
                if self.eat(&Tok::Close) {
                    Some(r)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}

fn lin(op: char, l: Lin, r: Lin) -> Lin {
    let ((a, k), (b, m)) = (l?, r?);
    let (ca, cb) = (a == [0; 2], b == [0; 2]);
    match op {
        '+' => Some(([a[0] + b[0], a[1] + b[1]], k + m)),
        '-' => Some(([a[0] - b[0], a[1] - b[1]], k - m)),
        '*' if ca => Some(([b[0] * k, b[1] * k], k * m)),
        '*' if cb => Some(([a[0] * m, a[1] * m], k * m)),
        '/' if ca && cb && m != 0 => Some(([0; 2], k / m)),
        '%' if ca && cb && m != 0 => Some(([0; 2], k % m)),
        _ => None,
    }
}

fn parse_ref(ts: &[Tok]) -> Option<R> {
    if ts.is_empty() {
        return Some(R::Bool(true));
    }
    let mut p = P(ts, 0);
    let r = p.or()?;
    (p.1 == ts.len()).then_some(r)
}

impl R {
    /// None: mentions something that has no integer linear meaning
    fn holds(&self, v: [i64; 2]) -> Option<bool> {
        Some(match self {
            R::And(l, r) => {
                // what cannot hold needs no meaning beside it
                let (l, r) = (l.holds(v), r.holds(v));
                if l == Some(false) || r == Some(false) {
                    return Some(false);
                }
                l? && r?
            }
            R::Or(l, r) => {
                let (l, r) = (l.holds(v)?, r.holds(v)?);
                l || r
            }
            R::Bool(b) => *b,
            R::Cmp(l, c, r) => {
                let ((a, k), (b, m)) = ((*l)?, (*r)?);
                let (l, r) = (a[0] * v[0] + a[1] * v[1] + k * SCALE, b[0] * v[0] + b[1] * v[1] + m * SCALE);
                match *c {
                    "<" => l < r,
                    "<=" => l <= r,
                    "==" => l == r,
                    ">=" => l >= r,
                    _ => l > r,
                }
            }
        })
    }
    /// Comparisons the loader is bound to accept: one clock, or a difference of two, against a constant
    fn simple(&self) -> bool {
        match self {
            R::And(l, r) | R::Or(l, r) => l.simple() && r.simple(),
            R::Bool(_) => true,
            R::Cmp(Some((a, _)), _, Some((b, _))) => {
                let mut d = [a[0] - b[0], a[1] - b[1]];
                d.sort();
                d == [0, 1] || d == [-1, 0] || d == [-1, 1]
            }
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- zones as sets of points

const SCALE: i64 = 3;

fn grid(top: i64) -> Vec<[i64; 2]> {
    let mut g = vec![];
    for a in 0..=top * SCALE {
        for b in 0..=top * SCALE {
            g.push([a, b]);
        }
    }
    g
}

fn inside(d: &Disjunction, v: &[i64; 2]) -> bool {
    let at = |i: usize| if i == 0 { 0 } else { v[i - 1] };
    d.conjunctions.iter().any(|c| {
        c.constraints.iter().all(|c| {
            let d = at(c.i) - at(c.j);
            match c.ineq() {
                Inequality::LS(b) => d < b as i64 * SCALE,
                Inequality::LE(b) => d <= b as i64 * SCALE,
            }
        })
    })
}

fn decls() -> Declarations {
    Declarations { ints: HashMap::new(), clocks: [("x".to_string(), 1), ("y".to_string(), 2)].into() }
}

/// What the code makes of a guard; None: refused.
fn denotes(b: &B) -> Option<Disjunction> {
    match guarded(|| apply_constraints_to_state(b, &decls(), OwnedFederation::universe(3))) {
        Ok(Ok(f)) => Some(f.minimal_constraints()),
        _ => None,
    }
}

fn read(text: &str) -> Option<B> {
    match guarded(|| parse_guard(text)) {
        Ok(Ok(b)) => Some(b),
        _ => None,
    }
}

fn differs(d: &Disjunction, r: &R, g: &[[i64; 2]]) -> Option<[i64; 2]> {
    g.iter().find(|v| r.holds(**v) != Some(inside(d, v))).copied()
}

fn place(v: [i64; 2]) -> String {
    format!("x={}/{SCALE} y={}/{SCALE}", v[0], v[1])
}

/// One guard text against the reference.
fn guard(run: &Run, space: &str, ts: &[Tok], text: &str, g: &[[i64; 2]]) {
    let want = parse_ref(ts);
    let got = read(text);
    let bad = |what: String| run.violation(&format!("{space} | {text}"), &what, json!({"kind": "text", "guard": text}));
    let (r, b) = match (want, got) {
        (None, None) => return run.trace("malformed, refused"),
        (None, Some(b)) => return bad(format!("not a guard, but read as {b:?}")),
        (Some(_), None) => return bad("a guard, but refused".into()),
        (Some(r), Some(b)) => (r, b),
    };
    // as loaded with a component
    let comp = json!({"name": "A", "declarations": "clock x, y;", "locations": [{"id": "L0", "nickname": "", "invariant": text, "type": "INITIAL", "urgency": "NORMAL"}],
        "edges": [{"id": "E0", "sourceLocation": "L0", "targetLocation": "L0", "status": "OUTPUT", "guard": text, "update": "", "sync": "a"}]});
    if ts.len() <= 4 {
        match guarded(|| serde_json::from_value::<Component>(comp)) {
            Ok(Ok(c)) => {
                let guard = c.edges[0].guard.clone().unwrap_or(B::Bool(true));
                let inv = c.locations[0].invariant.clone().unwrap_or(B::Bool(true));
                if guard != b || inv != b {
                    return bad(format!("read differently as part of a component: {guard:?}, {inv:?}"));
                }
            }
            e => return bad(format!("not loaded as part of a component: {:?}", e.map(|x| x.map(|_| ())))),
        }
    }
    run.states(g.len() as u64);
    match denotes(&b) {
        None if r.simple() && plain(ts) => bad("refused when applied".into()),
        None => run.trace("refused when applied"),
        Some(d) => match differs(&d, &r, g) {
            Some(v) => bad(format!("at {} the text {} but the zone {}", place(v), match r.holds(v) {
                Some(true) => "holds",
                Some(false) => "does not hold",
                None => "has no meaning",
            }, if inside(&d, &v) { "contains it" } else { "does not" })),
            None => run.trace("same meaning"),
        },
    }
}

/// No multiplication or division, at most two mentions of clocks per comparison
fn plain(ts: &[Tok]) -> bool {
    let n = |f: &dyn Fn(&Tok) -> bool| ts.iter().filter(|t| f(t)).count();
    n(&|t| matches!(t, Tok::Op('*' | '/' | '%'))) == 0 && n(&|t| matches!(t, Tok::V(_))) <= 2 * n(&|t| matches!(t, Tok::Cmp(_)))
}

// ---------------------------------------------------------------- G01

const OPS: [char; 5] = ['+', '-', '*', '/', '%'];
const CMPS: [&str; 5] = ["<", "<=", "==", ">=", ">"];

fn atoms() -> Vec<Tok> {
    vec![Tok::V(0), Tok::V(1), Tok::N(0), Tok::N(1), Tok::N(2), Tok::N(3)]
}

/// An arithmetic text with n atoms; form 0 flat, 1 grouped left, 2 grouped right
fn arith(d: &mut Dig, n: usize, form: usize) -> Vec<Tok> {
    let a = atoms();
    let mut parts = vec![d.of(&a).clone()];
    for _ in 1..n {
        parts.push(Tok::Op(*d.of(&OPS)));
        parts.push(d.of(&a).clone());
    }
    if n < 3 || form == 0 {
        return parts;
    }
    let mut out = vec![];
    if form == 1 {
        out.push(Tok::Open);
        out.extend_from_slice(&parts[..parts.len() - 2]);
        out.push(Tok::Close);
        out.extend_from_slice(&parts[parts.len() - 2..]);
    } else {
        out.extend_from_slice(&parts[..2]);
        out.push(Tok::Open);
        out.extend_from_slice(&parts[2..]);
        out.push(Tok::Close);
    }
    out
}

fn count(n: usize) -> u64 {
    6u64.pow(n as u32) * 5u64.pow(n as u32 - 1)
}

fn simple_guards() -> Vec<Vec<Tok>> {
    let (x, y) = (Tok::V(0), Tok::V(1));
    vec![
        vec![x.clone(), Tok::Cmp("<"), Tok::N(1)],
        vec![y.clone(), Tok::Cmp(">="), Tok::N(1)],
        vec![x.clone(), Tok::Op('-'), y.clone(), Tok::Cmp("<="), Tok::N(0)],
        vec![Tok::N(2), Tok::Cmp("=="), y],
        vec![Tok::True],
        vec![Tok::False],
    ]
}

/// Chains and groupings of n simple guards
fn boolean(d: &mut Dig, n: usize, form: usize) -> Vec<Tok> {
    let s = simple_guards();
    let mut parts: Vec<Vec<Tok>> = (0..n).map(|_| d.of(&s).clone()).collect();
    let ops: Vec<Tok> = (1..n).map(|_| if d.pick(2) == 0 { Tok::And } else { Tok::Or }).collect();
    // a group covers atoms lo..=hi
    let groups: [&[(usize, usize)]; 8] = [&[], &[(0, 1)], &[(1, 2)], &[(2, 3)], &[(0, 2)], &[(1, 3)], &[(0, 1), (2, 3)], &[(0, 3), (1, 2)]];
    for (lo, hi) in groups[form] {
        if *hi < n {
            parts[*lo].insert(0, Tok::Open);
            parts[*hi].push(Tok::Close);
        } else {
            parts[0].insert(0, Tok::Open);
            parts[n - 1].push(Tok::Close);
        }
    }
    let mut out = parts[0].clone();
    for (p, o) in parts[1..].iter().zip(ops) {
        out.push(o);
        out.extend(p.clone());
    }
    out
}

fn g01(run: &Run) {
    let quick = run.quick();
    let g = grid(5);
    // arithmetic on both sides of a comparison
    let shapes: &[(usize, usize, usize)] = &[(1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 2, 0), (3, 1, 0), (1, 3, 0), (3, 1, 1), (3, 1, 2), (1, 3, 1), (1, 3, 2)];
    for (l, r, form) in shapes {
        let n = count(*l) * count(*r) * 5;
        let big = n > 100_000;
        let name = format!("arithmetic-{l}-{r}-{form}");
        run.space(&name, n, "comparisons over two clocks and constants 0..3 with all arithmetic operators; form 0 flat, 1 grouped left, 2 grouped right");
        run.for_all(n, |k| {
            let mut d = Dig(k);
            let c = d.pick(5);
            let mut ts = arith(&mut d, *l, *form);
            ts.push(Tok::Cmp(CMPS[c]));
            ts.extend(arith(&mut d, *r, *form));
            // in the quick check the larger shapes are compared under one comparison per case, by turns
            if quick && big && (k / 5) % 5 != k % 5 {
                return;
            }
            guard(run, &name, &ts, &show(&ts, if k % 2 == 0 { "" } else { " " }), &g);
        });
    }
    if !quick {
        for form in 0..3 {
            let n = count(4) * 6 * 5;
            let name = format!("arithmetic-4-1-{form}");
            run.space(&name, n, "as before");
            run.for_all(n, |k| {
                let mut d = Dig(k);
                let c = d.pick(5);
                let mut ts = arith(&mut d, 4, form);
                ts.push(Tok::Cmp(CMPS[c]));
                ts.extend(arith(&mut d, 1, 0));
                guard(run, &name, &ts, &show(&ts, ""), &g);
            });
        }
    }
    // boolean structure
    for n in 1..=4usize {
        let forms = if n == 1 { 2 } else { 8 };
        let cases = 6u64.pow(n as u32) * 2u64.pow(n as u32 - 1) * forms;
        run.space(&format!("boolean-{n}"), cases, "chains of && and || over simple guards, with all groupings");
        run.for_all(cases, |k| {
            let mut d = Dig(k);
            let form = d.pick(forms as usize);
            let ts = boolean(&mut d, n, form);
            guard(run, "boolean", &ts, &show(&ts, ["", " ", "\n", " \t"][k as usize % 4]), &g);
        });
    }
    // all token sequences
    let alphabet = [Tok::V(0), Tok::N(1), Tok::Cmp("<"), Tok::Op('-'), Tok::And, Tok::Or, Tok::Open, Tok::Close, Tok::True];
    let depth = if quick { 6 } else { 7 };
    for n in 0..=depth {
        let cases = 9u64.pow(n);
        run.space(&format!("sequences-{n}"), cases, "all sequences of nine tokens: accepted exactly if a guard");
        run.for_all(cases, |k| {
            let mut d = Dig(k);
            let ts: Vec<Tok> = (0..n).map(|_| d.of(&alphabet).clone()).collect();
            guard(run, "sequences", &ts, &show(&ts, " "), &g);
        });
    }
    updates(run);
}

fn updates(run: &Run) {
    use reveaal::ModelObjects::Transition;
    use reveaal::TransitionSystems::{LocationTree, TransitionID};
    let g = grid(4);
    // value texts and their values
    let vals: [(&str, i64); 8] = [("0", 0), ("1", 1), ("2", 2), ("1+1", 2), ("3-1", 2), ("2*(1+0)", 2), ("4-2-1", 1), ("7%4/3", 1)];
    let zones = ["true", "x<1", "x<=1 && y>1", "x-y<1 && y<=2", "x==2 && y==1", "x>=1 && y<1", "(x<1) || (y>=2)", "x==0 && y==0", "x==1 && y==1"];
    let max = if run.quick() { 2 } else { 3 };
    for n in 0..=max {
        let each = 2 * 8u64;
        let cases = each.pow(n as u32) * 4 * zones.len() as u64;
        run.space(&format!("updates-{n}"), cases, "lists of assignments, their images and inverse images of nine zones");
        run.for_all(cases, |k| {
            let mut d = Dig(k);
            let style = d.pick(4);
            let zone = *d.of(&zones);
            let list: Vec<(usize, (&str, i64))> = (0..n).map(|_| (d.pick(2), *d.of(&vals))).collect();
            let mut text = list
                .iter()
                .map(|(c, (t, _))| format!("{}{}{}", ["x", "y"][*c], ["=", ":=", " = ", " :=\n"][style], t))
                .collect::<Vec<_>>()
                .join([",", ", ", " , ", ",\t"][style]);
            if style > 1 && n > 0 {
                text += ",";
            }
            let bad = |what: String| run.violation(&format!("updates | {text} | {zone}"), &what, json!({"kind": "text", "update": text, "zone": zone}));
            let us = match guarded(|| parse_updates(&text)) {
                Ok(Ok(us)) => us,
                e => return bad(format!("refused: {:?}", e.map(|x| x.map(|_| ())))),
            };
            let compiled = match guarded(|| us.iter().map(|u| u.compiled(&decls())).collect::<Vec<CompiledUpdate>>()) {
                Ok(c) => c,
                Err(e) => return bad(format!("not compiled: {e}")),
            };
            let decl = decls();
            let loc = LocationTree::universal();
            let tr = Transition { id: TransitionID::None, guard_zone: OwnedFederation::universe(3), target_locations: loc, updates: compiled };
            let fed = apply_constraints_to_state(&parse_guard(zone).unwrap(), &decl, OwnedFederation::universe(3)).unwrap();
            let before = fed.minimal_constraints();
            let after = tr.apply_updates(fed.clone()).minimal_constraints();
            let inverse = tr.inverse_apply_updates(fed).minimal_constraints();
            let step = |v: &[i64; 2]| {
                let mut v = *v;
                for (c, (_, val)) in &list {
                    v[*c] = val * SCALE;
                }
                v
            };
            run.states(g.len() as u64);
            let mut image = std::collections::HashSet::new();
            for v in &g {
                if inside(&before, v) {
                    image.insert(step(v));
                }
            }
            for v in &g {
                if inside(&after, v) != image.contains(v) {
                    return bad(format!("image wrong at {}", place(*v)));
                }
                if inside(&inverse, v) != inside(&before, &step(v)) {
                    return bad(format!("inverse image wrong at {}", place(*v)));
                }
            }
            run.trace("update image and inverse");
        });
    }
    let malformed = ["x", "x=", "=1", "x==1", "x=1,,y=0", ",x=1", "x=1 y=1", "x=1;", "1=x", "x=1&&y=1", "x=a=1", "(x=1)", "x=1)", "x=-1", "x=1.5", "x:1"];
    for m in malformed {
        if let Ok(Ok(u)) = guarded(|| parse_updates(m)) {
            run.violation(&format!("updates | {m}"), &format!("not an update, but read as {u:?}"), json!({"kind": "text", "update": m}));
        }
        run.trace("malformed update");
    }
    // values that are no constants are refused
    for m in ["x=y", "x=x+1", "x=y-y", "x=1+y"] {
        let r = guarded(|| parse_updates(m).map(|us: Vec<Update>| us.iter().map(|u| u.compiled(&decls()).value).collect::<Vec<_>>()));
        if let Ok(Ok(v)) = r {
            run.violation(&format!("updates | {m}"), &format!("no constant, but read as {v:?}"), json!({"kind": "text", "update": m}));
        }
        run.trace("no constant");
    }
}

// ---------------------------------------------------------------- G02


/// The value of an expression tree as a linear form.
fn eval_a(a: &A) -> Lin {
    let two = |c: char, l: &A, r: &A| lin(c, eval_a(l), eval_a(r));
    match a {
        A::Difference(l, r) => two('-', l, r),
        A::Addition(l, r) => two('+', l, r),
        A::Multiplication(l, r) => two('*', l, r),
        A::Division(l, r) => two('/', l, r),
        A::Modulo(l, r) => two('%', l, r),
        A::Clock(1) => Some(([1, 0], 0)),
        A::Clock(2) => Some(([0, 1], 0)),
        A::VarName(n) if n == "x" => Some(([1, 0], 0)),
        A::VarName(n) if n == "y" => Some(([0, 1], 0)),
        A::Int(i) => Some(([0, 0], *i as i64)),
        _ => None,
    }
}

fn eval_b(b: &B) -> R {
    let two = |c: &'static str, l: &A, r: &A| R::Cmp(eval_a(l), c, eval_a(r));
    match b {
        B::AndOp(l, r) => R::And(Box::new(eval_b(l)), Box::new(eval_b(r))),
        B::OrOp(l, r) => R::Or(Box::new(eval_b(l)), Box::new(eval_b(r))),
        B::LessT(l, r) => two("<", l, r),
        B::LessEQ(l, r) => two("<=", l, r),
        B::EQ(l, r) => two("==", l, r),
        B::GreatEQ(l, r) => two(">=", l, r),
        B::GreatT(l, r) => two(">", l, r),
        B::Bool(v) => R::Bool(*v),
    }
}

/// All binary trees with n leaves, as lists of splits in preorder
fn trees(n: usize) -> Vec<Vec<usize>> {
    if n == 1 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for l in 1..n {
        for a in trees(l) {
            for b in trees(n - l) {
                let mut t = vec![l];
                t.extend(a.clone());
                t.extend(b.clone());
                out.push(t);
            }
        }
    }
    out
}

fn build<T>(n: usize, shape: &mut std::slice::Iter<usize>, leaf: &mut dyn FnMut() -> T, node: &mut dyn FnMut(T, T) -> T) -> T {
    if n == 1 {
        return leaf();
    }
    let l = *shape.next().unwrap();
    let a = build(l, shape, leaf, node);
    let b = build(n - l, shape, leaf, node);
    node(a, b)
}

fn arith_tree(d: &mut Dig, n: usize, leaves: &[A]) -> A {
    let t = trees(n);
    let shape = d.of(&t).clone();
    let d = std::cell::RefCell::new(d);
    let mut leaf = || d.borrow_mut().of(leaves).clone();
    let mut node = |l, r| {
        let (l, r) = (Box::new(l), Box::new(r));
        match d.borrow_mut().pick(5) {
            0 => A::Difference(l, r),
            1 => A::Addition(l, r),
            2 => A::Multiplication(l, r),
            3 => A::Division(l, r),
            _ => A::Modulo(l, r),
        }
    };
    build(n, &mut shape.iter(), &mut leaf, &mut node)
}

fn bool_tree(d: &mut Dig, n: usize, leaves: &[B]) -> B {
    let t = trees(n);
    let shape = d.of(&t).clone();
    let d = std::cell::RefCell::new(d);
    let mut leaf = || d.borrow_mut().of(leaves).clone();
    let mut node = |l, r| if d.borrow_mut().pick(2) == 0 { B::AndOp(Box::new(l), Box::new(r)) } else { B::OrOp(Box::new(l), Box::new(r)) };
    build(n, &mut shape.iter(), &mut leaf, &mut node)
}

fn cmp(i: usize, l: A, r: A) -> B {
    let (l, r) = (Box::new(l), Box::new(r));
    match i % 5 {
        0 => B::LessT(l, r),
        1 => B::LessEQ(l, r),
        2 => B::EQ(l, r),
        3 => B::GreatEQ(l, r),
        _ => B::GreatT(l, r),
    }
}

fn v(n: &str) -> A {
    A::VarName(n.into())
}

/// The two trees accept the same valuations
fn alike(a: &R, b: &R, g: &[[i64; 2]]) -> Option<[i64; 2]> {
    g.iter().find(|v| a.holds(**v) != b.holds(**v)).copied()
}

fn g02(run: &Run) {
    let quick = run.quick();
    let g = grid(4);
    let bad = |k: String, what: String| run.violation(&k, &what, json!({"kind": "text", "expression": k}));
    // 1: arithmetic written out and read again
    let ints = [v("x"), v("y"), A::Int(0), A::Int(1), A::Int(2), A::Int(3), A::Int(-1), A::Int(-2)];
    let leaves: &[A] = if quick { &ints[..7] } else { &ints };
    for n in 1..=4 {
        let cases = trees(n).len() as u64 * (leaves.len() as u64).pow(n as u32) * 5u64.pow(n as u32 - 1);
        run.space(&format!("arithmetic-{n}"), cases, "all expression trees over two clocks, positive and negative constants and all operators, written out and read again");
        run.for_all(cases, |k| {
            let mut d = Dig(k);
            let a = arith_tree(&mut d, n, leaves);
            let b = cmp(k as usize, a.clone(), A::Int(1));
            let text = b.encode_expr();
            let key = format!("arithmetic | {a:?}");
            match read(&text) {
                None => bad(key, format!("written as {text}, which cannot be read")),
                Some(B::LessT(l, r) | B::LessEQ(l, r) | B::EQ(l, r) | B::GreatEQ(l, r) | B::GreatT(l, r)) => {
                    if eval_a(&l) != eval_a(&a) || eval_a(&r) != eval_a(&A::Int(1)) {
                        bad(key, format!("written as {text}, which is read as {l:?} and {r:?}"));
                    }
                    run.trace("arithmetic written and read");
                }
                Some(b) => bad(key, format!("written as {text}, which is read as {b:?}")),
            }
        });
    }
    // 2: boolean structure written out and read again; also with the same meaning as a zone and after renaming
    let x1 = B::LessT(Box::new(v("x")), Box::new(A::Int(1)));
    let leaves = [
        x1.clone(),
        B::GreatEQ(Box::new(v("y")), Box::new(A::Int(1))),
        B::LessEQ(Box::new(A::Difference(Box::new(v("x")), Box::new(v("y")))), Box::new(A::Int(-1))),
        B::EQ(Box::new(v("x")), Box::new(v("y"))),
        B::GreatT(Box::new(v("y")), Box::new(A::Addition(Box::new(v("x")), Box::new(A::Int(1))))),
        B::Bool(true),
        B::Bool(false),
    ];
    let leaves = if quick { &leaves[..] } else { &leaves[..] };
    for n in 1..=4 {
        let cases = trees(n).len() as u64 * 7u64.pow(n as u32) * 2u64.pow(n as u32 - 1);
        run.space(&format!("boolean-{n}"), cases, "all trees of && and || over seven guards: written and read, as a zone and back, renamed");
        run.for_all(cases, |k| {
            let mut d = Dig(k);
            let b = bool_tree(&mut d, n, leaves);
            let want = eval_b(&b);
            let key = format!("boolean | {b:?}");
            run.states(g.len() as u64);
            let text = b.encode_expr();
            match read(&text) {
                None => return bad(key, format!("written as {text}, which cannot be read")),
                Some(r) => {
                    if let Some(p) = alike(&want, &eval_b(&r), &g) {
                        return bad(key, format!("written as {text}, which differs at {}", place(p)));
                    }
                }
            }
            // as serialised with a component
            let comp = json!({"name": "A", "declarations": "clock x, y;", "locations": [{"id": "L0", "nickname": "", "invariant": text, "type": "INITIAL", "urgency": "NORMAL"}],
                "edges": [{"id": "E0", "sourceLocation": "L0", "targetLocation": "L0", "status": "OUTPUT", "guard": "", "update": "", "sync": "a"}]});
            if n <= 2 {
                if let Ok(Ok(mut c)) = guarded(|| serde_json::from_value::<Component>(comp)) {
                    c.edges[0].guard = Some(b.clone());
                    let again = guarded(|| serde_json::from_value::<Component>(serde_json::to_value(&c).unwrap()).ok());
                    match again {
                        Ok(Some(c)) if alike(&want, &eval_b(c.edges[0].guard.as_ref().unwrap_or(&B::Bool(true))), &g).is_none() => {}
                        e => return bad(key, format!("differs after saving the component: {e:?}")),
                    }
                }
            }
            // zone, expression, zone
            let Some(z) = denotes(&b) else { return bad(key, "refused".into()) };
            let names = decls().clocks;
            let back = B::from_disjunction(&z, &names).unwrap_or(B::Bool(true));
            if let Some(p) = alike(&want, &eval_b(&back), &g) {
                return bad(key, format!("as a zone and back {back:?}, which differs at {}", place(p)));
            }
            match read(&back.encode_expr()) {
                Some(r) if alike(&want, &eval_b(&r), &g).is_none() => {}
                r => return bad(key, format!("as a zone, written {} and read {r:?}", back.encode_expr())),
            }
            // renaming
            let swap = |p: [i64; 2]| [p[1], p[0]];
            let flipped = b.swap_clock_names(&names, &[(1, "y".to_string()), (2, "x".to_string())].into());
            let f = eval_b(&flipped);
            if let Some(p) = g.iter().find(|p| f.holds(swap(**p)) != want.holds(**p)) {
                return bad(key, format!("exchanging clock names gives {flipped:?}, wrong at {}", place(*p)));
            }
            let mut c = b.clone();
            c.swap_var_name("x", "z");
            c.replace_varname(&"y".to_string(), &"x".to_string());
            c.replace_varname(&"z".to_string(), &"y".to_string());
            let f = eval_b(&c);
            if let Some(p) = g.iter().find(|p| f.holds(swap(**p)) != want.holds(**p)) {
                return bad(key, format!("renaming one after the other gives {c:?}, wrong at {}", place(*p)));
            }
            for n in ["x", "y", "z"] {
                if b.has_varname(&n.to_string()) != text.contains(n) {
                    return bad(key, format!("wrong about mentioning {n}"));
                }
            }
            run.trace("boolean written, read, as zone, renamed");
        });
    }
    // 3: simplification of boolean structure and constants
    let s = [
        B::Bool(true),
        B::Bool(false),
        x1,
        cmp(1, A::Int(2), A::Int(1)),
        cmp(0, A::Int(1), A::Addition(Box::new(A::Int(1)), Box::new(A::Int(1)))),
        cmp(2, A::Int(1), A::Int(1)),
        cmp(3, A::Int(1), A::Int(2)),
        cmp(4, A::Int(2), A::Int(1)),
        cmp(4, A::Int(1), A::Int(1)),
        cmp(3, v("y"), A::Difference(Box::new(A::Int(3)), Box::new(A::Int(1)))),
        cmp(0, A::Addition(Box::new(v("x")), Box::new(A::Int(1))), A::Int(2)),
        cmp(1, A::Difference(Box::new(A::Int(2)), Box::new(v("x"))), A::Int(1)),
    ];
    for n in 1..=4 {
        let cases = trees(n).len() as u64 * (s.len() as u64).pow(n as u32) * 2u64.pow(n as u32 - 1);
        run.space(&format!("simplify-{n}"), cases, "all trees of && and || over constants, constant comparisons and clock bounds, simplified");
        run.for_all(cases, |k| {
            let mut d = Dig(k);
            let b = bool_tree(&mut d, n, &s);
            let mut c = b.clone();
            if let Err(e) = guarded(|| c.simplify()) {
                return bad(format!("simplify | {b:?}"), e);
            }
            run.states(g.len() as u64);
            if let Some(p) = alike(&eval_b(&b), &eval_b(&c), &g) {
                bad(format!("simplify | {b:?}"), format!("gives {c:?}, which differs at {}", place(p)));
            }
            run.trace("boolean simplified");
        });
    }
    let consts: Vec<A> = (0..if quick { 4 } else { 6 }).map(|i| A::Int([0, 1, 2, 3, -1, 7][i])).collect();
    for n in 1..=4 {
        let cases = trees(n).len() as u64 * (consts.len() as u64).pow(n as u32) * 5u64.pow(n as u32 - 1) * 5;
        run.space(&format!("constants-{n}"), cases, "all constant expression trees, alone and added to or subtracted from a clock, simplified");
        run.for_all(cases, |k| {
            let mut d = Dig(k);
            let form = d.pick(5);
            let t = arith_tree(&mut d, n, &consts);
            if eval_a(&t).is_none() {
                return;
            }
            let e = match form {
                0 => t,
                1 => A::Addition(Box::new(v("x")), Box::new(t)),
                2 => A::Addition(Box::new(t), Box::new(v("x"))),
                3 => A::Difference(Box::new(v("x")), Box::new(t)),
                _ => A::Difference(Box::new(t), Box::new(v("x"))),
            };
            match guarded(|| e.simplify()) {
                Ok(Ok(s)) if eval_a(&s) == eval_a(&e) => {
                    if form == 0 && !matches!(s, A::Int(_)) {
                        bad(format!("simplify | {e:?}"), format!("left as {s:?}"));
                    }
                }
                r => bad(format!("simplify | {e:?}"), format!("gives {r:?}")),
            }
            run.trace("arithmetic simplified");
        });
    }
    // a clock inside nested subtractions; the repository's own unit test expects this result
    let e = A::Difference(
        Box::new(A::Int(5)),
        Box::new(A::Difference(Box::new(v("x")), Box::new(A::Difference(Box::new(A::Int(3)), Box::new(A::Difference(Box::new(A::Int(2)), Box::new(A::Int(1)))))))),
    );
    match guarded(|| e.simplify()) {
        Ok(Ok(s)) if eval_a(&s) == eval_a(&e) => run.trace("arithmetic simplified"),
        Ok(Err(_)) => run.trace("arithmetic refused"),
        r => bad("simplify | 5-(x-(3-(2-1)))".into(), format!("gives {r:?}")),
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "G01" => g01(&run),
        "G02" => g02(&run),
        _ => panic!("unknown property"),
    }
    run.finish();
}
