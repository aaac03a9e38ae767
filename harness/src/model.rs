//! Bounded models: small timed I/O components, their JSON form and their exact formula semantics.
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Lt,
    Le,
    Eq,
    Ge,
    Gt,
}

impl Op {
    pub const ALL: [Op; 5] = [Op::Le, Op::Ge, Op::Lt, Op::Gt, Op::Eq];
    pub fn text(self) -> &'static str {
        match self {
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Eq => "==",
            Op::Ge => ">=",
            Op::Gt => ">",
        }
    }
    /// `ord` is the ordering of the left value relative to the right one.
    pub fn holds(self, ord: std::cmp::Ordering) -> bool {
        use std::cmp::Ordering::*;
        match self {
            Op::Lt => ord == Less,
            Op::Le => ord != Greater,
            Op::Eq => ord == Equal,
            Op::Ge => ord != Less,
            Op::Gt => ord == Greater,
        }
    }
}

/// A clock formula. Clock numbers are positions in the owner's clock list.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum F {
    T,
    N,
    /// clock op constant
    C(usize, Op, i32),
    /// clock - clock op constant
    D(usize, usize, Op, i32),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
    Not(Box<F>),
}

pub fn and(a: F, b: F) -> F {
    match (a, b) {
        (F::T, x) | (x, F::T) => x,
        (F::N, _) | (_, F::N) => F::N,
        (a, b) => F::And(Box::new(a), Box::new(b)),
    }
}
pub fn or(a: F, b: F) -> F {
    match (a, b) {
        (F::N, x) | (x, F::N) => x,
        (F::T, _) | (_, F::T) => F::T,
        (a, b) => F::Or(Box::new(a), Box::new(b)),
    }
}
pub fn not(a: F) -> F {
    match a {
        F::T => F::N,
        F::N => F::T,
        F::Not(x) => *x,
        a => F::Not(Box::new(a)),
    }
}
pub fn c(x: usize, op: Op, k: i32) -> F {
    F::C(x, op, k)
}

impl F {
    pub fn text(&self, clocks: &[String]) -> String {
        self.styled(clocks, 0)
    }
    /// Equivalent spellings: 0 plain, 1 sides swapped, 2 constant added to both sides, 3 constant as a
    /// sum, 4 constant subtracted from both sides (differences: one clock moved to the other side).
    pub fn styled(&self, clocks: &[String], style: u8) -> String {
        match self {
            F::C(x, op, k) if style == 1 => format!("{}{}{}", k, flip(*op).text(), clocks[*x]),
            F::C(x, op, k) if style == 2 => format!("{}+2{}{}", clocks[*x], op.text(), k + 2),
            F::C(x, op, k) if style == 3 => format!("{}{}{}-2", clocks[*x], op.text(), k + 2),
            F::C(x, op, k) if style == 4 && *k >= 1 => format!("{}-1{}{}", clocks[*x], op.text(), k - 1),
            F::D(x, y, op, k) if style == 1 => format!("{}{}{}-{}", k, flip(*op).text(), clocks[*x], clocks[*y]),
            F::D(x, y, op, k) if style == 3 => format!("{}-{}{}{}-2", clocks[*x], clocks[*y], op.text(), k + 2),
            F::D(x, y, op, k) if style == 4 => format!("{}{}{}+{}", clocks[*x], op.text(), clocks[*y], k),
            F::T => "true".into(),
            F::N => "false".into(),
            F::C(x, op, k) => format!("{}{}{}", clocks[*x], op.text(), k),
            F::D(x, y, op, k) => format!("{}-{}{}{}", clocks[*x], clocks[*y], op.text(), k),
            F::And(a, b) => format!("({} && {})", a.styled(clocks, style), b.styled(clocks, style)),
            F::Or(a, b) => format!("({} || {})", a.styled(clocks, style), b.styled(clocks, style)),
            F::Not(_) => unreachable!("no negation in model text"),
        }
    }
    /// The set of valuations that satisfy self after the given assignments (in order).
    pub fn after(&self, resets: &[(usize, i32)]) -> F {
        let val = |x: usize| resets.iter().rev().find(|r| r.0 == x).map(|r| r.1);
        match self {
            F::T | F::N => self.clone(),
            F::C(x, op, k) => match val(*x) {
                Some(v) => tf(op.holds(v.cmp(k))),
                None => self.clone(),
            },
            F::D(x, y, op, k) => match (val(*x), val(*y)) {
                (Some(a), Some(b)) => tf(op.holds((a - b).cmp(k))),
                (None, None) => self.clone(),
                // x - b op k  <=>  x op k + b
                (None, Some(b)) => bound(*x, *op, k + b),
                // a - y op k  <=>  y flip(op) a - k
                (Some(a), None) => bound(*y, flip(*op), a - k),
            },
            F::And(a, b) => and(a.after(resets), b.after(resets)),
            F::Or(a, b) => or(a.after(resets), b.after(resets)),
            F::Not(a) => not(a.after(resets)),
        }
    }
    pub fn shift(&self, off: usize) -> F {
        match self {
            F::T | F::N => self.clone(),
            F::C(x, op, k) => F::C(x + off, *op, *k),
            F::D(x, y, op, k) => F::D(x + off, y + off, *op, *k),
            F::And(a, b) => F::And(Box::new(a.shift(off)), Box::new(b.shift(off))),
            F::Or(a, b) => F::Or(Box::new(a.shift(off)), Box::new(b.shift(off))),
            F::Not(a) => F::Not(Box::new(a.shift(off))),
        }
    }
    pub fn max_const(&self) -> i32 {
        match self {
            F::T | F::N => 0,
            F::C(_, _, k) | F::D(_, _, _, k) => k.abs(),
            F::And(a, b) | F::Or(a, b) => a.max_const().max(b.max_const()),
            F::Not(a) => a.max_const(),
        }
    }
    pub fn has_diag(&self) -> bool {
        match self {
            F::D(..) => true,
            F::And(a, b) | F::Or(a, b) => a.has_diag() || b.has_diag(),
            F::Not(a) => a.has_diag(),
            _ => false,
        }
    }
    pub fn clocks(&self, out: &mut BTreeSet<usize>) {
        match self {
            F::C(x, _, _) => {
                out.insert(*x);
            }
            F::D(x, y, _, _) => {
                out.insert(*x);
                out.insert(*y);
            }
            F::And(a, b) | F::Or(a, b) => {
                a.clocks(out);
                b.clocks(out);
            }
            F::Not(a) => a.clocks(out),
            _ => {}
        }
    }
}

fn tf(b: bool) -> F {
    if b {
        F::T
    } else {
        F::N
    }
}
fn flip(op: Op) -> Op {
    match op {
        Op::Lt => Op::Gt,
        Op::Le => Op::Ge,
        Op::Eq => Op::Eq,
        Op::Ge => Op::Le,
        Op::Gt => Op::Lt,
    }
}
/// clock op k, with clocks known to be non-negative
fn bound(x: usize, op: Op, k: i32) -> F {
    if k < 0 {
        tf(matches!(op, Op::Ge | Op::Gt))
    } else {
        F::C(x, op, k)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Normal,
    Initial,
    Universal,
    Inconsistent,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Loc {
    pub id: String,
    pub inv: F,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Edge {
    pub id: String,
    pub src: usize,
    pub dst: usize,
    pub act: String,
    pub input: bool,
    pub guard: F,
    pub resets: Vec<(usize, i32)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Comp {
    pub name: String,
    pub clocks: Vec<String>,
    pub locs: Vec<Loc>,
    pub edges: Vec<Edge>,
    /// written with the editor's `*` loops at universal locations, which say nothing more
    pub stars: bool,
}

pub fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

impl Comp {
    pub fn new(name: &str, nclocks: usize) -> Comp {
        let names = ["x", "y", "z", "w"];
        Comp {
            name: name.into(),
            clocks: (0..nclocks).map(|i| names[i].to_string()).collect(),
            locs: vec![],
            edges: vec![],
            stars: false,
        }
    }
    pub fn loc(&mut self, inv: F) -> usize {
        let i = self.locs.len();
        self.locs.push(Loc {
            id: format!("L{i}"),
            inv,
            kind: if i == 0 { Kind::Initial } else { Kind::Normal },
        });
        i
    }
    pub fn loc_kind(&mut self, kind: Kind) -> usize {
        let i = self.loc(F::T);
        self.locs[i].kind = kind;
        i
    }
    pub fn edge(&mut self, src: usize, act: &str, guard: F, resets: &[(usize, i32)], dst: usize) {
        let i = self.edges.len();
        let (a, input) = match act.strip_suffix('?') {
            Some(a) => (a, true),
            None => (act.strip_suffix('!').expect("act? or act!"), false),
        };
        self.edges.push(Edge {
            id: format!("E{i}"),
            src,
            dst,
            act: a.into(),
            input,
            guard,
            resets: resets.to_vec(),
        });
    }
    pub fn renamed(&self, name: &str) -> Comp {
        let mut c = self.clone();
        c.name = name.into();
        c
    }
    pub fn inputs(&self) -> BTreeSet<String> {
        self.edges.iter().filter(|e| e.input).map(|e| e.act.clone()).collect()
    }
    pub fn outputs(&self) -> BTreeSet<String> {
        self.edges.iter().filter(|e| !e.input).map(|e| e.act.clone()).collect()
    }
    pub fn max_const(&self) -> i32 {
        let a = self.locs.iter().map(|l| l.inv.max_const()).max().unwrap_or(0);
        let b = self
            .edges
            .iter()
            .map(|e| e.guard.max_const().max(e.resets.iter().map(|r| r.1).max().unwrap_or(0)))
            .max()
            .unwrap_or(0);
        a.max(b)
    }
    pub fn has_diag(&self) -> bool {
        self.locs.iter().any(|l| l.inv.has_diag()) || self.edges.iter().any(|e| e.guard.has_diag())
    }
    pub fn json(&self) -> String {
        self.json_styled(0)
    }
    pub fn json_styled(&self, style: u8) -> String {
        let opt = |f: &F| {
            if *f == F::T {
                String::new()
            } else {
                f.styled(&self.clocks, style)
            }
        };
        let decl = if self.clocks.is_empty() {
            String::new()
        } else {
            format!("clock {};", self.clocks.join(", "))
        };
        let locs: Vec<String> = self
            .locs
            .iter()
            .map(|l| {
                let k = match l.kind {
                    Kind::Normal => "NORMAL",
                    Kind::Initial => "INITIAL",
                    Kind::Universal => "UNIVERSAL",
                    Kind::Inconsistent => "INCONSISTENT",
                };
                format!(
                    r#"{{"id":{},"nickname":"","invariant":{},"type":"{}","urgency":"NORMAL","x":0.0,"y":0.0,"color":6,"nicknameX":0.0,"nicknameY":0.0,"invariantX":0.0,"invariantY":0.0}}"#,
                    jstr(&l.id),
                    jstr(&opt(&l.inv)),
                    k
                )
            })
            .collect();
        let stars = self.locs.iter().filter(|l| self.stars && l.kind == Kind::Universal).flat_map(|l| {
            ["INPUT", "OUTPUT"].map(|status| {
                format!(
                    r#"{{"id":"{status}{0}","group":"","sourceLocation":{1},"targetLocation":{1},"status":"{status}","select":"","guard":"","update":"","sync":"*","isLocked":false,"nails":[]}}"#,
                    l.id,
                    jstr(&l.id)
                )
            })
        });
        let edges: Vec<String> = self
            .edges
            .iter()
            .map(|e| {
                let upd: Vec<String> = e
                    .resets
                    .iter()
                    .map(|(x, v)| format!("{}={}", self.clocks[*x], v))
                    .collect();
                format!(
                    r#"{{"id":{},"group":"","sourceLocation":{},"targetLocation":{},"status":"{}","select":"","guard":{},"update":{},"sync":{},"isLocked":false,"nails":[]}}"#,
                    jstr(&e.id),
                    jstr(&self.locs[e.src].id),
                    jstr(&self.locs[e.dst].id),
                    if e.input { "INPUT" } else { "OUTPUT" },
                    jstr(&opt(&e.guard)),
                    jstr(&upd.join(", ")),
                    jstr(&format!("{}{}", e.act, if e.input { "?" } else { "!" }))
                )
            })
            .chain(stars)
            .collect();
        format!(
            r#"{{"name":{},"declarations":{},"locations":[{}],"edges":[{}],"description":"","x":0.0,"y":0.0,"width":0.0,"height":0.0,"color":"6","includeInPeriodicCheck":false}}"#,
            jstr(&self.name),
            jstr(&decl),
            locs.join(","),
            edges.join(",")
        )
    }
    /// Reads a component file as the format is documented: texts are parsed here, not by the code under test.
    pub fn from_json(text: &str) -> Result<Comp, String> {
        let v: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
        let s = |v: &serde_json::Value, k: &str| -> Result<String, String> {
            v[k].as_str().map(|s| s.to_string()).ok_or(format!("no text {k}"))
        };
        let list = |k: &str| v[k].as_array().cloned().ok_or(format!("no list {k}"));
        let mut c = Comp::new(&s(&v, "name")?, 0);
        for d in s(&v, "declarations")?.split(';').map(|d| d.trim()).filter(|d| !d.is_empty()) {
            let names = d.strip_prefix("clock ").ok_or(format!("declaration {d}"))?;
            c.clocks.extend(names.split(',').map(|n| n.trim().to_string()));
        }
        let distinct: BTreeSet<&String> = c.clocks.iter().collect();
        if distinct.len() != c.clocks.len() {
            return Err(format!("clocks {:?} are not distinct", c.clocks));
        }
        for l in list("locations")? {
            let kind = match s(&l, "type")?.as_str() {
                "NORMAL" => Kind::Normal,
                "INITIAL" => Kind::Initial,
                "UNIVERSAL" => Kind::Universal,
                "INCONSISTENT" => Kind::Inconsistent,
                k => return Err(format!("location type {k}")),
            };
            let id = s(&l, "id")?;
            if c.locs.iter().any(|l| l.id == id) {
                return Err(format!("two locations {id}"));
            }
            c.locs.push(Loc { id, inv: formula(&s(&l, "invariant")?, &c.clocks)?, kind });
        }
        for e in list("edges")? {
            let find = |id: String| c.locs.iter().position(|l| l.id == id).ok_or(format!("no location {id}"));
            let mut resets = vec![];
            for u in s(&e, "update")?.split(',').map(|u| u.trim()).filter(|u| !u.is_empty()) {
                let (x, k) = u.split_once('=').ok_or(format!("update {u}"))?;
                let x = c.clocks.iter().position(|n| n == x.trim()).ok_or(format!("update {u}"))?;
                resets.push((x, k.trim().parse().map_err(|_| format!("update {u}"))?));
            }
            c.edges.push(Edge {
                id: s(&e, "id")?,
                src: find(s(&e, "sourceLocation")?)?,
                dst: find(s(&e, "targetLocation")?)?,
                act: s(&e, "sync")?.replace(['!', '?'], ""),
                input: match s(&e, "status")?.as_str() {
                    "INPUT" => true,
                    "OUTPUT" => false,
                    k => return Err(format!("edge status {k}")),
                },
                guard: formula(&s(&e, "guard")?, &c.clocks)?,
                resets,
            });
        }
        Ok(c)
    }
    /// Compact human-readable rendering for samples and replays.
    pub fn show(&self) -> String {
        let ls: Vec<String> = self
            .locs
            .iter()
            .map(|l| {
                let k = match l.kind {
                    Kind::Normal => "",
                    Kind::Initial => "*",
                    Kind::Universal => "(U)",
                    Kind::Inconsistent => "(I)",
                };
                if l.inv == F::T {
                    format!("{}{}", l.id, k)
                } else {
                    format!("{}{}[{}]", l.id, k, l.inv.text(&self.clocks))
                }
            })
            .collect();
        let es: Vec<String> = self
            .edges
            .iter()
            .map(|e| {
                let upd: Vec<String> = e
                    .resets
                    .iter()
                    .map(|(x, v)| format!("{}={}", self.clocks[*x], v))
                    .collect();
                format!(
                    "{}-{}{}[{}]{{{}}}->{}",
                    self.locs[e.src].id,
                    e.act,
                    if e.input { "?" } else { "!" },
                    e.guard.text(&self.clocks),
                    upd.join(","),
                    self.locs[e.dst].id
                )
            })
            .collect();
        format!("{}: {} | {}", self.name, ls.join(" "), es.join("; "))
    }
}

/// Mixed-radix decoding of a space index, so every member of a product space is visited exactly once.
pub struct Dig(pub u64);
impl Dig {
    pub fn pick(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }
}

/// Reads a guard: disjunctions of conjunctions of bounds on clocks and clock differences, with parentheses.
pub fn formula(text: &str, clocks: &[String]) -> Result<F, String> {
    let mut toks: Vec<String> = vec![];
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let word = |c: char| c.is_alphanumeric() || c == '_' || c == '.';
        if c.is_whitespace() {
            i += 1;
        } else if word(c) {
            let j = (i..cs.len()).find(|j| !word(cs[*j])).unwrap_or(cs.len());
            toks.push(cs[i..j].iter().collect());
            i = j;
        } else {
            let two: String = cs[i..(i + 2).min(cs.len())].iter().collect();
            let n = if ["&&", "||", "<=", ">=", "==", "!="].contains(&two.as_str()) { 2 } else { 1 };
            toks.push(cs[i..i + n].iter().collect());
            i += n;
        }
    }
    if toks.is_empty() {
        return Ok(F::T);
    }
    let mut p = Reader { toks, at: 0, clocks };
    let f = p.or()?;
    if p.at != p.toks.len() {
        return Err(format!("guard {text}"));
    }
    Ok(f)
}

struct Reader<'a> {
    toks: Vec<String>,
    at: usize,
    clocks: &'a [String],
}

impl Reader<'_> {
    fn peek(&self) -> &str {
        self.toks.get(self.at).map(|s| s.as_str()).unwrap_or("")
    }
    fn eat(&mut self, t: &str) -> bool {
        let hit = self.peek() == t;
        self.at += hit as usize;
        hit
    }
    fn or(&mut self) -> Result<F, String> {
        let mut f = self.and()?;
        while self.eat("||") {
            f = or(f, self.and()?);
        }
        Ok(f)
    }
    fn and(&mut self) -> Result<F, String> {
        let mut f = self.atom()?;
        while self.eat("&&") {
            f = and(f, self.atom()?);
        }
        Ok(f)
    }
    fn atom(&mut self) -> Result<F, String> {
        if self.eat("true") {
            return Ok(F::T);
        }
        if self.eat("false") {
            return Ok(F::N);
        }
        if self.peek() == "(" {
            let back = self.at;
            self.at += 1;
            if let Ok(f) = self.or() {
                if self.eat(")") {
                    return Ok(f);
                }
            }
            self.at = back;
        }
        let (mut l, a) = self.sum()?;
        let op = match self.peek() {
            "<" => Op::Lt,
            "<=" => Op::Le,
            "==" => Op::Eq,
            ">=" => Op::Ge,
            ">" => Op::Gt,
            t => return Err(format!("operator {t}")),
        };
        self.at += 1;
        let (r, b) = self.sum()?;
        for (x, k) in r {
            l.push((x, -k));
        }
        let mut coef = vec![0i32; self.clocks.len()];
        for (x, k) in l {
            coef[x] += k;
        }
        let plus: Vec<usize> = (0..coef.len()).filter(|x| coef[*x] == 1).collect();
        let minus: Vec<usize> = (0..coef.len()).filter(|x| coef[*x] == -1).collect();
        if coef.iter().any(|k| k.abs() > 1) {
            return Err("not a bound".into());
        }
        match (&plus[..], &minus[..]) {
            ([], []) => Ok(tf(op.holds(a.cmp(&b)))),
            ([x], []) => Ok(bound(*x, op, b - a)),
            ([], [x]) => Ok(bound(*x, flip(op), a - b)),
            ([x], [y]) => Ok(F::D(*x, *y, op, b - a)),
            _ => Err("not a bound".into()),
        }
    }
    /// clocks with signs, constant
    fn sum(&mut self) -> Result<(Vec<(usize, i32)>, i32), String> {
        let (mut cs, mut k) = (vec![], 0);
        let mut sign = if self.eat("-") { -1 } else { 1 };
        loop {
            let t = self.peek().to_string();
            self.at += 1;
            if t == "(" {
                let (inner, m) = self.sum()?;
                if !self.eat(")") {
                    return Err("parenthesis".into());
                }
                cs.extend(inner.into_iter().map(|(x, s)| (x, s * sign)));
                k += sign * m;
                sign = if self.eat("+") {
                    1
                } else if self.eat("-") {
                    -1
                } else {
                    return Ok((cs, k));
                };
                continue;
            }
            if let Ok(n) = t.parse::<i32>() {
                k += sign * n;
            } else if let Some(x) = self.clocks.iter().position(|c| *c == t) {
                cs.push((x, sign));
            } else {
                return Err(format!("term {t}"));
            }
            sign = if self.eat("+") {
                1
            } else if self.eat("-") {
                -1
            } else {
                return Ok((cs, k));
            };
        }
    }
}
