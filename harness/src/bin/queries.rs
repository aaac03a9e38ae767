//! Q01: query texts, token by token: what is a query, what it denotes, and what its printed form denotes.
use mc::driver::guarded;
use mc::model::Dig;
use mc::report::Run;
use reveaal::DataReader::parse_queries::{parse_to_expression_tree, parse_to_query, parse_to_state_expr, parse_to_system_expr};
use reveaal::ModelObjects::Expressions::{ComponentVariable, OperandExpression as O, QueryExpression as Q, SaveExpression, StateExpression as S, SystemExpression as E};
use serde_json::json;

type Tag = Option<&'static str>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Comp(&'static str, Tag),
    Var(&'static str, Tag, &'static str),
    Int(i32),
    And,
    Or,
    Quot,
    Not,
    Open,
    Close,
    Cmp(&'static str),
    Plus,
    Minus,
    Bool(bool),
    Word(&'static str),
}
/// A token and how it is written
type Tok = (K, &'static str);

fn text(ts: &[Tok], tight: bool) -> String {
    let mut s = String::new();
    for (i, (k, t)) in ts.iter().enumerate() {
        if i > 0 {
            // names are not directly followed by `-`; words need separation
            let (p, _) = ts[i - 1];
            let word = |k: &K, t: &str| matches!(k, K::Comp(..) | K::Var(..) | K::Bool(_) | K::Int(_) | K::Word(_)) || t.chars().all(|c| c.is_alphabetic());
            let clash = word(&p, ts[i - 1].1) && (word(k, t) || matches!(k, K::Minus)) || matches!((p, k), (K::Word(_), _) | (_, K::Word(_)))
                || matches!((p, k), (K::Cmp(_), K::Cmp(_))) || matches!((p, k), (K::Minus, K::Cmp(_)));
            if !tight || clash {
                s.push(' ');
            }
        }
        s.push_str(t);
    }
    s
}

// ------------------------------------------------------------ reference trees

#[derive(Clone, Debug, PartialEq)]
enum Sys {
    Comp(String, Option<String>),
    Op(K, Box<Sys>, Box<Sys>),
}
#[derive(Clone, Debug, PartialEq)]
enum Arith {
    Int(i32),
    Var(String, Option<String>, String),
    Op(K, Box<Arith>, Box<Arith>),
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Cmp(String, Arith, Arith),
    List(K, Vec<St>),
    Loc(String, Option<String>, String),
    Not(Box<St>),
    Bool(bool),
}
#[derive(Clone, Debug, PartialEq)]
enum Qu {
    Ref(Sys, Sys),
    One(&'static str, Sys),
    Save(&'static str, Sys, Option<String>),
    Reach(Sys, Option<St>, St),
}

struct P<'a>(&'a [Tok], usize);
impl P<'_> {
    fn peek(&self) -> Option<K> {
        self.0.get(self.1).map(|t| t.0)
    }
    fn eat(&mut self, k: K) -> Option<()> {
        (self.peek()? == k).then(|| self.1 += 1)
    }
    /// Chain of `level` operators, tightest last: `//`, `||`, `&&`.
    fn sys(&mut self, level: usize) -> Option<Sys> {
        if level == 3 {
            return match self.peek()? {
                K::Comp(n, t) => {
                    self.1 += 1;
                    Some(Sys::Comp(n.into(), t.map(Into::into)))
                }
                // also a name
                K::Bool(b) => {
                    self.1 += 1;
                    Some(Sys::Comp(b.to_string(), None))
                }
                K::Open => {
                    self.1 += 1;
                    let s = self.sys(0)?;
                    self.eat(K::Close)?;
                    Some(s)
                }
                _ => None,
            };
        }
        let op = [K::Quot, K::Or, K::And][level];
        let mut l = self.sys(level + 1)?;
        while self.eat(op).is_some() {
            let r = self.sys(level + 1)?;
            l = Sys::Op(op, Box::new(l), Box::new(r));
        }
        Some(l)
    }
    fn term(&mut self) -> Option<Arith> {
        let r = match self.peek()? {
            K::Int(i) => Arith::Int(i),
            K::Var(c, t, v) => Arith::Var(c.into(), t.map(Into::into), v.into()),
            _ => return None,
        };
        self.1 += 1;
        Some(r)
    }
    fn arith(&mut self) -> Option<Arith> {
        let mut l = self.term()?;
        while let Some(op @ (K::Plus | K::Minus)) = self.peek() {
            self.1 += 1;
            let r = self.term()?;
            l = Arith::Op(op, Box::new(l), Box::new(r));
        }
        Some(l)
    }
    fn list(&mut self, op: K, mut item: impl FnMut(&mut Self) -> Option<St>) -> Option<St> {
        let mut l = vec![item(self)?];
        while self.eat(op).is_some() {
            l.push(item(self)?);
        }
        Some(if l.len() == 1 { l.remove(0) } else { St::List(op, l) })
    }
    fn state(&mut self) -> Option<St> {
        self.list(K::Or, |p| p.list(K::And, |p| p.sub()))
    }
    fn sub(&mut self) -> Option<St> {
        match self.peek()? {
            K::Open => {
                self.1 += 1;
                let s = self.state()?;
                self.eat(K::Close)?;
                Some(s)
            }
            K::Not => {
                self.1 += 1;
                Some(St::Not(Box::new(self.sub()?)))
            }
            K::Bool(b) => {
                self.1 += 1;
                Some(St::Bool(b))
            }
            _ => {
                let at = self.1;
                let l = self.arith()?;
                if let Some(K::Cmp(c)) = self.peek() {
                    self.1 += 1;
                    return Some(St::Cmp(c.into(), l, self.arith()?));
                }
                match (l, self.1 - at) {
                    (Arith::Var(c, t, v), 1) => Some(St::Loc(c, t, v)),
                    _ => None,
                }
            }
        }
    }
    fn query(&mut self) -> Option<Qu> {
        let K::Word(w) = self.peek()? else { return None };
        self.1 += 1;
        let s = self.sys(0)?;
        Some(match w {
            "refinement:" => {
                self.eat(K::Cmp("<="))?;
                Qu::Ref(s, self.sys(0)?)
            }
            "consistency:" | "implementation:" | "determinism:" | "specification:" => Qu::One(w, s),
            "get-component:" | "prune:" | "bisim-minim:" => {
                let mut name = None;
                if self.eat(K::Word("save-as")).is_some() {
                    let n = match self.peek()? {
                        K::Comp(n, None) => n.to_string(),
                        K::Bool(b) => b.to_string(),
                        _ => return None,
                    };
                    self.1 += 1;
                    name = Some(n);
                }
                Qu::Save(w, s, name)
            }
            "reachability:" => {
                self.eat(K::Word("@"))?;
                let from = if self.eat(K::Comp("init", None)).is_some() { None } else { Some(self.state()?) };
                self.eat(K::Word("->"))?;
                Qu::Reach(s, from, self.state()?)
            }
            _ => return None,
        })
    }
    fn queries(&mut self) -> Option<Vec<Qu>> {
        let mut l = vec![self.query()?];
        while self.eat(K::Word(";")).is_some() {
            l.push(self.query()?);
        }
        Some(l)
    }
}

fn whole<T>(ts: &[Tok], f: impl FnOnce(&mut P) -> Option<T>) -> Option<T> {
    let mut p = P(ts, 0);
    let r = f(&mut p)?;
    (p.1 == ts.len()).then_some(r)
}

// ------------------------------------------------------------ what the code read

fn sys(e: &E) -> Sys {
    let two = |k, l: &E, r: &E| Sys::Op(k, Box::new(sys(l)), Box::new(sys(r)));
    match e {
        E::Component(n, t) => Sys::Comp(n.clone(), t.clone()),
        E::Quotient(l, r) => two(K::Quot, l, r),
        E::Composition(l, r) => two(K::Or, l, r),
        E::Conjunction(l, r) => two(K::And, l, r),
    }
}
fn arith(o: &O) -> Arith {
    let two = |k, l: &O, r: &O| Arith::Op(k, Box::new(arith(l)), Box::new(arith(r)));
    match o {
        O::Number(i) => Arith::Int(*i),
        O::Clock(ComponentVariable { component, special_id, variable }) => Arith::Var(component.clone(), special_id.clone(), variable.clone()),
        O::Difference(l, r) => two(K::Minus, l, r),
        O::Sum(l, r) => two(K::Plus, l, r),
    }
}
fn st(s: &S) -> St {
    let two = |c: &str, l: &O, r: &O| St::Cmp(c.into(), arith(l), arith(r));
    match s {
        S::LEQ(l, r) => two("<=", l, r),
        S::GEQ(l, r) => two(">=", l, r),
        S::EQ(l, r) => two("==", l, r),
        S::LT(l, r) => two("<", l, r),
        S::GT(l, r) => two(">", l, r),
        S::AND(l) => St::List(K::And, l.iter().map(st).collect()),
        S::OR(l) => St::List(K::Or, l.iter().map(st).collect()),
        S::Location(v) => St::Loc(v.component.clone(), v.special_id.clone(), v.variable.clone()),
        S::NOT(s) => St::Not(Box::new(st(s))),
        S::Bool(b) => St::Bool(*b),
    }
}
fn qu(q: &Q) -> Qu {
    let save = |w, s: &SaveExpression| Qu::Save(w, sys(&s.system), s.name.clone());
    match q {
        Q::Refinement(l, r) => Qu::Ref(sys(l), sys(r)),
        Q::Consistency(s) => Qu::One("consistency:", sys(s)),
        Q::Implementation(s) => Qu::One("implementation:", sys(s)),
        Q::Determinism(s) => Qu::One("determinism:", sys(s)),
        Q::Specification(s) => Qu::One("specification:", sys(s)),
        Q::GetComponent(s) => save("get-component:", s),
        Q::Prune(s) => save("prune:", s),
        Q::BisimMinim(s) => save("bisim-minim:", s),
        Q::Reachability { system, from, to } => Qu::Reach(sys(system), from.as_ref().map(st), st(to)),
    }
}

fn flat<T>(r: Result<Result<T, String>, String>) -> Option<T> {
    r.ok().and_then(|r| r.ok())
}

/// A sum of variables and numbers, in one order.
fn sum(a: &Arith) -> Arith {
    fn terms(a: &Arith, plus: bool, vars: &mut Vec<(String, Arith, bool)>, n: &mut i64) {
        match a {
            Arith::Int(i) => *n += if plus { *i as i64 } else { -(*i as i64) },
            Arith::Var(..) => match vars.iter().position(|(k, _, p)| *k == format!("{a:?}") && *p != plus) {
                Some(i) => {
                    vars.remove(i);
                }
                None => vars.push((format!("{a:?}"), a.clone(), plus)),
            },
            Arith::Op(k, l, r) => {
                terms(l, plus, vars, n);
                terms(r, plus == (*k == K::Plus), vars, n);
            }
        }
    }
    let (mut vars, mut n) = (vec![], 0);
    terms(a, true, &mut vars, &mut n);
    vars.sort_by_key(|v| (v.0.clone(), v.2));
    vars.into_iter().fold(Arith::Var("sum".into(), None, n.to_string()), |s, (_, v, p)| {
        Arith::Op(if p { K::Plus } else { K::Minus }, Box::new(s), Box::new(v))
    })
}

/// Nested and/or lists are a matter of grouping only: (a && b) && c is a && b && c.
fn norm(s: &St) -> St {
    match s {
        St::List(k, l) => {
            let mut out = vec![];
            for x in l {
                match norm(x) {
                    St::List(j, m) if j == *k => out.extend(m),
                    x => out.push(x),
                }
            }
            St::List(*k, out)
        }
        St::Not(s) => St::Not(Box::new(norm(s))),
        St::Cmp(c, l, r) => St::Cmp(c.clone(), sum(l), sum(r)),
        s => s.clone(),
    }
}
fn norm_q(q: &Qu) -> Qu {
    match q {
        Qu::Reach(s, f, t) => Qu::Reach(s.clone(), f.as_ref().map(norm), norm(t)),
        q => q.clone(),
    }
}

fn compare<T: PartialEq + std::fmt::Debug>(run: &Run, what: &str, txt: &str, want: Option<T>, got: Option<(T, String)>, again: impl Fn(&str) -> Option<T>) {
    let bad = |w: String| run.violation(&format!("{what} | {txt}"), &w, json!({"kind": "query text", "text": txt}));
    match (want, got) {
        (None, None) => run.trace(&format!("{what} refused")),
        (Some(w), Some((g, printed))) => {
            if w != g {
                return bad(format!("read as {g:?}, expected {w:?}"));
            }
            let g = again(&printed);
            if g.as_ref() != Some(&w) {
                return bad(format!("prints as `{printed}`, which is read as {g:?} instead of {w:?}"));
            }
            run.trace(&format!("{what} read"))
        }
        (None, Some((g, _))) => bad(format!("malformed, but read as {g:?}")),
        (Some(w), None) => bad(format!("refused, expected {w:?}")),
    }
}

fn system(run: &Run, ts: &[Tok], tight: bool) {
    let txt = text(ts, tight);
    let read = |t: &str| flat(guarded(|| parse_to_system_expr(t)));
    compare(run, "system", &txt, whole(ts, |p| p.sys(0)), read(&txt).map(|e| (sys(&e), e.to_string())), |t| read(t).map(|e| sys(&e)));
}
fn state(run: &Run, ts: &[Tok], tight: bool) {
    let txt = text(ts, tight);
    let read = |t: &str| flat(guarded(|| parse_to_state_expr(t)));
    compare(run, "state", &txt, whole(ts, |p| p.state()).map(|s| norm(&s)), read(&txt).map(|e| (norm(&st(&e)), e.to_string())), |t| read(t).map(|e| norm(&st(&e))));
}
fn query(run: &Run, ts: &[Tok], tight: bool) {
    let txt = text(ts, tight);
    let read = |t: &str| flat(guarded(|| parse_to_expression_tree(t)));
    let one = |l: &Vec<Q>| l.iter().map(|q| norm_q(&qu(q))).collect::<Vec<_>>();
    let got = read(&txt);
    compare(
        run,
        "query",
        &txt,
        whole(ts, |p| p.queries()).map(|l| l.iter().map(norm_q).collect::<Vec<_>>()),
        got.as_ref().map(|l| (one(l), l.iter().map(|q| q.to_string()).collect::<Vec<_>>().join(" ; "))),
        |t| read(t).map(|l| one(&l)),
    );
    // the form used by the server and the command line
    let served = guarded(|| parse_to_query(&txt)).ok().map(|l| l.iter().map(|q| qu(q.query.as_ref().unwrap())).collect::<Vec<_>>());
    if served != got.map(|l| l.iter().map(qu).collect()) {
        run.violation(&format!("query | {txt}"), &format!("served as {served:?}"), json!({"kind": "query text", "text": txt}));
    }
}

fn all(run: &Run, name: &str, toks: &[Tok], len: usize, what: &str, f: impl Fn(&Run, &[Tok], bool) + Sync) {
    let n: u64 = (0..=len as u32).map(|l| (toks.len() as u64).pow(l)).sum();
    run.space(name, n * 2, what);
    for l in 0..=len {
        run.for_all((toks.len() as u64).pow(l as u32), |k| {
            let mut d = Dig(k);
            let ts: Vec<Tok> = (0..l).map(|_| *d.of(toks)).collect();
            f(run, &ts, false);
            f(run, &ts, true);
            run.states(2);
            run.trans(l as u64);
        });
    }
}

const A: Tok = (K::Comp("A", None), "A");
const B1: Tok = (K::Comp("Bc_2", Some("1")), "Bc_2[1]");
const OP: Tok = (K::Open, "(");
const CL: Tok = (K::Close, ")");
const AND: Tok = (K::And, "&&");
const OR: Tok = (K::Or, "||");
const QUOT: Tok = (K::Quot, "//");
const QUOT2: Tok = (K::Quot, "\\\\");
const LE: Tok = (K::Cmp("<="), "<=");

fn main() {
    let id = std::env::args().nth(1).expect("property");
    assert_eq!(id, "Q01");
    let run = Run::new(&id);
    let deep = !run.quick();
    let more = deep as usize;

    // systems
    all(&run, "systems", &[A, B1, OP, CL, AND, OR, QUOT], 6 + more, "all token strings as a system", system);
    // every tree of up to four operators, written with as few and with all parentheses
    let leaves: [Tok; 3] = [A, B1, (K::Comp("initOr", Some("x y")), "initOr[x y]")];
    let top = 5 + more;
    for n in 1..=top {
        let ops = [AND, OR, QUOT, QUOT2];
        let total = 4u64.pow(n as u32 - 1) * 2u64.pow(2 * n as u32);
        run.space(&format!("system-chains-{n}"), total, "operator chains with a parenthesis opened or closed at every operand");
        run.for_all(total, |k| {
            let mut d = Dig(k);
            let mut ts = vec![];
            for i in 0..n {
                if i > 0 {
                    ts.push(*d.of(&ops));
                }
                if d.pick(2) == 1 {
                    ts.push(OP);
                }
                ts.push(leaves[i % 3]);
                if d.pick(2) == 1 {
                    ts.push(CL);
                }
            }
            system(&run, &ts, k % 2 == 0);
            run.states(1);
        });
    }

    // states
    let x = (K::Var("A", None, "x"), "A.x");
    let y = (K::Var("Bc_2", Some("1"), "L_0"), "Bc_2[1].L_0");
    let one = (K::Int(1), "1");
    let big = (K::Int(2147483647), "2147483647");
    let tt = (K::Bool(true), "true");
    let not = (K::Not, "!");
    let minus = (K::Minus, "-");
    let plus = (K::Plus, "+");
    let lt = (K::Cmp("<"), "<");
    let eq = (K::Cmp("=="), "==");
    all(&run, "states", &[x, y, one, AND, OR, not, OP, CL, minus, lt], 5 + more, "all token strings as a state", state);
    all(&run, "comparisons", &[x, y, big, (K::Int(0), "0"), minus, plus, LE, (K::Cmp(">="), ">="), (K::Cmp(">"), ">"), eq], 5 + more, "all token strings of a comparison", state);
    // sums and differences
    let terms = [x, y, one, (K::Int(7), "7")];
    for (l, r) in [(3, 1), (1, 3), (2, 2), (4, 1)].into_iter().chain((deep).then_some((4, 3))) {
        let total = 4u64.pow((l + r) as u32) * 2u64.pow((l + r - 2) as u32) * 2;
        run.space(&format!("sums-{l}-{r}"), total, "comparisons of all sums and differences of that many terms");
        run.for_all(total, |k| {
            let mut d = Dig(k);
            let mut ts = vec![];
            for i in 0..l + r {
                if i == l {
                    ts.push(*d.of(&[lt, LE]));
                } else if i > 0 {
                    ts.push(*d.of(&[plus, minus]));
                }
                ts.push(*d.of(&terms));
            }
            state(&run, &ts, k % 2 == 0);
            run.states(1);
        });
    }
    // names that begin like keywords, and operators spelled as words
    let tricky = [
        (K::Var("nothing", None, "orx"), "nothing.orx"),
        (K::Var("trueA", Some("init"), "and1"), "trueA[init].and1"),
        (K::Var("order", None, "falsey"), "order.falsey"),
        (K::And, "and"),
        (K::Or, "or"),
        (K::Not, "not"),
        AND,
        OR,
        (K::Bool(false), "false"),
        tt,
    ];
    all(&run, "names-and-words", &tricky, 4 + more, "names beginning with keywords, operators as words", |r, ts, _| state(r, ts, false));
    for n in 1..=(4 + more) {
        let total = 2u64.pow(n as u32 - 1) * 2u64.pow(2 * n as u32) * 2u64.pow(n as u32);
        run.space(&format!("state-chains-{n}"), total, "chains of && and || with parentheses and negations at every operand");
        run.for_all(total, |k| {
            let mut d = Dig(k);
            let mut ts = vec![];
            for i in 0..n {
                if i > 0 {
                    ts.push(*d.of(&[AND, OR]));
                }
                if d.pick(2) == 1 {
                    ts.push(not);
                }
                if d.pick(2) == 1 {
                    ts.push(OP);
                }
                match i % 3 {
                    0 => ts.push(y),
                    1 => ts.extend([x, minus, (K::Var("A", Some("t2"), "z"), "A[t2].z"), lt, one]),
                    _ => ts.push(tt),
                }
                if d.pick(2) == 1 {
                    ts.push(CL);
                }
            }
            state(&run, &ts, k % 2 == 0);
            run.states(1);
        });
    }

    // whole queries and lists of queries, well-formed and not
    let words = ["refinement:", "consistency:", "reachability:", "implementation:", "get-component:", "prune:", "bisim-minim:", "determinism:", "specification:"];
    let w = |s: &'static str| (K::Word(s), s);
    let at = w("@");
    let to = w("->");
    let semi = w(";");
    let save = w("save-as");
    let init = (K::Comp("init", None), "init");
    // after each keyword, all token strings
    let body = [A, AND, LE, at, to, init, y, save, semi];
    let len = 5 + more;
    for word in words {
        let n: u64 = (0..=len as u32).map(|l| (body.len() as u64).pow(l)).sum();
        run.space(&format!("after {word}"), n, "all token strings behind the keyword");
        for l in 0..=len {
            run.for_all((body.len() as u64).pow(l as u32), |k| {
                let mut d = Dig(k);
                let mut ts = vec![w(word)];
                ts.extend((0..l).map(|_| *d.of(&body)));
                query(&run, &ts, k % 2 == 0);
                run.states(1);
            });
        }
    }
    // queries built from parts, with one token dropped, doubled or replaced at every position
    let systems: Vec<Vec<Tok>> = vec![vec![A], vec![B1, OR, A, AND, B1], vec![OP, A, QUOT, B1, CL, QUOT2, A], vec![A, QUOT, OP, B1, OR, A, CL]];
    let states: Vec<Vec<Tok>> = vec![vec![y], vec![y, AND, x, lt, one], vec![x, minus, x, LE, big, OR, y], vec![not, OP, y, OR, tt, CL, AND, y], vec![OP, y, AND, tt, CL]];
    let mut built: Vec<Vec<Tok>> = vec![];
    for word in words {
        for s in &systems {
            let q = |rest: &[&[Tok]]| [&[w(word)][..], s].into_iter().chain(rest.iter().copied()).flatten().copied().collect::<Vec<Tok>>();
            match word {
                "refinement:" => systems.iter().for_each(|t| built.push(q(&[&[LE], t]))),
                "reachability:" => {
                    for t in &states {
                        built.push(q(&[&[at, init, to], t]));
                        for f in &states {
                            built.push(q(&[&[at], f, &[to], t]));
                        }
                    }
                }
                "get-component:" | "prune:" | "bisim-minim:" => {
                    built.push(q(&[]));
                    built.push(q(&[&[save, (K::Comp("save_1", None), "save_1")]]));
                }
                _ => built.push(q(&[])),
            }
        }
    }
    let bits: Vec<Tok> = vec![A, B1, OP, CL, AND, OR, QUOT, LE, at, to, init, save, semi, y, x, one, tt, not, minus, eq, w("refinement:"), w("prune:")];
    run.space("edited-queries", built.len() as u64, "well-formed queries, and each with one token dropped, inserted or replaced anywhere; pairs of queries as a list");
    run.for_all(built.len() as u64, |k| {
        let q = &built[k as usize];
        query(&run, q, false);
        query(&run, q, true);
        for i in 0..=q.len() {
            for b in &bits {
                let mut t = q.clone();
                t.insert(i, *b);
                query(&run, &t, false);
                if i < q.len() {
                    let mut t = q.clone();
                    t[i] = *b;
                    query(&run, &t, true);
                }
            }
            if i < q.len() {
                let mut t = q.clone();
                t.remove(i);
                query(&run, &t, false);
            }
        }
        let other = &built[(k as usize * 7 + 3) % built.len()];
        query(&run, &[q.clone(), vec![semi], other.clone()].concat(), false);
        run.states((q.len() as u64 * 2 + 1) * bits.len() as u64);
    });
    run.finish()
}
