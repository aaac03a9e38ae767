//! T01, T02: every transition id up to a bound, on the id module alone (nothing else of the crate is
//! needed, so these checks do not depend on the stand-in crates).
#[allow(dead_code, non_snake_case, clippy::all)]
#[path = "/repo/src/TransitionSystems/transition_id.rs"]
mod transition_id;
#[path = "../../harness/src/report.rs"]
#[allow(dead_code)]
mod report;

mod driver {
    use std::cell::RefCell;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
    pub fn quiet_panics() {
        std::panic::set_hook(Box::new(|i| LAST.with(|p| *p.borrow_mut() = i.to_string())));
    }
    pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|p| p.borrow().clone()))
    }
}

use driver::guarded;
use report::Run;
use serde_json::json;
use std::collections::HashMap;
use transition_id::TransitionID as Id;

/// The reference tree. Simple edges carry their text.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum T {
    E(String),
    Absent,
    Conj(Box<T>, Box<T>),
    Comp(Box<T>, Box<T>),
    Quot(Vec<T>, Vec<T>),
}
use T::*;

fn e(s: &str) -> T {
    E(s.into())
}
fn cj(a: &T, b: &T) -> T {
    Conj(Box::new(a.clone()), Box::new(b.clone()))
}
fn cp(a: &T, b: &T) -> T {
    Comp(Box::new(a.clone()), Box::new(b.clone()))
}

impl T {
    fn real(&self) -> Id {
        match self {
            E(s) => Id::Simple(s.clone()),
            Absent => Id::None,
            Conj(a, b) => Id::Conjunction(Box::new(a.real()), Box::new(b.real())),
            Comp(a, b) => Id::Composition(Box::new(a.real()), Box::new(b.real())),
            Quot(l, r) => Id::Quotient(l.iter().map(|x| x.real()).collect(), r.iter().map(|x| x.real()).collect()),
        }
    }
    /// Per component instance, left to right, the leaves found at its position.
    fn leaves(&self) -> Vec<Vec<T>> {
        match self {
            E(_) | Absent => vec![vec![self.clone()]],
            Conj(a, b) | Comp(a, b) => [a.leaves(), b.leaves()].concat(),
            Quot(l, r) => [side(l), side(r)].concat(),
        }
    }
    fn print(&self) -> String {
        let kid = |k: &T, same: fn(&T) -> bool| match k {
            E(s) => s.clone(),
            k if same(k) => k.print(),
            k => format!("({})", k.print()),
        };
        match self {
            E(s) => s.clone(),
            Absent => "NoID".into(),
            Conj(a, b) => {
                let same = |k: &T| matches!(k, Conj(..));
                format!("{}&&{}", kid(a, same), kid(b, same))
            }
            Comp(a, b) => {
                let same = |k: &T| matches!(k, Comp(..));
                format!("{}||{}", kid(a, same), kid(b, same))
            }
            Quot(l, r) => {
                let all = |s: &[T]| s.iter().map(|k| kid(k, |_| false)).collect::<String>();
                format!("{}\\\\{}", all(l), all(r))
            }
        }
    }
    /// Gives every edge a name of its own, in reading order.
    fn number(&mut self, k: &mut usize) {
        match self {
            E(s) => {
                *k += 1;
                *s = format!("{}{}", (b'a' + ((*k - 1) % 26) as u8) as char, if *k > 26 { "'" } else { "" });
            }
            Absent => {}
            Conj(a, b) | Comp(a, b) => {
                a.number(k);
                b.number(k);
            }
            Quot(l, r) => l.iter_mut().chain(r).for_each(|x| x.number(k)),
        }
    }
    fn size(&self) -> u64 {
        match self {
            E(_) | Absent => 1,
            Conj(a, b) | Comp(a, b) => 1 + a.size() + b.size(),
            Quot(l, r) => 1 + l.iter().chain(r).map(|x| x.size()).sum::<u64>(),
        }
    }
}

/// Ids listed on one side describe the same instances; a side without ids is one absent instance.
fn side(ids: &[T]) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![];
    for id in ids {
        for (i, l) in id.leaves().into_iter().enumerate() {
            if i == out.len() {
                out.push(vec![]);
            }
            out[i].extend(l);
        }
    }
    if out.is_empty() {
        out.push(vec![Absent]);
    }
    out
}

fn split(path: &[T]) -> Option<Vec<Vec<Vec<T>>>> {
    if path.is_empty() {
        return Some(vec![]);
    }
    let n = path[0].leaves().len();
    let mut out = vec![vec![]; n];
    for id in path {
        let l = id.leaves();
        if l.len() != n {
            return None;
        }
        for (i, x) in l.into_iter().enumerate() {
            out[i].push(x.into_iter().filter(|t| *t != Absent).collect::<Vec<_>>());
        }
    }
    Some(out)
}

fn back(id: &Id) -> T {
    match id {
        Id::Simple(s) => E(s.clone()),
        Id::None => Absent,
        Id::Conjunction(a, b) => cj(&back(a), &back(b)),
        Id::Composition(a, b) => cp(&back(a), &back(b)),
        Id::Quotient(l, r) => Quot(l.iter().map(back).collect(), r.iter().map(back).collect()),
    }
}

/// All ids one operator above `base`; quotient sides list up to `width` ids of `narrow`.
fn above(base: &[T], narrow: &[T], width: usize) -> Vec<T> {
    let mut out = vec![];
    for a in base {
        for b in base {
            out.push(cj(a, b));
            out.push(cp(a, b));
        }
    }
    let mut sides: Vec<Vec<T>> = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..width {
        last = last
            .iter()
            .flat_map(|s| {
                narrow.iter().map(move |n| {
                    let mut s = s.clone();
                    s.push(n.clone());
                    s
                })
            })
            .collect();
        sides.extend(last.clone());
    }
    for l in &sides {
        for r in &sides {
            out.push(Quot(l.clone(), r.clone()));
        }
    }
    out
}

/// Every tree shape with n leaves over the operators.
fn shapes(n: usize) -> Vec<T> {
    if n == 1 {
        return vec![e("e")];
    }
    let mut out = vec![];
    for k in 1..n {
        for a in shapes(k) {
            for b in shapes(n - k) {
                out.push(cj(&a, &b));
                out.push(cp(&a, &b));
                out.push(Quot(vec![a.clone()], vec![b.clone()]));
            }
        }
    }
    out
}

fn spaces(run: &Run) -> Vec<(&'static str, Vec<T>)> {
    let quick = run.quick();
    let d0 = vec![e("e"), Absent];
    let d1: Vec<T> = d0.iter().cloned().chain(above(&d0, &d0, 3)).collect();
    let d1s: Vec<T> = d0.iter().cloned().chain(above(&d0, &d0, 1)).collect();
    let d1n: Vec<T> = if quick {
        vec![e("e"), Absent, cj(&e("e"), &e("e")), cp(&e("e"), &Absent), Quot(vec![e("e")], vec![]), Quot(vec![], vec![e("e"), e("e")])]
    } else {
        d1s.clone()
    };
    let d2 = above(&d1, &d1n, 2);
    let d2s: Vec<T> = above(&d1s, &d1n[..if quick { 4 } else { 8 }], 1);
    // three levels: a slice of level two under every operator next to level one
    let mut d3 = vec![];
    for a in &d2s {
        for b in &d1s {
            for (x, y) in [(a, b), (b, a)] {
                d3.push(cj(x, y));
                d3.push(cp(x, y));
                d3.push(Quot(vec![x.clone()], vec![y.clone()]));
            }
        }
        d3.push(Quot(vec![], vec![a.clone()]));
        d3.push(Quot(vec![a.clone()], vec![]));
        d3.push(Quot(vec![a.clone(), a.clone()], vec![a.clone()]));
    }
    let mut deep = vec![];
    for n in 1..=if quick { 7 } else { 8 } {
        deep.extend(shapes(n));
    }
    vec![("two-levels", d2), ("three-levels", d3), ("shapes", deep), ("chains", chains(if quick { 9 } else { 11 })), ("wide-quotients", wide(quick))]
}

/// Every operator sequence of n operators, nested to the left, to the right, and by turns.
fn chains(most: usize) -> Vec<T> {
    let mut out = vec![];
    for n in [4, most] {
        for c in 0..3usize.pow(n as u32) {
            for form in 0..3 {
                let (mut t, mut c) = (e("e"), c);
                for i in 0..n {
                    let left = form == 0 || form == 2 && i % 2 == 0;
                    let (a, b) = if left { (t, e("e")) } else { (e("e"), t) };
                    t = match c % 3 {
                        0 => cj(&a, &b),
                        1 => cp(&a, &b),
                        _ => Quot(vec![a], vec![b]),
                    };
                    c /= 3;
                }
                out.push(t);
            }
        }
    }
    out
}

/// All lists of up to n members.
fn lists(of: &[T], n: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|l| of.iter().map(move |t| l.iter().chain([t]).cloned().collect())).collect();
        all.extend(last.clone());
    }
    all
}

/// Quotients with many ids on a side, of one and of several instances, alone and inside other ids.
fn wide(quick: bool) -> Vec<T> {
    let simple = lists(&[e("e"), Absent], 5);
    let q = Quot(vec![], vec![e("e")]);
    let mixed = [e("e"), cj(&e("e"), &Absent), cp(&e("e"), &cp(&e("e"), &e("e"))), Quot(vec![e("e"), e("e")], vec![])];
    let several = lists(&mixed, 3);
    let few = lists(&mixed, if quick { 1 } else { 2 });
    let mut out = vec![];
    for (a, b) in [(&simple, &simple), (&several, &several)] {
        for l in a {
            for r in b {
                out.push(Quot(l.clone(), r.clone()));
            }
        }
    }
    for l in &several {
        for r in &few {
            for t in [Quot(l.clone(), r.clone()), Quot(r.clone(), l.clone())] {
                for o in [&q, &e("e")] {
                    out.extend([cj(&t, o), cp(o, &t), Quot(vec![t.clone(), o.clone()], vec![]), Quot(vec![o.clone()], vec![t.clone(), t.clone()])]);
                }
            }
        }
    }
    out
}

fn show(t: &T) -> String {
    format!("{t:?}").replace("Box::new", "")
}

/// A chain of many leaves; some have no edge.
fn many(len: usize, bend: u64, ops: u64, edges: u64) -> T {
    let leaf = |i: usize| if (i as u64 + edges) % 4 == 3 { Absent } else { e("a") };
    let join = |i: usize, l: &T, r: &T| match (ops + i as u64) % 3 {
        0 => cj(l, r),
        1 => cp(l, r),
        _ if ops == 1 => Quot(vec![l.clone()], vec![r.clone()]),
        _ => cp(l, r),
    };
    let mut parts: Vec<T> = (0..len).map(leaf).collect();
    while parts.len() > 1 {
        match bend {
            0 => {
                let (l, r) = (parts.remove(0), parts.remove(0));
                parts.insert(0, join(parts.len(), &l, &r));
            }
            1 => {
                let (r, l) = (parts.pop().unwrap(), parts.pop().unwrap());
                parts.push(join(parts.len(), &l, &r));
            }
            _ => parts = parts.chunks(2).enumerate().map(|(i, c)| if c.len() == 2 { join(i, &c[0], &c[1]) } else { c[0].clone() }).collect(),
        }
    }
    parts.remove(0)
}

fn t01(run: &Run) {
    for (name, ids) in spaces(run) {
        run.space(name, ids.len() as u64, "ids with numbered edges: leaves per instance against the reference");
        run.for_all(ids.len() as u64, |k| {
            let mut t = ids[k as usize].clone();
            // edges of one name, too
            check_path(run, "one-name", &[t.clone(), t.clone()]);
            if t.real().get_leaves().iter().map(|l| l.iter().map(back).collect::<Vec<_>>()).collect::<Vec<_>>() != t.leaves() {
                run.violation(&format!("leaves-one-name | {}", show(&t)), "get_leaves of an id whose edges have one name",
                    json!({"kind": "id", "id": show(&t), "expected": format!("{:?}", t.leaves())}));
            }
            t.number(&mut 0);
            run.states(t.size());
            let id = t.real();
            let want = t.leaves();
            let got = guarded(|| id.get_leaves()).map(|v| v.iter().map(|l| l.iter().map(back).collect::<Vec<_>>()).collect::<Vec<_>>());
            run.trace(&format!("instances:{}", want.len().min(9)));
            if k % 20011 == 0 {
                run.sample(json!({"id": t.print(), "leaves": format!("{want:?}")}));
            }
            if got.as_ref() != Ok(&want) {
                run.violation(&format!("leaves | {}", show(&t)), &format!("get_leaves gives {got:?}, the instances are {want:?}"),
                    json!({"kind": "id", "id": show(&t), "expected": format!("{want:?}"), "observed": format!("{got:?}")}));
            }
            // the same id twice is a path, too
            check_path(run, "same-twice", &[t.clone(), t]);
        });
    }
    // paths over ids of equal and of different shapes
    let a = e("e");
    let n = Absent;
    let pool: Vec<T> = {
        let mut v = vec![
            a.clone(), n.clone(),
            cj(&a, &a), cj(&a, &n), cp(&n, &a), cp(&n, &n),
            Quot(vec![a.clone()], vec![a.clone()]), Quot(vec![], vec![a.clone()]), Quot(vec![a.clone()], vec![]), Quot(vec![], vec![]),
            Quot(vec![a.clone(), a.clone()], vec![a.clone(), n.clone()]),
            cj(&a, &cp(&a, &n)), cp(&cj(&n, &a), &a), Quot(vec![cj(&a, &a), cj(&a, &n)], vec![a.clone()]),
            cp(&Quot(vec![], vec![a.clone()]), &a), Quot(vec![a.clone()], vec![cp(&a, &a), cp(&n, &a)]),
            cj(&cj(&a, &n), &cp(&a, &a)), cp(&a, &cp(&a, &cp(&n, &a))), Quot(vec![cp(&a, &a)], vec![cj(&a, &a)]),
        ];
        if !run.quick() {
            v.extend([cp(&cp(&a, &a), &cp(&n, &a)), Quot(vec![n.clone()], vec![cp(&a, &cj(&a, &a))]), cj(&Quot(vec![], vec![]), &Quot(vec![a.clone()], vec![])),
                Quot(vec![n.clone(), a.clone()], vec![n.clone()]), cj(&Quot(vec![a.clone()], vec![a.clone(), a.clone()]), &n)]);
        }
        v
    };
    let m = pool.len() as u64;
    for len in 0..=5u32 {
        run.space(&format!("paths-{len}"), m.pow(len), "every path over a pool of ids of one to four instances");
        run.for_all(m.pow(len), |k| {
            let mut k = k;
            let mut num = 0;
            let path: Vec<T> = (0..len)
                .map(|_| {
                    let mut t = pool[(k % m) as usize].clone();
                    k /= m;
                    t.number(&mut num);
                    t
                })
                .collect();
            check_path(run, "path", &path);
        });
    }
    // long paths of one system, with one deviating id at every position
    let one = [cj(&a, &a), cj(&a, &n), cj(&n, &a), cj(&n, &n)];
    let odd = [a.clone(), cp(&a, &cj(&a, &a)), Quot(vec![], vec![])];
    let len = if run.quick() { 8u32 } else { 10 };
    let c = 4u64.pow(len);
    run.space("long-paths", c, "paths of eight steps of one system (thorough: ten), alone and with one id replaced at each place");
    run.for_all(c, |k| {
        let mut k = k;
        let mut num = 0;
        let mut path: Vec<T> = vec![];
        for _ in 0..len {
            let mut t = one[(k % 4) as usize].clone();
            k /= 4;
            t.number(&mut num);
            path.push(t);
        }
        check_path(run, "long", &path);
        for o in &odd {
            for at in 0..len as usize {
                let mut p = path.clone();
                p[at] = o.clone();
                p[at].number(&mut num);
                check_path(run, "long-odd", &p);
            }
        }
    });
}

/// Paths of up to forty steps over two ids of one system, with one id of another system at every place.
fn very_long(run: &Run) {
    let a = e("e");
    let pairs = [(a.clone(), Absent), (cp(&a, &a), cp(&Absent, &a)), (cj(&a, &cp(&a, &Absent)), cj(&Absent, &cp(&a, &a))), (Quot(vec![a.clone()], vec![]), Quot(vec![Absent], vec![a.clone(), a.clone()]))];
    let odd = [a.clone(), cp(&a, &cj(&a, &a)), Quot(vec![], vec![]), cj(&cj(&a, &a), &cj(&a, &a))];
    let n = 41 * 4 * 4;
    run.space("very-long-paths", n, "paths of up to forty steps, four patterns over four pairs of ids, alone and with one id replaced at every place");
    run.for_all(n, |k| {
        let (len, pair, pattern) = ((k / 16) as usize, &pairs[(k % 4) as usize], k / 4 % 4);
        let mut num = 0;
        let path: Vec<T> = (0..len)
            .map(|i| {
                let first = match pattern {
                    0 => true,
                    1 => i % 2 == 0,
                    2 => i < len / 2,
                    _ => i + 1 == len,
                };
                let mut t = if first { pair.0.clone() } else { pair.1.clone() };
                t.number(&mut num);
                t
            })
            .collect();
        check_path(run, "very-long", &path);
        for o in &odd {
            for at in 0..len {
                let mut p = path.clone();
                p[at] = o.clone();
                p[at].number(&mut num);
                check_path(run, "very-long-odd", &p);
            }
        }
    });
    // names that look like something else
    // systems of many components
    let n = 96 * 9 * 3;
    run.space("wide", n, "chains of up to 96 leaves, bent left, right or balanced, with three patterns of operators, in paths of three");
    run.for_all(n, |k| {
        let (len, bend, ops, edges) = ((k / 27) as usize + 1, k % 3, k / 3 % 3, k / 9 % 3);
        let t = many(len, bend, ops, edges);
        let mut num = 0;
        let path: Vec<T> = (0..3)
            .map(|i| {
                let mut t = if i == 1 { many(len, bend, ops, edges + 1) } else { t.clone() };
                t.number(&mut num);
                t
            })
            .collect();
        check_path(run, "wide", &path);
        check_path(run, "wide", &[path[0].clone(), many(len + 1, bend, ops, edges)]);
        run.states(t.size());
    });
    let names = ["", "NoID", "None", "a&&b", "(a)", " ", "\\\\", "e\u{f8}"];
    let ids: Vec<T> = names.iter().map(|s| e(s)).chain([Absent]).collect();
    let m = ids.len() as u64;
    run.space("odd-names", m * m * m * 3, "edge names that look like operators, absent ids or nothing");
    run.for_all(m * m * m * 3, |k| {
        let (x, y, z) = (&ids[(k % m) as usize], &ids[(k / m % m) as usize], &ids[(k / m / m % m) as usize]);
        let t = match k / m / m / m {
            0 => cj(x, &cp(y, z)),
            1 => cp(&cj(x, y), z),
            _ => Quot(vec![x.clone(), y.clone()], vec![z.clone()]),
        };
        let got = guarded(|| t.real().get_leaves()).map(|v| v.iter().map(|l| l.iter().map(back).collect::<Vec<_>>()).collect::<Vec<_>>());
        if got.as_ref() != Ok(&t.leaves()) {
            run.violation(&format!("leaves | {}", show(&t)), &format!("get_leaves gives {got:?}, the instances are {:?}", t.leaves()),
                json!({"kind": "id", "id": show(&t), "expected": format!("{:?}", t.leaves()), "observed": format!("{got:?}")}));
        }
        check_path(run, "odd-names", &[t.clone(), t]);
    });
}

fn check_path(run: &Run, space: &str, path: &[T]) {
    run.states(path.iter().map(|t| t.size()).sum());
    run.trans(path.len() as u64);
    let want = split(path);
    let real: Vec<Id> = path.iter().map(|t| t.real()).collect();
    let got = guarded(|| Id::split_into_component_lists(&real));
    run.trace(&format!("{space}:{}", if want.is_some() { "split" } else { "error" }));
    let ok = match (&got, &want) {
        (Ok(Ok(g)), Some(w)) => {
            &g.iter().map(|c| c.iter().map(|s| s.iter().map(back).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>() == w
        }
        (Ok(Err(_)), None) => true,
        _ => false,
    };
    if !ok {
        let shown: Vec<String> = path.iter().map(show).collect();
        run.violation(&format!("{space} | {}", shown.join(" ; ")), &format!("splitting gives {got:?}, expected {want:?}"),
            json!({"kind": "path", "path": shown, "expected": format!("{want:?}"), "observed": format!("{got:?}")}));
    }
}

fn t02(run: &Run) {
    for (name, ids) in spaces(run) {
        run.space(name, ids.len() as u64, "printed form of every id against the reference printer; change of any one edge changes it");
        run.for_all(ids.len() as u64, |k| {
            let mut t = ids[k as usize].clone();
            t.number(&mut 0);
            run.states(t.size());
            let id = t.real();
            let want = t.print();
            let got = guarded(|| id.to_string());
            run.trace(match &t { E(_) => "edge", Absent => "absent", Conj(..) => "conjunction", Comp(..) => "composition", Quot(..) => "quotient" });
            if k % 20011 == 0 {
                run.sample(json!({"id": show(&t), "printed": want}));
            }
            if got.as_ref() != Ok(&want) {
                run.violation(&format!("print | {}", show(&t)), &format!("prints {got:?}, expected {want:?}"),
                    json!({"kind": "id", "id": show(&t), "expected": want, "observed": format!("{got:?}")}));
                return;
            }
            // equality follows structure and edges: compare with every variant that differs in one leaf
            let mut vs = vec![];
            variants(&t, &mut vs);
            let hash = |i: &Id| {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                i.hash(&mut h);
                h.finish()
            };
            if guarded(|| id == t.real() && id.clone() == id && hash(&id) == hash(&t.real()) && hash(&id) == hash(&id.clone())) != Ok(true) {
                run.violation(&format!("equal | {}", show(&t)), "an id differs from its copy", json!({"kind": "id", "id": show(&t)}));
            }
            for v in vs {
                run.trans(1);
                let o = v.real();
                let same = guarded(|| (o == id, o.to_string() == want));
                if same != Ok((false, false)) {
                    run.violation(&format!("differ | {} | {}", show(&t), show(&v)), &format!("different ids: (equal, print alike) = {same:?}"),
                        json!({"kind": "ids", "id": show(&t), "other": show(&v)}));
                    return;
                }
            }
        });
    }
    // edge names of other sizes, and no two ids of one shape and equal name lengths print alike
    let names = ["E1", "E2", "longer edge-name 3", "input_L0_a", "", "NoID", "a&&b", "(\u{f8})", " a b ", "\te\n", "e1", "{}"];
    let mut ids = vec![];
    let d0: Vec<T> = names.iter().map(|s| e(s)).chain([Absent]).collect();
    ids.extend(above(&d0, &d0, 2));
    ids.extend(above(&above(&d0, &d0, 1)[..60], &d0, 1));
    for len in 1..=96 {
        for k in 0..27 {
            ids.push(many(len, k % 3, k / 3 % 3, k / 9));
        }
    }
    run.space("names", ids.len() as u64, "other edge names, and chains of up to 96 leaves");
    run.for_all(ids.len() as u64, |k| {
        let t = &ids[k as usize];
        run.states(t.size());
        let got = guarded(|| t.real().to_string());
        run.trace("names");
        if got != Ok(t.print()) {
            run.violation(&format!("print | {}", show(t)), &format!("prints {got:?}, expected {:?}", t.print()),
                json!({"kind": "id", "id": show(t), "expected": t.print(), "observed": format!("{got:?}")}));
        }
    });
    let d0 = vec![e("a"), e("b"), Absent];
    let all = above(&above(&d0, &d0, 1), &d0, 1);
    run.space("injective", all.len() as u64, "ids of equal shape, all pairs by printed form");
    let mut seen: HashMap<String, T> = HashMap::new();
    fn shape(t: &T) -> T {
        match t {
            E(_) | Absent => Absent,
            Conj(a, b) => cj(&shape(a), &shape(b)),
            Comp(a, b) => cp(&shape(a), &shape(b)),
            Quot(l, r) => Quot(l.iter().map(shape).collect(), r.iter().map(shape).collect()),
        }
    }
    for t in &all {
        run.states(t.size());
        let Ok(p) = guarded(|| t.real().to_string()) else { continue };
        run.trace("injective");
        if let Some(o) = seen.get(&p) {
            if shape(o) == shape(t) && o != t {
                run.violation(&format!("alike | {} | {}", show(o), show(t)), &format!("two ids of one shape print {p}"), json!({"kind": "ids", "id": show(t), "other": show(o)}));
            }
        }
        seen.insert(p, t.clone());
    }
}

/// The ids that differ in exactly one leaf.
fn variants(t: &T, out: &mut Vec<T>) {
    match t {
        E(s) => {
            out.push(Absent);
            out.push(E(if s == "z" { "y".into() } else { "z".into() }));
            for o in [s.to_uppercase(), s.to_lowercase(), format!("{s} "), format!("{s}'")] {
                if o != *s {
                    out.push(E(o));
                }
            }
        }
        Absent => out.push(e("z")),
        Conj(a, b) | Comp(a, b) => {
            let mk = |x: &T, y: &T| if matches!(t, Conj(..)) { cj(x, y) } else { cp(x, y) };
            let (mut l, mut r) = (vec![], vec![]);
            variants(a, &mut l);
            variants(b, &mut r);
            out.extend(l.iter().map(|x| mk(x, b)));
            out.extend(r.iter().map(|y| mk(a, y)));
            out.push(if matches!(t, Conj(..)) { cp(a, b) } else { cj(a, b) });
        }
        Quot(l, r) => {
            for (is_left, s) in [(true, l), (false, r)] {
                for i in 0..s.len() {
                    let mut v = vec![];
                    variants(&s[i], &mut v);
                    for x in v {
                        let mut s2 = s.clone();
                        s2[i] = x;
                        out.push(if is_left { Quot(s2, r.clone()) } else { Quot(l.clone(), s2) });
                    }
                }
            }
        }
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "T01" => {
            t01(&run);
            very_long(&run);
        }
        "T02" => t02(&run),
        _ => panic!("unknown property"),
    }
    run.finish()
}
