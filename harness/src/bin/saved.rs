//! S01 Saved components behave like the system they were saved from.
use mc::cat::*;
use mc::driver::*;
use mc::model::*;
use mc::project::*;
use mc::region::*;
use mc::report::*;
use mc::sem::*;
use serde_json::json;
use std::collections::{BTreeSet, HashMap};

/// Timed bisimilarity of a system and a component on the joint region graph. An input the system cannot
/// take may be ignored by the component.
fn bisimilar(run: &Run, e: &Expr, c: &Comp) -> Result<(), String> {
    let mut al = Alloc::default();
    let s = Ts::build(e, &mut al).ok_or("undefined")?;
    let t = Ts::build(&leaf(c), &mut al).ok_or("the component has an action in both directions")?;
    let n = al.clocks;
    if n > MAXC {
        return Err(format!("the component has {} clocks: {:?}", c.clocks.len(), c.clocks));
    }
    let newi = |a: &String| a.starts_with("quotient_new_input");
    let ins = |t: &Ts| t.inputs.iter().filter(|a| !newi(a)).cloned().collect::<BTreeSet<_>>();
    if ins(&s) != ins(&t) || !t.inputs.is_subset(&s.inputs) || !t.outputs.is_subset(&s.outputs) {
        return Err(format!("actions {:?} {:?} became {:?} {:?}", s.inputs, s.outputs, t.inputs, t.outputs));
    }
    let b = Bound { m: s.max_const().max(t.max_const()), diag: s.has_diag() || t.has_diag() };
    let (mut ss, mut tt) = (Sem::new(&s, n, b), Sem::new(&t, n, b));
    let (ls, lt) = match (ss.init(), tt.init()) {
        (Some(a), Some(b)) => (a.0, b.0),
        (None, None) => return Ok(()),
        (a, b) => return Err(format!("initial state: system {}, component {}", a.is_some(), b.is_some())),
    };
    type P = (L, L, Reg);
    struct Node {
        /// None: refuted, with the reason
        bad: Option<String>,
        delay: Option<usize>,
        /// per transition of one side the alternatives of the other
        need: Vec<(String, Vec<usize>)>,
    }
    let mut index: HashMap<P, usize> = HashMap::new();
    let mut nodes: Vec<Node> = vec![];
    let mut todo: Vec<P> = vec![];
    let mut id = |p: P, nodes: &mut Vec<Node>, todo: &mut Vec<P>| -> usize {
        let k = index.len();
        *index.entry(p.clone()).or_insert_with(|| {
            nodes.push(Node { bad: None, delay: None, need: vec![] });
            todo.push(p);
            k
        })
    };
    id((ls, lt, Reg::zero(n).canon(b)), &mut nodes, &mut todo);
    let acts: BTreeSet<String> = s.actions().union(&t.actions()).cloned().collect();
    let mut i = 0;
    while i < todo.len() {
        let (ls, lt, r) = todo[i].clone();
        let (is, it) = (ss.info(&ls), tt.info(&lt));
        if let Some(r2) = r.succ(b) {
            let (x, y) = (r2.eval(&is.inv), r2.eval(&it.inv));
            if x != y {
                nodes[i].bad = Some(format!("at {} the system {} delay, the component {}", r.show(), can(x), can(y)));
            } else if x {
                nodes[i].delay = Some(id((ls.clone(), lt.clone(), r2), &mut nodes, &mut todo));
                run.trans(1);
            }
        }
        for a in &acts {
            let en = |sem: &Sem, info: &LocInfo| -> Vec<Tr> {
                match sem.acts.iter().position(|x| x == a) {
                    Some(ai) => info.tr[ai].iter().filter(|t| r.eval(&t.guard)).cloned().collect(),
                    None => vec![],
                }
            };
            let (es, et) = (en(&ss, &is), en(&tt, &it));
            let input = s.inputs.contains(a);
            if es.is_empty() && input {
                if let Some(u) = et.iter().find(|u| u.dst != lt || !u.resets.is_empty()) {
                    nodes[i].bad = Some(format!("the component reacts to {a} at {} (to {:?})", r.show(), u.dst));
                }
                continue;
            }
            let mut grid = vec![vec![0usize; et.len()]; es.len()];
            for (p, x) in es.iter().enumerate() {
                for (q, y) in et.iter().enumerate() {
                    let r2 = r.assign(&x.resets, b).assign(&y.resets, b);
                    grid[p][q] = id((x.dst.clone(), y.dst.clone(), r2), &mut nodes, &mut todo);
                    run.trans(1);
                }
            }
            for g in &grid {
                nodes[i].need.push((format!("the component lacks {a} at {}", r.show()), g.clone()));
            }
            for q in 0..et.len() {
                nodes[i].need.push((format!("the component has an extra {a} at {}", r.show()), grid.iter().map(|g| g[q]).collect()));
            }
        }
        i += 1;
    }
    run.states(nodes.len() as u64);
    loop {
        let mut changed = false;
        for i in 0..nodes.len() {
            if nodes[i].bad.is_some() {
                continue;
            }
            let fail = match nodes[i].delay {
                Some(d) if nodes[d].bad.is_some() => nodes[d].bad.clone(),
                _ => nodes[i].need.iter().find(|(_, alt)| alt.iter().all(|j| nodes[*j].bad.is_some())).map(|(why, alt)| match alt.last() {
                    Some(j) => nodes[*j].bad.clone().unwrap(),
                    None => why.clone(),
                }),
            };
            if fail.is_some() {
                nodes[i].bad = fail;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    match nodes[0].bad.clone() {
        Some(why) => Err(why),
        None => Ok(()),
    }
}

fn can(b: bool) -> &'static str {
    if b {
        "can"
    } else {
        "cannot"
    }
}

fn operand_clocks(e: &Expr) -> (usize, usize) {
    let mut cs = vec![];
    e.comps(&mut cs);
    (cs.iter().map(|c| c.clocks.len()).sum(), cs.len())
}

fn comps_of(e: &Expr) -> (Vec<String>, Vec<String>) {
    let mut cs = vec![];
    e.comps(&mut cs);
    let mut seen = BTreeSet::new();
    let (mut js, mut shown) = (vec![], vec![]);
    for c in cs {
        if seen.insert(c.name.clone()) {
            js.push(c.json());
            shown.push(c.show());
        }
    }
    (js, shown)
}

fn save(run: &Run, space: &str, kind: &str, k: u64, e: &Expr) {
    let (js, shown) = comps_of(e);
    let q = format!("{kind}: {} save-as Saved", e.text());
    let (ts, n) = Ts::of(e).expect("defined");
    if ts.init().is_none() {
        return;
    }
    for reduce in [false, true] {
        let got = ask(&js, &q, reduce);
        run.trace(&format!("{kind}:{}", got.class()));
        let verdict = match &got {
            Ans::Component(j) => match Comp::from_json(j) {
                Err(w) => Err(format!("the file cannot be read: {w}")),
                Ok(c) if c.name != "Saved" => Err(format!("the component is named {}", c.name)),
                Ok(c) => {
                    if k % 5003 == 0 {
                        run.sample(json!({"space": space, "query": q, "models": shown, "saved": c.show()}));
                    }
                    bisimilar(run, e, &c).map_err(|w| format!("{w}; saved as {}", c.show()))
                }
            },
            // quotients and conjunctions of operands that do not go together are refused
            Ans::Model(_) => {
                let f = facts(&ts, n);
                let fits = f.has_init && !f.reach_stuck && f.any_overlap.is_empty();
                if fits && matches!(e, Expr::C(_) | Expr::Par(..)) {
                    Err("refused".into())
                } else {
                    Ok(())
                }
            }
            // only systems of deterministic and consistent components can be pruned
            Ans::Error(_) | Ans::Status(_) if kind == "prune" && !sound(e) => Ok(()),
            other => Err(other.brief()),
        };
        if let Err(w) = verdict {
            run.violation(
                &format!("{space} | {q} | reduce={reduce} | {}", shown.join(" | ")),
                &format!("{q}: {w}"),
                query_replay(&js, &q, reduce, &shown, "a component that behaves like the system", &got.brief()),
            );
        }
    }
}

/// Every component of the system is deterministic and consistent.
fn sound(e: &Expr) -> bool {
    let mut cs = vec![];
    e.comps(&mut cs);
    cs.iter().all(|c| {
        let (ts, n) = Ts::of(&leaf(c)).expect("defined");
        let f = facts(&ts, n);
        f.has_init && !f.reach_stuck && f.any_overlap.is_empty()
    })
}

fn catalogue(name: &str, o: &str, i: &str) -> Vec<Comp> {
    let no: Vec<Upd> = vec![vec![], vec![(0, 0)], vec![(0, 1)]];
    let (oo, ii) = (format!("{o}!"), format!("{i}?"));
    let mut v = one_loc(name, o, i, &[F::T, le(2), gt(1)], &no[..2], &[F::T, le(2)]);
    v.extend(two_loc(name, &ii, &[(oo.as_str(), 0), (oo.as_str(), 1)], &[F::T, ge(1)], &no, &[F::T, eq(2)], &no[..2], &[F::T, lt(2)], &[F::T, le(2)]));
    v.extend(two_loc(name, &oo, &[(ii.as_str(), 0), (oo.as_str(), 0)], &[F::T, le(0)], &no, &[or(lt(1), gt(1))], &no[..2], &[F::T, le(2)], &[F::T, lt(1)]));
    // two clocks
    for g in [or(lt(1), c(1, Op::Gt, 1)), F::D(0, 1, Op::Le, 1), F::D(1, 0, Op::Gt, 0), and(ge(1), c(1, Op::Le, 2))] {
        for r in [vec![(1, 0)], vec![(0, 0), (1, 1)]] {
            for inv in [F::T, le(2)] {
                let mut c = Comp::new(name, 2);
                c.loc(inv.clone());
                // one that can only be entered from some time on
                c.loc(if inv == F::T { mc::model::c(1, Op::Ge, 1) } else { F::T });
                c.edge(0, &oo, g.clone(), &r, 1);
                c.edge(1, &ii, F::T, &[(0, 0)], 0);
                v.push(c);
            }
        }
    }
    // the special locations
    for kind in [Kind::Universal, Kind::Inconsistent] {
        for g in [F::T, ge(1)] {
            for inv in [F::T, le(1)] {
                let mut c = Comp::new(name, 1);
                c.loc(F::T);
                c.loc_kind(kind);
                c.locs[1].inv = inv;
                c.edge(0, &ii, g.clone(), &[], 1);
                c.edge(0, &oo, F::T, &[(0, 0)], 0);
                v.push(c);
            }
        }
    }
    // an unreachable location, nondeterminism, no clock, the initial location last
    let mut c = Comp::new(name, 1);
    c.loc(F::T);
    c.loc(le(1));
    c.edge(1, &oo, F::T, &[], 0);
    c.edge(0, &oo, ge(2), &[], 0);
    v.push(c.clone());
    c.locs[0].kind = Kind::Normal;
    c.locs[1].kind = Kind::Initial;
    v.push(c);
    let mut c = Comp::new(name, 1);
    c.loc(F::T);
    c.loc(le(2));
    c.edge(0, &oo, le(1), &[], 1);
    c.edge(0, &oo, ge(1), &[(0, 0)], 0);
    c.edge(1, &ii, F::T, &[], 0);
    v.push(c);
    let mut c = Comp::new(name, 0);
    c.loc(F::T);
    c.loc(F::T);
    c.edge(0, &ii, F::T, &[], 1);
    c.edge(1, &oo, F::T, &[], 0);
    v.push(c);
    v
}

/// The same component with other clock names.
fn clocks(c: &Comp, names: &[&str]) -> Comp {
    let mut c = c.clone();
    for (i, n) in names.iter().enumerate().take(c.clocks.len()) {
        c.clocks[i] = n.to_string();
    }
    c
}

fn every(v: &[Comp], from: usize, step: usize) -> Vec<Comp> {
    v.iter().skip(from).step_by(step).cloned().collect()
}

fn s01(run: &Run, kind: &str) {
    let quick = run.quick();
    let singles = catalogue("A", "o", "i");
    run.space("single", singles.len() as u64, "single components of a catalogue with up to two locations and clocks, special locations, nondeterminism");
    run.for_all(singles.len() as u64, |k| save(run, "single", kind, k, &leaf(&singles[k as usize])));
    let s = if quick { 3 } else { 1 };
    let a_s = every(&singles, 0, s);
    let bs = every(&catalogue("B", "i", "m"), 1, s);
    let cs = every(&catalogue("B", "o", "i"), 2, s);
    let n = (a_s.len() * (bs.len() + cs.len())) as u64;
    run.space("pairs", n, "A || B that talk to each other, and A && B");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let a = leaf(d.of(&a_s));
        let j = d.pick(bs.len() + cs.len());
        let e = if j < bs.len() { par(a, leaf(&bs[j])) } else { conj(a, leaf(&cs[j - bs.len()])) };
        if Ts::of(&e).is_some() {
            save(run, "pairs", kind, k, &e);
        }
    });
    // quotients: one side per alphabet pattern
    let limit = if quick { 3 } else { 4 };
    let qs = every(&catalogue("S", "o", "i"), 0, 2 * s);
    let q2 = every(&catalogue("S", "m", "i"), 1, 2 * s);
    let n = (a_s.len() * (qs.len() + q2.len())) as u64;
    run.space("quotients", n, "A // S with common outputs and with an output of S alone");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let a = leaf(d.of(&a_s));
        let j = d.pick(qs.len() + q2.len());
        let e = quot(a, leaf(if j < qs.len() { &qs[j] } else { &q2[j - qs.len()] }));
        let (js, _) = operand_clocks(&e);
        if js < limit && Ts::of(&e).is_some() {
            save(run, "quotients", kind, k, &e);
        }
    });
    // clock names that meet after renaming, three and four components, one component twice
    let names = ["x", "x1", "x2", "x11", "y", "quotient_clock"];
    let mut base = Comp::new("A", 2);
    base.loc(c(1, Op::Le, 2));
    base.loc(F::T);
    base.edge(0, "o!", le(1), &[(0, 0)], 1);
    base.edge(1, "i?", c(1, Op::Ge, 1), &[(1, 0)], 0);
    let mut plain = Comp::new("B", 1);
    plain.loc(le(2));
    plain.edge(0, "m!", ge(1), &[(0, 0)], 0);
    let mut third = Comp::new("C", 1);
    third.loc(F::T);
    third.edge(0, "o?", le(1), &[(0, 0)], 0);
    let n = 6u64 * 6 * 6 * 6 * 5;
    run.space("clock-names", n, "two and three components whose clocks have the same or clashing names");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let (n1, n2, n3, n4) = (*d.of(&names), *d.of(&names), *d.of(&names), *d.of(&names));
        if n1 == n2 {
            return;
        }
        let form = d.pick(5);
        let a = clocks(&base, &[n1, n2]);
        let b = clocks(&plain, &[n3]);
        let c3 = clocks(&third, &[n4]);
        let (la, lb, lc) = (leaf(&a), leaf(&b), leaf(&c3));
        let e = match form {
            0 => par(par(la, lb), lc),
            1 => par(lb, par(lc, la)),
            2 => par(lb, la),
            3 => {
                let mut s = clocks(&plain, &[n3]).renamed("S");
                s.edges[0].act = "o".into();
                quot(la, leaf(&s))
            }
            _ => par(conj(lb.clone(), lb), lc),
        };
        save(run, "clock-names", kind, k, &e);
    });
    projects(run, kind);
}

/// A component saved in a project answers later questions alike: from the loader that saved it, from the
/// project opened again, and sent along with a request.
fn projects(run: &Run, kind: &str) {
    let step = if run.quick() { 5 } else { 1 };
    let a_s = every(&catalogue("A", "o", "i"), 0, step);
    let bs = every(&catalogue("B", "i", "m"), 1, step);
    let mut watch = Comp::new("W", 1);
    watch.loc(F::T);
    watch.edge(0, "o?", ge(1), &[(0, 0)], 0);
    let n = (a_s.len() * (1 + bs.len()) * 2) as u64;
    run.space("projects", n, "components and compositions saved in a project, then six questions about the saved component");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let reduce = d.pick(2) == 1;
        let a = d.of(&a_s);
        let j = d.pick(1 + bs.len());
        let (e, comps) = match j {
            0 => (leaf(a), vec![a, &watch]),
            _ => (par(leaf(a), leaf(&bs[j - 1])), vec![a, &bs[j - 1], &watch]),
        };
        let Some((ts, n)) = Ts::of(&e) else { return };
        if !facts(&ts, n).has_init {
            return;
        }
        let folder = json_project(&comps, &system_decl(&comps), &[]);
        let q = format!("{kind}: {} save-as Saved", e.text());
        let shown: Vec<String> = comps.iter().map(|c| c.show()).collect();
        let fail = |what: &str, q: &str, want: String, got: String| {
            run.violation(
                &format!("projects | {} | {q} | reduce={reduce} | {}", e.text(), shown.join(" | ")),
                &format!("{} saved in a project, {q}: {what}", e.text()),
                json!({"kind": "text", "models": shown, "query": q, "reduce": reduce, "expected": want, "observed": got}),
            );
        };
        let mut loader = match loader_of(&folder.0, reduce) {
            Ok(l) => l,
            Err(a) => return fail("the project cannot be opened", &q, "a loader".into(), a.brief()),
        };
        // every other time the name is taken by another saved component, which has been asked about
        if j % 2 == 0 {
            run_query(&mut *loader, &parsed(&format!("{kind}: W save-as Saved")));
            run_query(&mut *loader, &parsed("consistency: Saved"));
        }
        let got = run_query(&mut *loader, &parsed(&q));
        run.trace(&format!("project:{}", got.class()));
        let Ans::Component(j) = &got else {
            if kind == "prune" && !sound(&e) {
                return;
            }
            return fail("nothing saved", &q, "a component".into(), got.brief());
        };
        let file = folder.0.join("Components/Saved.json");
        let text = std::fs::read_to_string(&file).unwrap_or_default();
        let (x, y) = (Comp::from_json(&text), Comp::from_json(j));
        match (&x, &y) {
            (Ok(x), Ok(y)) if x.show() == y.show() => (),
            _ => return fail("the file and the answer differ", &q, format!("{:?}", y.map(|c| c.show())), format!("{:?}", x.map(|c| c.show()))),
        }
        let mut js: Vec<String> = comps.iter().map(|c| c.json()).collect();
        js.push(j.clone());
        // the verdicts on inconsistent systems depend on the order of exploration (see D02)
        let f = facts(&ts, n);
        if f.reach_stuck || !sound(&e) {
            return;
        }
        for q in [
            "refinement: Saved <= Saved",
            "refinement: Saved <= A",
            "refinement: A <= Saved",
            "consistency: Saved",
            "determinism: Saved",
            "consistency: Saved || W",
        ] {
            let here = run_query(&mut *loader, &parsed(q));
            let again = ask_project(&folder.0, q, reduce);
            run.trans(2);
            if here.class() != again.class() {
                return fail("another answer after opening the project again", q, here.brief(), again.brief());
            }
            let sent = ask(&js, q, reduce);
            run.trans(1);
            if here.class() != sent.class() {
                return fail("another answer when the component is sent", q, here.brief(), sent.brief());
            }
            run.trace(&format!("project:{}", here.class()));
        }
        run.states(1);
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "S01" => s01(&run, "get-component"),
        "S02" => s01(&run, "prune"),
        _ => panic!("unknown property"),
    }
    run.finish();
}
