//! O02 conjunction is the greatest lower bound, O03 quotient is adjoint to composition.
use mc::cat::*;
use mc::driver::*;
use mc::model::*;
use mc::report::*;
use mc::sem::*;
use mc::walk::walk;
use serde_json::json;
use std::collections::BTreeSet;

fn refine(e: &Expr, f: &Expr) -> String {
    format!("refinement: {} <= {}", e.text(), f.text())
}

/// The models of several expressions, each component once.
fn models(es: &[&Expr]) -> (Vec<String>, Vec<String>) {
    let mut seen = BTreeSet::new();
    let (mut js, mut shown) = (vec![], vec![]);
    for e in es {
        let mut cs = vec![];
        e.comps(&mut cs);
        for c in cs {
            if seen.insert(c.name.clone()) {
                js.push(c.json());
                shown.push(c.show());
            }
        }
    }
    (js, shown)
}

/// Verdict of a refinement query; None if it has no verdict.
fn verdict(a: &Ans) -> Option<bool> {
    match a {
        Ans::Success => Some(true),
        Ans::Refinement(_) if matches!(a.class().as_str(), "refinement/cuts-delay" | "refinement/cannot-match" | "refinement/empty-initial") => Some(false),
        _ => None,
    }
}

fn alarm(run: &Run, space: &str, js: &[String], shown: &[String], q: &str, want: &str, got: &Ans) {
    run.violation(
        &format!("{space} | {q} | {}", shown.join(" | ")),
        &format!("{q}: expected {want}, answer {}", got.brief()),
        query_replay(js, q, false, shown, want, &got.brief()),
    );
}

/// Asks e <= f, compares with the reference and with `law`, what the law demands.
fn check(run: &Run, space: &str, e: &Expr, f: &Expr, law: bool, why: &str) {
    let (js, shown) = models(&[e, f]);
    let q = refine(e, f);
    let got = ask(&js, &q, false);
    let v = verdict(&got);
    run.trace(&format!("{why}:{}", got.class()));
    if v != Some(law) {
        alarm(run, space, &js, &shown, &q, &format!("{law} ({why})"), &got);
    }
}

fn alphabet(c: &Comp) -> (BTreeSet<String>, BTreeSet<String>) {
    (c.inputs(), c.outputs())
}

/// X <= A && B iff X <= A and X <= B; A && B <= A, B.
fn glb(run: &Run, space: &str, k: u64, x: &Comp, a: &Comp, b: &Comp, law: bool, once: bool) {
    let (lx, la, lb) = (leaf(x), leaf(a), leaf(b));
    let e = conj(la.clone(), lb.clone());
    let (ts, n) = Ts::of(&e).unwrap();
    let f = facts(&ts, n);
    run.states(f.states);
    run.trans(f.trans);
    let (js, shown) = models(&[&lx, &e]);
    let q = refine(&lx, &e);
    let got = ask(&js, &q, false);
    run.trace(&format!("glb:{}", got.class()));
    if k % 20011 == 0 {
        run.sample(json!({"space": space, "query": q, "models": shown, "answer": got.class(), "left": law}));
    }
    if let Ans::Model(_) = &got {
        if !f.reach_stuck && f.has_init {
            alarm(run, space, &js, &shown, &q, "an answer: the conjunction is consistent", &got);
        }
    } else {
        if consistent_exact(&ts, n) == Some(false) {
            alarm(run, space, &js, &shown, &q, "a rejection: the conjunction has no consistent behaviour", &got);
        } else if verdict(&got) != Some(law) {
            alarm(run, space, &js, &shown, &q, &format!("{law}: X refines A and B is {law}"), &got);
        }
        // the reference product agrees (binds the reference's conjunction to the law)
        let mut cnt = Cnt::default();
        let r = refines_expr(&lx, &e, &mut cnt).unwrap().is_ok();
        run.states(cnt.states);
        run.trans(cnt.trans);
        if r != law {
            run.broken(&format!("reference: X <= A && B is {r}, X <= A and X <= B is {law}: {}", shown.join(" | ")));
        }
    }
    if once && f.has_init && !f.reach_stuck {
        check(run, space, &e, &leaf(a), true, "A && B <= A");
        check(run, space, &e, &leaf(b), true, "A && B <= B");
    }
}

/// `keep`: how many of the Xs are used, those that refine most operands first.
fn triples(run: &Run, space: &str, what: &str, xs: &[Comp], os: &[Comp], keep: usize) {
    let a_s = renamed(os, "A");
    let b_s = renamed(os, "B");
    // X <= A, by the real query
    let m = os.len();
    let left = std::sync::Mutex::new(vec![vec![false; m]; xs.len()]);
    run.for_all((xs.len() * m) as u64, |k| {
        let (i, j) = (k as usize / m, k as usize % m);
        let (lx, la) = (leaf(&xs[i]), leaf(&a_s[j]));
        let (js, shown) = models(&[&lx, &la]);
        let q = refine(&lx, &la);
        let got = ask(&js, &q, false);
        match verdict(&got) {
            Some(v) => left.lock().unwrap()[i][j] = v,
            None => alarm(run, space, &js, &shown, &q, "a verdict", &got),
        }
    });
    let left = left.into_inner().unwrap();
    let mut rank: Vec<(usize, usize)> = (0..xs.len()).map(|i| (left[i].iter().filter(|v| **v).count(), i)).collect();
    rank.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1)));
    rank.truncate(keep);
    let xs: Vec<Comp> = rank.iter().map(|r| xs[r.1].clone()).collect();
    let left: Vec<Vec<bool>> = rank.iter().map(|r| left[r.1].clone()).collect();
    let n = (xs.len() * m * m) as u64;
    run.space(space, n, what);
    run.for_all(n, |k| {
        let (i, r) = (k as usize / (m * m), k as usize % (m * m));
        let (a, b) = (r / m, r % m);
        glb(run, space, k, &xs[i], &a_s[a], &b_s[b], left[i][a] && left[i][b], i == 0);
    });
}

fn with_alphabet(v: Vec<Comp>, i: &[&str], o: &[&str]) -> Vec<Comp> {
    let i: BTreeSet<String> = i.iter().map(|s| s.to_string()).collect();
    let o: BTreeSet<String> = o.iter().map(|s| s.to_string()).collect();
    v.into_iter().filter(|c| alphabet(c) == (i.clone(), o.clone())).collect()
}

fn every(v: &[Comp], from: usize, step: usize) -> Vec<Comp> {
    v.iter().skip(from).step_by(step).cloned().collect()
}

/// Small two-location components over exactly the actions o!, i?.
fn two(name: &str, o: &str, i: &str, gs: &[F], us: &[Upd], invs: &[F]) -> Vec<Comp> {
    let mut out = vec![];
    for g in gs {
        for h in gs {
            for u in us {
                for inv in invs {
                    for shape in 0..4 {
                        let mut c = Comp::new(name, 1);
                        c.loc(if shape == 1 { inv.clone() } else { F::T });
                        c.loc(if shape == 1 { F::T } else { inv.clone() });
                        match shape {
                            0 => {
                                c.edge(0, i, g.clone(), u, 1);
                                c.edge(1, o, h.clone(), &[(0, 0)], 0);
                            }
                            1 => {
                                c.edge(0, o, g.clone(), u, 1);
                                c.edge(1, i, h.clone(), &[(0, 0)], 0);
                            }
                            2 => {
                                c.edge(0, i, g.clone(), u, 1);
                                c.edge(0, o, h.clone(), &[], 0);
                                c.edge(1, o, h.clone(), &[(0, 0)], 1);
                            }
                            _ => {
                                c.edge(0, o, g.clone(), u, 1);
                                c.edge(1, o, h.clone(), &[(0, 0)], 0);
                                c.edge(1, i, F::T, &[(0, 0)], 1);
                            }
                        }
                        out.push(c);
                    }
                }
            }
        }
    }
    keep_good(out)
}

fn o02(run: &Run) {
    let quick = run.quick();
    let no: Vec<Upd> = vec![vec![], vec![(0, 0)]];
    let gs = [F::T, le(1), gt(1), eq(1)];
    let ones = with_alphabet(keep_good(one_loc("X", "o", "i", &gs, &no, &[F::T, le(1)])), &["i"], &["o"]);
    let twos = with_alphabet(two("X", "o!", "i?", &[F::T, le(1), gt(1)], &no, &[F::T, le(1), lt(2)]), &["i"], &["o"]);
    let s = if quick { 2 } else { 1 };
    let mut ops = every(&ones, 0, 2 * s);
    ops.extend(every(&twos, 1, 5 * s));
    let mut xs = ones.clone();
    xs.extend(twos.clone());
    triples(run, "triples", "X, A, B from catalogues of one- and two-location components over one input and one output", &xs, &ops, if quick { 40 } else { 150 });
    // two outputs: what one operand forbids the other may need
    let mut outs = vec![];
    for inv in [F::T, le(1), lt(2)] {
        for g in [F::T, ge(1), lt(1)] {
            for h in [F::T, gt(1), le(1)] {
                for shape in 0..3 {
                    let mut c = Comp::new("X", 1);
                    c.loc(inv.clone());
                    c.loc(F::T);
                    match shape {
                        0 => {
                            c.edge(0, "o!", g.clone(), &[(0, 0)], 0);
                            c.edge(0, "p!", h.clone(), &[], 1);
                        }
                        1 => {
                            c.edge(0, "o!", g.clone(), &[(0, 0)], 1);
                            c.edge(1, "p!", h.clone(), &[(0, 0)], 0);
                        }
                        _ => {
                            c.edge(0, "o!", g.clone(), &[], 1);
                            c.edge(1, "o!", h.clone(), &[], 1);
                            c.edge(0, "p!", gt(1), &[(0, 0)], 0);
                        }
                    }
                    outs.push(c);
                }
            }
        }
    }
    let outs = keep_good(outs);
    let o2 = every(&outs, 0, if quick { 3 } else { 1 });
    triples(run, "two-outputs", "X, A, B over two outputs, invariants on all sides", &outs, &o2, if quick { 30 } else { 81 });
    // two clocks in the operands
    let mut xy = vec![];
    for inv in [F::T, le(2)] {
        for g in [ge(1), and(le(1), c(1, Op::Ge, 1)), or(lt(1), c(1, Op::Gt, 1)), F::D(0, 1, Op::Lt, 1), F::D(1, 0, Op::Ge, 1)] {
            for r in [vec![], vec![(0, 0)], vec![(1, 0)], vec![(0, 0), (1, 0)]] {
                let mut k = Comp::new("X", 2);
                k.loc(inv.clone());
                k.edge(0, "o!", g.clone(), &r, 0);
                k.edge(0, "p!", F::T, &[(1, 0)], 0);
                xy.push(k);
            }
        }
    }
    let xy = keep_good(xy);
    let small: Vec<Comp> = every(&o2, 0, if quick { 4 } else { 3 });
    let mut xy_xs = outs.clone();
    xy_xs.extend(xy.clone());
    let mut pool = small.clone();
    pool.extend(every(&xy, 0, if quick { 3 } else { 1 }));
    triples(run, "two-clocks", "operands with two clocks, disjunctions and clock differences", &xy_xs, &pool, if quick { 20 } else { 60 });
    // conjunctions of three, both groupings, and of one component with itself
    let few: Vec<Comp> = every(&ops, 0, if quick { 5 } else { 4 });
    let m = few.len();
    let nested = (m * m * m * 3) as u64;
    run.space("nested", nested, "A && B && C in both groupings and A && A, against the three refinements");
    run.for_all(nested, |k| {
        let mut d = Dig(k);
        let (ia, ib, ic) = (d.pick(m), d.pick(m), d.pick(m));
        let (a, b, c3) = (few[ia].renamed("A"), few[ib].renamed("B"), few[ic].renamed("C"));
        let e = match d.pick(3) {
            0 => conj(conj(leaf(&a), leaf(&b)), leaf(&c3)),
            1 => conj(leaf(&a), conj(leaf(&b), leaf(&c3))),
            _ => {
                if ib != ic {
                    return;
                }
                conj(leaf(&b), conj(leaf(&a), leaf(&b)))
            }
        };
        let (ts, n) = Ts::of(&e).unwrap();
        let f = facts(&ts, n);
        // every part must be consistent as well: it is checked when it is built
        let part = |e: &Expr| {
            let (t, n) = Ts::of(e).unwrap();
            let f = facts(&t, n);
            f.has_init && !f.reach_stuck
        };
        let parts = match &e {
            Expr::Conj(l, r) => part(l) && part(r),
            _ => true,
        };
        if !f.has_init || f.reach_stuck || !parts {
            return;
        }
        run.states(f.states);
        run.trans(f.trans);
        for p in [&a, &b] {
            check(run, "nested", &e, &leaf(p), true, "conjunction <= part");
        }
        for x in every(&xs, k as usize % 17, if quick { 37 } else { 17 }) {
            let mut cs = vec![];
            e.comps(&mut cs);
            let mut cnt = Cnt::default();
            let law = cs.iter().all(|c| refines_expr(&leaf(&x), &leaf(c), &mut cnt).unwrap().is_ok());
            run.states(cnt.states);
            run.trans(cnt.trans);
            check(run, "nested", &leaf(&x), &e, law, "X <= conjunction");
        }
    });
    // direction clashes
    let dirs = ["", "?", "!"];
    let n = 27u64 * 27;
    run.space("alphabets", n, "every direction of three actions in two operands: clashes are rejected, alphabets are the common actions");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mk = |name: &str, code: usize| {
            let mut c = Comp::new(name, 1);
            c.loc(F::T);
            for (i, a) in ["a", "b", "c"].iter().enumerate() {
                let d = dirs[code / 3usize.pow(i as u32) % 3];
                if !d.is_empty() {
                    c.edge(0, &format!("{a}{d}"), F::T, &[], 0);
                }
            }
            c
        };
        let (a, b) = (mk("A", d.pick(27)), mk("B", d.pick(27)));
        alphabets(run, &conj(leaf(&a), leaf(&b)));
    });
}

/// The alphabet of a composite, read off the failures of refinement queries against an empty component.
fn alphabets(run: &Run, e: &Expr) {
    use reveaal::ProtobufServer::services::query_response::refinement_failure::Failure;
    let (mut js, shown) = models(&[e]);
    let mut p = Comp::new("Probe", 0);
    p.loc(F::T);
    js.push(p.json());
    run.states(1);
    match Ts::of(e) {
        None => {
            let q = format!("refinement: {} <= Probe", e.text());
            let got = ask(&js, &q, false);
            run.trace(&format!("clash:{}", got.class()));
            if got.class() != "model/actions" {
                alarm(run, "alphabets", &js, &shown, &q, "a rejection: the directions do not fit", &got);
            }
        }
        Some((ts, _)) => {
            for (q, want) in [(format!("refinement: {} <= Probe", e.text()), &ts.inputs), (format!("refinement: Probe <= {}", e.text()), &ts.outputs)] {
                let got = ask(&js, &q, false);
                run.trace("alphabet");
                let have: BTreeSet<String> = match &got {
                    Ans::Success => BTreeSet::new(),
                    Ans::Refinement(f) => match &f.failure {
                        Some(Failure::ActionMismatch(a)) => a.action_sets.iter().flat_map(|s| s.actions.clone()).collect(),
                        _ => BTreeSet::new(),
                    },
                    _ => {
                        alarm(run, "alphabets", &js, &shown, &q, "a verdict", &got);
                        continue;
                    }
                };
                if have != *want {
                    alarm(run, "alphabets", &js, &shown, &q, &format!("actions {want:?}, reported {have:?}"), &got);
                }
            }
        }
    }
}

/// S || X <= T iff X <= T // S.
fn adjoint(run: &Run, space: &str, k: u64, x: &Comp, t: &Expr, s: &Expr) {
    let (lx, e) = (leaf(x), quot(t.clone(), s.clone()));
    let sx = par(s.clone(), leaf(x));
    let mut cnt = Cnt::default();
    let Some(r) = refines_expr(&sx, t, &mut cnt) else { return };
    let law = r.is_ok();
    run.states(cnt.states);
    run.trans(cnt.trans);
    let (js, shown) = models(&[&lx, &e]);
    if k % 20011 == 0 {
        run.sample(json!({"space": space, "models": shown, "query": refine(&lx, &e), "S || X <= T": law}));
    }
    let (q1, q2) = (refine(&sx, t), refine(&lx, &e));
    let (g1, g2) = (ask(&js, &q1, false), ask(&js, &q2, false));
    run.trace(&format!("{law}:{}:{}", g1.class(), g2.class()));
    if verdict(&g1) != Some(law) {
        alarm(run, space, &js, &shown, &q1, &law.to_string(), &g1);
    }
    if verdict(&g2) != Some(law) {
        alarm(run, space, &js, &shown, &q2, &format!("{law}: S || X <= T is {law}"), &g2);
    }
}

/// All X, T, S of one alphabet pattern. Each pattern: T's, S's and X's actions.
fn o03(run: &Run) {
    let quick = run.quick();
    let no: Vec<Upd> = vec![vec![], vec![(0, 0)]];
    // name, T, S, X
    let patterns: Vec<(&str, Vec<&str>, Vec<&str>, Vec<&str>)> = vec![
        ("request-grant", vec!["i?", "o!"], vec!["i?", "m!"], vec!["m?", "o!"]),
        ("command", vec!["i?", "o!"], vec!["m?", "o!"], vec!["i?", "m!", "o?"]),
        ("shared-output", vec!["o!", "p!"], vec!["o!"], vec!["o?", "p!"]),
        ("all-output", vec!["o!"], vec!["o!"], vec!["o?"]),
        ("shared-input", vec!["i?", "o!"], vec!["i?"], vec!["i?", "o!"]),
        ("independent", vec!["o!"], vec!["m!"], vec!["o!", "m?"]),
        ("input-only-t", vec!["i?", "o!"], vec!["o!"], vec!["i?", "o?"]),
        ("input-only-s", vec!["o!"], vec!["m?", "o!"], vec!["m!", "o?"]),
    ];
    let gs = [F::T, le(1), gt(1)];
    let invs = [F::T, le(1)];
    for (name, ta, sa, xa) in &patterns {
        let mk = |name: &str, acts: &[&str]| -> Vec<Comp> {
            let mut out = vec![];
            match acts {
                [a] => {
                    for inv in [F::T, le(1), lt(2), le(2)] {
                        for g in [F::T, le(1), ge(1), gt(1), eq(1)] {
                            for u in &no {
                                let mut c = Comp::new(name, 1);
                                c.loc(inv.clone());
                                c.edge(0, a, g.clone(), u, 0);
                                out.push(c.clone());
                                let mut c = Comp::new(name, 1);
                                c.loc(F::T);
                                c.loc(inv.clone());
                                c.edge(0, a, g.clone(), u, 1);
                                out.push(c.clone());
                                c.edge(1, a, ge(1), &[(0, 0)], 0);
                                out.push(c);
                            }
                        }
                    }
                }
                _ => {
                    for g in &gs {
                        for h in &gs {
                            for u in &no {
                                for inv in &invs {
                                    let (a, b) = (acts[0], acts[1]);
                                    let rest = |c: &mut Comp| {
                                        for r in &acts[2..] {
                                            c.edge(0, r, F::T, &[(0, 0)], 0);
                                        }
                                    };
                                    let mut c = Comp::new(name, 1);
                                    c.loc(inv.clone());
                                    c.edge(0, a, g.clone(), u, 0);
                                    c.edge(0, b, h.clone(), &[(0, 0)], 0);
                                    rest(&mut c);
                                    out.push(c);
                                    let mut c = Comp::new(name, 1);
                                    c.loc(F::T);
                                    c.loc(inv.clone());
                                    c.edge(0, a, g.clone(), u, 1);
                                    c.edge(1, b, h.clone(), &[(0, 0)], 0);
                                    rest(&mut c);
                                    out.push(c.clone());
                                    c.edge(0, b, gt(1), &[(0, 0)], 0);
                                    c.edge(1, a, le(1), &[], 0);
                                    out.push(c);
                                }
                            }
                        }
                    }
                }
            }
            keep_good(out)
        };
        let (ts, ss, xs) = (mk("T", ta), mk("S", sa), mk("X", xa));
        let want = if quick { (16, 16, 16) } else { (60, 60, 60) };
        let cut = |v: Vec<Comp>, n: usize, from: usize| every(&v, from, (v.len() / n).max(1));
        let (ts, ss, xs) = (cut(ts, want.0, 0), cut(ss, want.1, 1), cut(xs, want.2, 2));
        let n = (ts.len() * ss.len() * xs.len()) as u64;
        run.space(name, n, &format!("X over {xa:?} against T over {ta:?} and S over {sa:?}: fixed sub-catalogues of one- and two-location components"));
        run.for_all(n, |k| {
            let mut d = Dig(k);
            let (t, s, x) = (d.of(&ts), d.of(&ss), d.of(&xs));
            adjoint(run, name, k, x, &leaf(t), &leaf(s));
        });
        // the quotient's own transitions, alone and under the assumption it was made for
        let (dt, ds) = if quick { (2, 3) } else { (1, 1) };
        let (ts, ss) = (every(&ts, 0, dt), every(&ss, 0, ds));
        let n = (ts.len() * ss.len() * 2) as u64;
        let depth = if quick { 2 } else { 4 };
        let mut listener = Comp::new("X", 0);
        listener.loc(F::T);
        listener.edge(0, "o?", F::T, &[], 0);
        listener.edge(0, "r!", F::T, &[], 0);
        let space = format!("{name} transitions");
        run.space(&space, n, "T // S alone and composed with a clockless component, walked through the simulation, against the rules of the quotient");
        run.for_all(n, |k| {
            let mut d = Dig(k);
            let q = quot(leaf(d.of(&ts)), leaf(d.of(&ss)));
            let e = match d.pick(2) {
                0 => q,
                _ => par(q, leaf(&listener)),
            };
            walk(run, &space, k, &e, depth, false);
        });
    }
    // quotients of and by composites
    let (g2, i2) = ([F::T, le(1)], [F::T, le(1)]);
    let one = |name: &str, acts: &[&str], g: &F, inv: &F, r: bool| {
        let mut c = Comp::new(name, 1);
        c.loc(inv.clone());
        for (i, a) in acts.iter().enumerate() {
            c.edge(0, a, if i == 0 { g.clone() } else { F::T }, if i == 0 || r { &[(0, 0)] } else { &[] }, 0);
        }
        c
    };
    let two = |name: &str, a: &str, b: &str, g: &F, inv: &F, r: bool| {
        let mut c = Comp::new(name, 1);
        c.loc(F::T);
        c.loc(inv.clone());
        c.edge(0, a, g.clone(), if r { &[(0, 0)] } else { &[] }, 1);
        c.edge(1, b, F::T, &[(0, 0)], 0);
        c
    };
    let rs = if quick { 1 } else { 2 };
    let n = 4u64 * 4 * 4 * 4 * 4 * rs * rs * rs * rs * 4;
    run.space("composites", n, "T // (S1 || S2), (T // S1) // S2, (T1 && T2) // S and (T // S1) with X composed, one- and two-location components");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(4);
        // T: o, p, q outputs; S1: o; S2: p; X: q, or T: i? o!
        let v = |d: &mut Dig| (d.of(&g2).clone(), d.of(&i2).clone(), d.pick(rs as usize) == 0);
        let (g, inv, r) = v(&mut d);
        let t = if form == 1 || d.pick(2) == 0 {
            let mut c = one("T", &["o!", "p!", "q!"], &g, &inv, r);
            c.edge(0, "i?", F::T, &[], 0);
            c
        } else {
            let mut c = two("T", "o!", "p!", &g, &inv, r);
            c.edge(1, "q!", F::T, &[], 1);
            c.edge(0, "i?", F::T, &[], 0);
            c
        };
        let (g, inv, r) = v(&mut d);
        let s1 = if form % 2 == 0 { one("S", &["o!", "i?"], &g, &inv, r) } else { two("S", "i?", "o!", &g, &inv, r) };
        let (g, inv, r) = v(&mut d);
        let s2 = if form == 2 { one("U", &["o!", "p!", "q!", "i?"], &g, &inv, r) } else { one("U", &["p!", "o?"], &g, &inv, r) };
        let (g, inv, r) = v(&mut d);
        let x = if d.pick(2) == 0 { one("X", &["q!", "o?", "p?", "i?"], &g, &inv, r) } else { let mut c = two("X", "o?", "q!", &g, &inv, r); c.edge(0, "p?", F::T, &[], 1); c.edge(0, "i?", F::T, &[], 0); c };
        for c in [&t, &s1, &s2, &x] {
            if good(&leaf(c)).is_none() {
                return;
            }
        }
        let (lt, l1, l2) = (leaf(&t), leaf(&s1), leaf(&s2));
        match form {
            0 => adjoint(run, "composites", k, &x, &lt, &par(l1, l2)),
            1 => {
                // S1 || (S2 || X) <= T, S2 || X <= T // S1, X <= (T // S1) // S2
                let mut cnt = Cnt::default();
                let law = refines_expr(&par(l1.clone(), par(l2.clone(), leaf(&x))), &lt, &mut cnt).unwrap().is_ok();
                run.states(cnt.states);
                run.trans(cnt.trans);
                check(run, "composites", &par(l2.clone(), leaf(&x)), &quot(lt.clone(), l1.clone()), law, "S2 || X <= T // S1");
                check(run, "composites", &leaf(&x), &quot(quot(lt, l1), l2), law, "X <= (T // S1) // S2");
            }
            2 => {
                let e = conj(lt, l2);
                if let Some(f) = good(&e) {
                    run.states(f.states);
                    let mut x = x;
                    x.edge(0, "p!", F::T, &[], 0);
                    let edges: Vec<_> = x.edges.iter().filter(|e| !(e.act == "p" && e.input)).cloned().collect();
                    x.edges = edges;
                    adjoint(run, "composites", k, &x, &e, &l1);
                }
            }
            _ => {
                // two requirements at once: X <= (T // S) && (T // S) has the same answer as X <= T // S
                let mut cnt = Cnt::default();
                let Some(r) = refines_expr(&par(l1.clone(), leaf(&x)), &lt, &mut cnt) else { return };
                run.states(cnt.states);
                run.trans(cnt.trans);
                let mut x = x;
                x.edge(0, "p!", F::T, &[], 0);
                let edges: Vec<_> = x.edges.iter().filter(|e| !(e.act == "p" && e.input)).cloned().collect();
                x.edges = edges;
                if good(&leaf(&x)).is_none() {
                    return;
                }
                let _ = r;
                let law = refines_expr(&par(l1.clone(), leaf(&x)), &lt, &mut cnt).unwrap().is_ok();
                if !law {
                    return;
                }
                let q = quot(lt, l1);
                if good(&q).is_none() {
                    return;
                }
                check(run, "composites", &leaf(&x), &conj(q.clone(), q), law, "X <= Q && Q");
            }
        }
    });
    // alphabets of quotients
    let dirs = ["", "?", "!"];
    let n = 27u64 * 27;
    run.space("alphabets", n, "every direction of three actions in T and S: quotient alphabets and rejections");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mk = |name: &str, code: usize| {
            let mut c = Comp::new(name, 1);
            c.loc(F::T);
            for (i, a) in ["a", "b", "c"].iter().enumerate() {
                let d = dirs[code / 3usize.pow(i as u32) % 3];
                if !d.is_empty() {
                    c.edge(0, &format!("{a}{d}"), F::T, &[], 0);
                }
            }
            c
        };
        let (a, b) = (mk("T", d.pick(27)), mk("S", d.pick(27)));
        alphabets(run, &quot(leaf(&a), leaf(&b)));
    });
    // several quotients in one system; two of the components have a clock
    let gn = [F::T, ge(1), le(1)];
    let un: [Vec<(usize, i32)>; 2] = [vec![(0, 0)], vec![]];
    let n = 4u64 * 5 * 3 * 3 * 2 * 2 * 2 * 2 * if quick { 1 } else { 2 };
    run.space("several transitions", n, "quotients of quotients, composed and conjoined quotients, also with locations that can only be entered from some time on, walked through the simulation");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let clocks = ["TS", "TR", "SR", "RV"][d.pick(4)];
        let form = d.pick(5);
        let late = d.pick(2) * (1 + k as usize / 7 % 2);
        if quick && late > 0 && (k / 40 + k / 120) % 3 > 0 {
            return;
        }
        let mk = |name: &str, acts: &[(&str, &F, &Vec<(usize, i32)>)], inv: &F| {
            let timed = clocks.contains(name);
            let mut c = Comp::new(name, timed as usize);
            let f = |g: &F| if timed { g.clone() } else { F::T };
            let up = |u: &Vec<(usize, i32)>| if timed { u.clone() } else { vec![] };
            let other = timed && (late == 2 && name == "T" || late == 1 && name == "S");
            let late = timed && (late == 1 && name == "T" || late == 2 && name == "S");
            c.loc(if late { F::T } else { f(inv) });
            c.loc(if late { ge(1) } else if other { le(2) } else { F::T });
            for (i, (a, g, u)) in acts.iter().enumerate() {
                let u = if late && i == 0 { &un[1] } else { *u };
                c.edge(0, a, f(g), &up(u), if i == 0 { 1 } else { 0 });
                c.edge(1, a, F::T, &up(u), 0);
            }
            leaf(&c)
        };
        let (g, h) = (d.of(&gn).clone(), d.of(&gn).clone());
        let u = d.of(&un).clone();
        let (i, j) = ([F::T, le(1)][d.pick(2)].clone(), [F::T, le(1)][d.pick(2)].clone());
        let v = if quick { un[0].clone() } else { d.of(&un).clone() };
        let t = mk("T", &[("a!", &g, &u), ("c!", &F::T, &v)], &i);
        let s = mk("S", &[("a!", &h, &v)], &j);
        let q = quot(t.clone(), s.clone());
        let e = match form {
            0 => quot(q, mk("R", &[("c!", &g, &u)], &j)),
            1 => quot(mk("R", &[("c!", &h, &v), ("a?", &F::T, &u)], &j), quot(t, s)),
            2 => par(q, quot(mk("R", &[("d!", &h, &v), ("e!", &F::T, &u)], &j), mk("V", &[("d!", &F::T, &u)], &i))),
            3 => par(quot(mk("R", &[("d!", &g, &v), ("e!", &F::T, &u)], &i), mk("V", &[("d!", &h, &u)], &j)), q),
            _ => conj(q, quot(mk("R", &[("a!", &h, &v), ("c!", &F::T, &u)], &j), mk("V", &[("a!", &g, &u)], &F::T))),
        };
        walk(run, "several transitions", k, &e, if quick { 2 } else { 3 }, false);
    });
    // operands with locations of the special kinds
    let n = 3u64 * 3 * 3 * 3 * 3 * 2 * if quick { 1 } else { 3 };
    run.space("kinds", n, "quotients, compositions and conjunctions of components with a universal or an inconsistent location, walked through the simulation");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(3);
        let mk = |name: &str, acts: [&str; 2], kind: usize, g: &F, first: bool| {
            let mut c = Comp::new(name, 1);
            c.loc(le(2));
            match kind {
                0 => c.loc_kind(Kind::Universal),
                1 => c.loc_kind(Kind::Inconsistent),
                _ => c.loc(F::T),
            };
            let (i, o) = if first { (1, 0) } else { (0, 1) };
            c.edge(0, acts[0], g.clone(), &[(0, 0)], i);
            c.edge(0, acts[1], ge(1), &[], o);
            if kind > 1 {
                c.edge(1, acts[0], F::T, &[(0, 0)], 0);
            }
            leaf(&c)
        };
        let (kt, ks) = (d.pick(3), d.pick(3));
        let (g, h) = (d.of(&gn).clone(), d.of(&gn).clone());
        let first = d.pick(2) == 0;
        let way = if quick { k as usize % 3 } else { d.pick(3) };
        let (ta, sa) = match form {
            0 => [(["a!", "b!"], ["a!", "b?"]), (["a!", "b?"], ["a!", "b?"]), (["a?", "b!"], ["a!", "c!"])][way],
            1 => [(["a!", "b?"], ["a?", "b!"]), (["a?", "b!"], ["a?", "c!"]), (["a!", "b!"], ["a?", "c?"])][way],
            _ => [(["a!", "b?"], ["a!", "b?"]), (["b!", "a!"], ["a!", "b!"]), (["a?", "b?"], ["b?", "a?"])][way],
        };
        let (t, s) = (mk("T", ta, kt, &g, first), mk("S", sa, ks, &h, true));
        if form == 0 && (good(&t).is_none() || good(&s).is_none()) {
            return;
        }
        let e = match form {
            0 => quot(t, s),
            1 => par(t, s),
            _ => conj(t, s),
        };
        walk(run, "kinds", k, &e, if quick { 3 } else { 4 }, false);
    });
    // the additional input is an action of its own
    let n = 9u64 * 9 * 9 * 4;
    run.space("nested alphabets", n, "quotients of quotients: every direction of two actions in three operands, and operands that use the name of the additional input themselves");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(4);
        let mk = |name: &str, code: usize, acts: [&str; 2]| {
            let mut c = Comp::new(name, 1);
            c.loc(F::T);
            for (i, a) in acts.iter().enumerate() {
                let d = dirs[code / 3usize.pow(i as u32) % 3];
                if !d.is_empty() {
                    c.edge(0, &format!("{a}{d}"), F::T, &[], 0);
                }
            }
            leaf(&c)
        };
        let acts = if form < 2 { ["a", "b"] } else { ["a", "quotient_new_input0"] };
        let (t, s, r) = (mk("T", d.pick(9), acts), mk("S", d.pick(9), acts), mk("R", d.pick(9), acts));
        let e = if form % 2 == 0 { quot(t, quot(s, r)) } else { quot(quot(t, s), r) };
        alphabets(run, &e);
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "O02" => o02(&run),
        "O03" => o03(&run),
        _ => panic!("unknown property"),
    }
    run.finish();
}
