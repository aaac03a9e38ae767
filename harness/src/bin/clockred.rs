//! K01: answers with clock reduction equal answers without it (and the reference where it decides).
use mc::cat::*;
use mc::driver::*;
use mc::model::*;
use mc::report::*;
use mc::sem::*;
use serde_json::json;

/// Whether the answers about a system and each of its parts are determined: no overlaps of transitions in
/// unreachable valuations only (see D01), and either no reachable stuck state or consistency that can be
/// read off the locations (see D02). None if the system is not defined.
fn settled(run: &Run, e: &Expr) -> Option<bool> {
    let (ts, n) = Ts::of(e)?;
    ts.init()?;
    let f = facts(&ts, n);
    run.states(f.states);
    run.trans(f.trans);
    let own = (f.any_overlap.is_empty() || !f.reach_overlap.is_empty()) && (!f.reach_stuck || consistent_exact(&ts, n).is_some());
    Some(match e {
        Expr::C(_) => own,
        // the inconsistent location of a quotient is reachable on purpose
        Expr::Quot(a, b) => settled(run, a)? && settled(run, b)?,
        Expr::Par(a, b) => settled(run, a)? && settled(run, b)?,
        Expr::Conj(a, b) => own && settled(run, a)? && settled(run, b)?,
    })
}

fn same(run: &Run, space: &str, k: u64, es: &[&Expr], q: &str) {
    let mut comps = vec![];
    for e in es {
        e.comps(&mut comps);
    }
    let mut seen = std::collections::BTreeSet::new();
    let comps: Vec<&Comp> = comps.into_iter().filter(|c| seen.insert(c.name.clone())).collect();
    let jsons: Vec<String> = comps.iter().map(|c| c.json()).collect();
    let shown: Vec<String> = comps.iter().map(|c| c.show()).collect();
    let (a, b) = (ask(&jsons, q, false), ask(&jsons, q, true));
    run.trace(&format!("{}:{}", a.class(), b.class()));
    if k % 20011 == 0 {
        run.sample(json!({"space": space, "query": q, "models": shown, "answer": a.class()}));
    }
    // which of several reasons for a refusal is met first may differ
    let kind = |a: &Ans| a.class().replace("cannot-match", "refuted").replace("cuts-delay", "refuted");
    if kind(&a) != kind(&b) {
        run.violation(
            &format!("{space} | {q} | {}", shown.join(" | ")),
            &format!("{q}: without reduction {}, with reduction {}", a.brief(), b.brief()),
            query_replay(&jsons, q, true, &shown, &a.brief(), &b.brief()),
        );
    }
}

/// Consistency, determinism and the given refinements.
fn all(run: &Run, space: &str, k: u64, e: &Expr, others: &[&Expr]) {
    if settled(run, e) != Some(true) {
        return;
    }
    same(run, space, k, &[e], &format!("consistency: {}", e.text()));
    same(run, space, k, &[e], &format!("determinism: {}", e.text()));
    for o in others {
        same(run, space, k, &[e, o], &format!("refinement: {} <= {}", e.text(), o.text()));
        same(run, space, k, &[e, o], &format!("refinement: {} <= {}", o.text(), e.text()));
    }
}

fn b_side(i: usize, acts: &[&str]) -> Comp {
    let mut b = b_timing(i);
    for a in acts {
        b.edge(0, a, F::T, &[], 0);
    }
    b
}

fn b_timing(i: usize) -> Comp {
    let mut b = Comp::new("B", 1);
    match i {
        0 => {
            b.loc(F::T);
            b.edge(0, "a!", ge(1), &[], 0);
        }
        1 => {
            b.loc(le(2));
            b.edge(0, "a!", F::T, &[(0, 0)], 0);
        }
        2 => {
            b.loc(F::T);
            b.loc(F::T);
            b.edge(0, "a!", F::T, &[(0, 0)], 1);
            b.edge(1, "a!", le(1), &[], 1);
        }
        _ => {
            b.clocks.clear();
            b.loc(F::T);
            b.edge(0, "a!", F::T, &[], 0);
        }
    }
    b
}

fn k01(run: &Run) {
    let quick = run.quick();
    let x = |op, k| c(0, op, k);
    let y = |op, k| c(1, op, k);
    // 1: how a clock may be irrelevant
    let gy = [F::T, y(Op::Ge, 0), y(Op::Lt, 0), and(y(Op::Lt, 1), y(Op::Gt, 1)), or(y(Op::Le, 1), y(Op::Gt, 1)), y(Op::Ge, 1), y(Op::Le, 1)];
    let gx = [F::T, x(Op::Ge, 0), x(Op::Ge, 1), or(x(Op::Lt, 1), y(Op::Ge, 0)), and(x(Op::Le, 2), y(Op::Ge, 0)), x(Op::Lt, 0)];
    let us: [Upd; 4] = [vec![], vec![(0, 0)], vec![(1, 0)], vec![(0, 0), (1, 0)]];
    let iy = [F::T, x(Op::Le, 2), y(Op::Ge, 0), and(x(Op::Le, 2), y(Op::Ge, 0)), y(Op::Le, 2)];
    let n = 7u64 * 6 * 4 * 4 * 5 * 3 * 4;
    run.space("irrelevant", n, "a clock that is unused, only reset, or appears only in constraints that are always or never satisfied, or only in unreachable parts");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut a = Comp::new("A", 2);
        let (g, h) = (d.of(&gx).clone(), d.of(&gy).clone());
        let (u, v) = (d.of(&us).clone(), d.of(&us).clone());
        let inv = d.of(&iy).clone();
        let shape = d.pick(3);
        let b = leaf(&b_side(d.pick(4), if shape == 1 { &["b?"] } else { &["b!"] }));
        a.loc(inv);
        a.loc(F::T);
        a.edge(0, "a!", g, &u, 0);
        match shape {
            0 => a.edge(0, "b!", h, &v, 1),
            1 => {
                a.edge(0, "b?", h, &v, 1);
                a.edge(1, "a!", F::T, &[(0, 0)], 0);
            }
            _ => a.edge(1, "b!", h, &v, 0), // unreachable
        }
        all(run, "irrelevant", k, &leaf(&a), &[&b]);
    });
    // 2: clocks that agree always, sometimes, or only at first; three clocks, values assigned
    let u3: [Upd; 9] = [
        vec![],
        vec![(0, 0), (1, 0), (2, 0)],
        vec![(0, 0), (1, 0)],
        vec![(1, 0), (2, 0)],
        vec![(0, 1), (1, 1)],
        vec![(0, 1), (1, 2)],
        vec![(2, 0)],
        vec![(0, 1), (1, 0), (2, 1)],
        vec![(1, 0), (0, 0), (1, 0)],
    ];
    let g3 = [x(Op::Le, 1), y(Op::Ge, 1), and(x(Op::Ge, 1), y(Op::Le, 1)), and(y(Op::Gt, 1), c(2, Op::Le, 2)), c(2, Op::Lt, 2)];
    let u3 = if quick { &u3[1..8] } else { &u3[..] };
    let n = (u3.len() as u64).pow(3) * 5 * 5 * 3;
    run.space("agreeing", n, "three clocks and three edges with joint, partial and differing assignments");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let (u, v, w) = (d.of(u3).clone(), d.of(u3).clone(), d.of(u3).clone());
        let (g, h) = (d.of(&g3).clone(), d.of(&g3).clone());
        let inv = [F::T, x(Op::Le, 2), and(y(Op::Le, 2), c(2, Op::Le, 3))][d.pick(3)].clone();
        let mut a = Comp::new("A", 3);
        a.loc(inv);
        a.loc(c(2, Op::Le, 4));
        a.edge(0, "a!", g.clone(), &u, 1);
        a.edge(1, "a!", h.clone(), &v, 0);
        a.edge(0, "b?", F::T, &w, 0);
        a.edge(1, "b!".replace('b', "c").as_str(), and(h, y(Op::Lt, 2)), &w, 1);
        let b = leaf(&b_side(k as usize % 4, &["b?", "c!"]));
        all(run, "agreeing", k, &leaf(&a), &[&b]);
    });
    // 3: systems of two components: clocks that agree across components, shared component on both sides
    let ga = [F::T, ge(0), ge(1), le(1), lt(0)];
    let n = 7u64 * 5 * 5 * 4 * 2 * 3 * 3;
    run.space("systems", n, "compositions, conjunctions and quotients of two components, one component twice, on either side of a refinement");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(7);
        let acts: [[&str; 4]; 7] = [
            ["a!", "b!", "a?", "c!"],
            ["a?", "b!", "a?", "c!"],
            ["a?", "b?", "a?", "b?"],
            ["a!", "b?", "a!", "b?"],
            ["a!", "b!", "a!", "b?"],
            ["b?", "a!", "b?", "c!"],
            ["a!", "b?", "a!", "b?"],
        ];
        let mk = |name: &str, first: &str, second: &str, g: &F, u: &Upd, inv: &F| {
            let mut c = Comp::new(name, 1);
            c.loc(inv.clone());
            c.loc(F::T);
            c.edge(0, first, g.clone(), u, 1);
            c.edge(1, second, F::T, &[(0, 0)], 0);
            c
        };
        let u2: [Upd; 4] = [vec![(0, 0)], vec![], vec![(0, 1)], vec![(0, 0)]];
        let (g, h) = (d.of(&ga).clone(), d.of(&ga).clone());
        let u = d.of(&u2).clone();
        let v = [vec![(0, 0)], vec![]][d.pick(2)].clone();
        let (i, j) = ([F::T, le(1), ge(0)][d.pick(3)].clone(), [F::T, le(2), le(1)][d.pick(3)].clone());
        let a = mk("A", acts[form][0], acts[form][1], &g, &u, &i);
        let b = mk("B", acts[form][2], acts[form][3], &h, &v, &j);
        let (la, lb) = (leaf(&a), leaf(&b));
        // an abstraction of everything: any output any time
        let mut top = Comp::new("Z", 1);
        top.loc(F::T);
        let e = match form {
            0 | 1 => par(la.clone(), lb.clone()),
            2 => par(la.clone(), la.clone()),
            3 | 6 => conj(la.clone(), lb.clone()),
            _ => quot(la.clone(), lb.clone()),
        };
        let Some((ts, _)) = Ts::of(&e) else { return };
        for a in ts.outputs.iter() {
            top.edge(0, &format!("{a}!"), ge(1), &[(0, 0)], 0);
        }
        for a in ts.inputs.iter().filter(|a| !a.starts_with("quotient")) {
            top.edge(0, &format!("{a}?"), F::T, &[], 0);
        }
        let t = leaf(&top);
        let others: Vec<&Expr> = if form == 6 { vec![&la, &lb, &t] } else { vec![&t, &la] };
        all(run, "systems", k, &e, &others);
    });
    // 3b: behaviour a part has on its own but not in the system: shared inputs that never come
    let gb = [F::T, le(1), y(Op::Ge, 1), and(le(1), y(Op::Ge, 1)), and(ge(1), y(Op::Lt, 1)), le(0)];
    let n = 3u64 * 6 * 6 * 4 * 4 * 3 * 2;
    run.space("blocked", n, "a component with an input its partner never gives, with different clock use behind it");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(3);
        let (g, h) = (d.of(&gb).clone(), d.of(&gb).clone());
        let (u, v) = (d.of(&us).clone(), d.of(&us).clone());
        let inv = [F::T, y(Op::Le, 2), and(le(2), y(Op::Le, 2))][d.pick(3)].clone();
        let acts = [["a!", "a!"], ["a!", "c?"]][d.pick(2)];
        let mut a = Comp::new("A", 2);
        a.loc(F::T);
        a.loc(inv);
        a.edge(0, "a!", and(ge(1), y(Op::Ge, 1)), &[(0, 0), (1, 0)], 0);
        a.edge(0, "c?", F::T, &u, 1);
        a.edge(1, acts[0], g, &v, 1);
        a.edge(1, acts[1], h, &[], 0);
        let mut b = Comp::new("B", 1);
        b.loc(F::T);
        b.loc(F::T);
        b.edge(0, "a?", le(2), &[(0, 0)], 0);
        b.edge(1, if form == 1 { "d!" } else { "c!" }, ge(1), &[], 1);
        let (la, lb) = (leaf(&a), leaf(&b));
        let e = match form {
            0 => par(la, lb),
            1 => par(lb, la),
            _ => quot(la, {
                let mut s = Comp::new("B", 1);
                s.loc(F::T);
                s.loc(F::T);
                s.edge(0, "a!", le(2), &[(0, 0)], 0);
                s.edge(1, "c?", ge(1), &[], 1);
                leaf(&s)
            }),
        };
        let mut t = Comp::new("T", 1);
        t.loc(F::T);
        t.edge(0, "a!", ge(1), &[(0, 0)], 0);
        t.edge(0, "c!", F::T, &[], 0);
        all(run, "blocked", k, &e, &[&leaf(&t)]);
    });
    // 4: the same component on both sides of a refinement, in compositions and quotients
    let n = 5u64 * 5 * 3 * 3 * 4;
    run.space("both-sides", n, "components occurring on both sides of a refinement, with unused clocks on one side");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let (g, h) = (d.of(&ga).clone(), d.of(&ga).clone());
        let (i, j) = ([F::T, le(1), ge(0)][d.pick(3)].clone(), [F::T, le(2), ge(0)][d.pick(3)].clone());
        let mut a = Comp::new("A", 2);
        a.loc(i);
        a.edge(0, "a!", g, &[(0, 0), (1, 0)], 0);
        let mut b = Comp::new("B", 2);
        b.loc(j);
        b.edge(0, "b!", h, &[(0, 0)], 0);
        b.edge(0, "a?", F::T, &[(1, 0)], 0);
        let (la, lb) = (leaf(&a), leaf(&b));
        let (l, r) = match d.pick(4) {
            0 => (par(la.clone(), lb.clone()), la.clone()),
            1 => (par(la.clone(), lb.clone()), par(lb.clone(), la.clone())),
            2 => (lb.clone(), quot(la.clone(), la.clone())),
            _ => (lb.clone(), quot(par(la.clone(), lb.clone()), la.clone())),
        };
        for e in [&l, &r] {
            if settled(run, e) != Some(true) {
                return;
            }
        }
        same(run, "both-sides", k, &[&l, &r], &format!("refinement: {} <= {}", l.text(), r.text()));
        same(run, "both-sides", k, &[&l, &r], &format!("refinement: {} <= {}", r.text(), l.text()));
    });
    // 5: four clocks in groups that split and stay apart; which location is reached decides the answer
    let z = |op, k| c(2, op, k);
    let w = |op, k| c(3, op, k);
    let groups: [Upd; 10] = [
        vec![],
        vec![(0, 0), (1, 0), (2, 0), (3, 0)],
        vec![(0, 3), (1, 3), (2, 2), (3, 2)],
        vec![(0, 0), (1, 0)],
        vec![(2, 0), (3, 0)],
        vec![(0, 1), (2, 1)],
        vec![(1, 2), (3, 2), (0, 1), (2, 1)],
        vec![(0, 0), (1, 0), (2, 0)],
        vec![(3, 1)],
        vec![(0, 1), (1, 1), (2, 1), (3, 1), (3, 0)],
    ];
    let gr = [
        and(and(x(Op::Le, 1), y(Op::Le, 1)), and(z(Op::Ge, 4), w(Op::Ge, 4))),
        and(and(x(Op::Le, 1), z(Op::Le, 1)), and(y(Op::Ge, 3), w(Op::Ge, 3))),
        and(and(x(Op::Lt, 1), y(Op::Gt, 1)), and(z(Op::Gt, 1), w(Op::Lt, 1))),
        and(and(x(Op::Le, 1), y(Op::Le, 1)), and(z(Op::Le, 1), w(Op::Gt, 1))),
        and(and(x(Op::Gt, 1), y(Op::Lt, 1)), and(z(Op::Gt, 0), w(Op::Gt, 0))),
    ];
    let n = if quick { 10u64 * 10 * 5 * 2 } else { 10u64 * 10 * 5 * 2 * 10 };
    let repeat = if quick { 3 } else { 8 };
    run.space("groups", n, "four clocks that agree in groups: up to three edges that assign to some, a location entered only if groups differ; asked several times, as the order of groups varies between runs of the same question");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let (u, v) = (d.of(&groups).clone(), d.of(&groups).clone());
        let g = d.of(&gr).clone();
        let det = d.pick(2) == 1;
        let first = if quick { vec![] } else { d.of(&groups).clone() };
        let mut a = Comp::new("A", 4);
        for _ in 0..4 {
            a.loc(F::T);
        }
        a.loc(z(Op::Le, 4));
        let s = if first.is_empty() { 1 } else { 0 };
        a.edge(0, "i?", F::T, &first, 1);
        if s == 1 {
            a.edges.clear();
            a.locs[0].kind = Kind::Normal;
            a.locs[1].kind = Kind::Initial;
        }
        a.edge(1, "a?", F::T, &u, 2);
        a.edge(2, "b?", F::T, &v, 3);
        a.edge(3, "d!", F::T, &[], 3);
        let mut twin = a.clone();
        twin.edge(3, "c?", g.clone(), &[], 4);
        if !det {
            a = twin;
        } else {
            // an overlap that is not reachable may be reported or not (D01)
            if ask(&[twin.json()], "consistency: A", false) == Ans::Success {
                return;
            }
            a.edge(3, "d!", g, &[], 2);
        }
        let e = leaf(&a);
        for _ in 0..repeat {
            same(run, "groups", k, &[&e], &format!("{}: A", if det { "determinism" } else { "consistency" }));
        }
    });
    // 6: quotients in quotients, in compositions and conjunctions, that share their clock
    let gn = [F::T, ge(1), le(1)];
    let un: [Upd; 2] = [vec![(0, 0)], vec![]];
    let n = 6u64 * 3 * 3 * 2 * 2 * 2 * 2 * 2;
    run.space("nested", n, "several quotients in one system and on both sides of a refinement");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(6);
        let mk = |name: &str, acts: &[(&str, F, Upd)], inv: F, spare: bool| {
            let mut c = Comp::new(name, 1 + spare as usize);
            c.loc(inv);
            for (a, g, u) in acts {
                c.edge(0, a, g.clone(), u, 0);
            }
            leaf(&c)
        };
        let (g, h) = (d.of(&gn).clone(), d.of(&gn).clone());
        let (u, v) = (d.of(&un).clone(), d.of(&un).clone());
        let i = [F::T, le(2)][d.pick(2)].clone();
        let j = [F::T, le(2)][d.pick(2)].clone();
        let spare = d.pick(2) == 1 && form != 4;
        let t = mk("T", &[("a!", g.clone(), u.clone()), ("c!", F::T, v.clone()), ("b?", F::T, vec![])], i.clone(), spare);
        let s = mk("S", &[("a!", h.clone(), v.clone()), ("b?", F::T, u.clone())], j.clone(), spare);
        let q = quot(t.clone(), s.clone());
        let (l, r) = match form {
            // an outer quotient of a quotient, on the left and on the right
            0 | 1 => {
                let o = quot(q.clone(), mk("R", &[("c!", h.clone(), u.clone())], F::T, spare));
                (o, mk("Z", &[("e!", F::T, vec![])], F::T, false))
            }
            2 | 3 => {
                let o = mk("O", &[("c!", g.clone(), v.clone()), ("e!", h.clone(), u.clone()), ("a?", F::T, vec![]), ("b?", F::T, vec![])], F::T, spare);
                (quot(o, q.clone()), mk("Z", &[("e!", F::T, vec![])], F::T, false))
            }
            // side by side
            4 => {
                let t2 = mk("V", &[("e!", g.clone(), v.clone()), ("f!", h.clone(), u.clone())], j.clone(), spare);
                let s2 = mk("W", &[("e!", g.clone(), u.clone())], F::T, spare);
                (conj(q.clone(), quot(t.clone(), s.clone())), quot(t2, s2))
            }
            _ => {
                let x = mk("X", &[("c!", ge(1), v.clone()), ("a?", F::T, vec![]), ("b?", F::T, vec![])], F::T, spare);
                (conj(q.clone(), x.clone()), q.clone())
            }
        };
        for e in [&l, &r] {
            if settled(run, e) != Some(true) {
                run.trace("nested-unsettled");
                return;
            }
        }
        for e in [&l, &r] {
            same(run, "nested", k, &[e], &format!("consistency: {}", e.text()));
            same(run, "nested", k, &[e], &format!("determinism: {}", e.text()));
        }
        for (a, b) in [(&l, &r), (&r, &l), (&l, &l)] {
            same(run, "nested", k, &[a, b], &format!("refinement: {} <= {}", a.text(), b.text()));
        }
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "K01" => k01(&run),
        _ => panic!("unknown property"),
    }
    run.finish();
}
