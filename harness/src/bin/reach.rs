//! A01 reachability verdicts, A02 reachability witnesses.
use mc::cat::*;
use mc::driver::*;
use mc::model::*;
use mc::region::*;
use mc::report::*;
use mc::sem::*;
use mc::wire::*;
use serde_json::json;
use std::collections::HashSet;

/// One query: a system, an optional start and a goal; locations per instance, and a clock formula.
struct Q<'a> {
    e: &'a Expr,
    start: Option<(Vec<usize>, F)>,
    goal: (Vec<Option<usize>>, F),
    /// component instances need tags because their names repeat
    tags: Option<Vec<&'a str>>,
    style: u8,
}

fn leaves(l: &L, out: &mut Vec<usize>) -> bool {
    match l {
        L::S(i) => {
            out.push(*i);
            true
        }
        L::P(a, b) => leaves(a, out) && leaves(b, out),
        _ => false,
    }
}

fn with_leaves(ts: &Ts, at: &mut std::slice::Iter<usize>) -> L {
    use std::rc::Rc;
    match &ts.node {
        Node::Leaf { .. } => L::S(*at.next().unwrap()),
        Node::Par(a, b) | Node::Conj(a, b) => L::P(Rc::new(with_leaves(a, at)), Rc::new(with_leaves(b, at))),
        Node::Quot { t, s, .. } => L::P(Rc::new(with_leaves(t, at)), Rc::new(with_leaves(s, at))),
    }
}

fn system_text(e: &Expr, tags: &mut dyn FnMut() -> String) -> String {
    match e {
        Expr::C(c) => format!("{}{}", c.name, tags()),
        Expr::Par(a, b) => format!("({} || {})", system_text(a, tags), system_text(b, tags)),
        Expr::Conj(a, b) => format!("({} && {})", system_text(a, tags), system_text(b, tags)),
        Expr::Quot(a, b) => format!("({} // {})", system_text(a, tags), system_text(b, tags)),
    }
}

fn run_query(run: &Run, space: &str, k: u64, q: &Q, verdicts: bool) {
    let Some((ts, n)) = Ts::of(q.e) else { return };
    let nm = names(&ts);
    let tag = |i: usize| q.tags.as_ref().map(|t| format!("[{}]", t[i])).unwrap_or_default();
    // names of the reference clocks in query texts
    let mut clock_names = vec![String::new(); n];
    for (i, (c, off)) in nm.comps.iter().enumerate() {
        for (j, x) in c.clocks.iter().enumerate() {
            // the grammar takes no minus sign directly behind a name
            clock_names[off + j] = format!("{}{}.{} ", c.name, tag(i), x);
        }
    }
    let state = |locs: &[Option<usize>], f: &F, style: u8| {
        let mut parts: Vec<String> = locs
            .iter()
            .enumerate()
            .filter_map(|(i, l)| l.map(|l| format!("{}{}.{}", nm.comps[i].0.name, tag(i), nm.comps[i].0.locs[l].id)))
            .collect();
        if *f != F::T {
            let t = f.styled(&clock_names, style % 4);
            if k % 2 == 0 {
                parts.push(t)
            } else {
                parts.insert(0, t)
            }
        }
        if parts.is_empty() {
            parts.push("true".into());
        }
        parts.join(" && ")
    };
    let mut ti = 0;
    let mut next_tag = || {
        ti += 1;
        tag(ti - 1)
    };
    let text = format!(
        "reachability: {} @ {} -> {}",
        system_text(q.e, &mut next_tag),
        match &q.start {
            None => "init".to_string(),
            Some((ls, f)) => state(&ls.iter().map(|l| Some(*l)).collect::<Vec<_>>(), f, q.style),
        },
        state(&q.goal.0, &q.goal.1, q.style)
    );
    let diag = ts.has_diag() || q.goal.1.has_diag();
    let start_f = q.start.as_ref().map(|s| s.1.clone()).unwrap_or(F::T);
    let b = Bound { m: ts.max_const().max(q.goal.1.max_const()).max(start_f.max_const()), diag };
    let mut sem = Sem::new(&ts, n, b);
    let starts: Vec<St> = match &q.start {
        None => match sem.init() {
            Some(s) => vec![s],
            None => return,
        },
        Some((ls, f)) => {
            let l = with_leaves(&ts, &mut ls.iter());
            let inv = ts.inv(&l);
            all_regions(n, b.m).into_iter().filter(|r| r.eval(f) && r.eval(&inv)).map(|r| (l.clone(), r)).collect()
        }
    };
    let (states, trans) = sem.reachable(starts);
    run.states(states.len() as u64);
    run.trans(trans);
    let hit = |l: &L| {
        let mut v = vec![];
        leaves(l, &mut v) && v.iter().zip(&q.goal.0).all(|(a, b)| b.map(|b| b == *a).unwrap_or(true))
    };
    let want = states.iter().any(|(l, r)| hit(l) && r.eval(&q.goal.1));
    let mut comps = vec![];
    q.e.comps(&mut comps);
    let mut jsons: Vec<String> = comps.iter().map(|c| c.json()).collect();
    jsons.dedup();
    let shown: Vec<String> = comps.iter().map(|c| c.show()).collect();
    let got = ask(&jsons, &text, k % 3 == 0);
    run.trace(&format!("{}:{}", if want { "reachable" } else { "unreachable" }, got.class()));
    if k % 20011 == 0 {
        run.sample(json!({"space": space, "models": shown, "query": text, "reachable": want}));
    }
    let report = |what: String, exp: &str| {
        run.violation(
            &format!("{space} | {text} | {}", shown.join(" | ")),
            &what,
            query_replay(&jsons, &text, k % 3 == 0, &shown, exp, &format!("{got:?}").chars().take(1500).collect::<String>()),
        )
    };
    if verdicts {
        let ok = match &got {
            Ans::Path(_) => want,
            Ans::Unreachable => !want,
            // a conjunction may be rejected for having no consistent behaviour
            Ans::Model(_) => matches!(q.e, Expr::Conj(..)),
            _ => false,
        };
        if !ok {
            report(
                format!("{text}: model says {}, implementation says {}", if want { "reachable" } else { "unreachable" }, got.brief()),
                if want { "reachable" } else { "unreachable" },
            );
        }
        return;
    }
    let Ans::Path(p) = &got else { return };
    if !want {
        return; // no witness exists; the verdict itself is A01's
    }
    if let Err(why) = witness(run, q, &ts, n, &nm, p, &hit) {
        report(format!("{text}: witness {}: {why}", show_path(p)), "an executable path to the goal");
    }
}

fn show_path(p: &[reveaal::ProtobufServer::services::Decision]) -> String {
    let v: Vec<String> = p
        .iter()
        .map(|d| format!("{}[{}]", d.action, d.edges.iter().map(|e| e.id.clone()).collect::<Vec<_>>().join(",")))
        .collect();
    format!("<{}>", v.join(" "))
}

fn witness(
    run: &Run,
    q: &Q,
    ts: &Ts,
    n: usize,
    nm: &Names,
    p: &[reveaal::ProtobufServer::services::Decision],
    hit: &dyn Fn(&L) -> bool,
) -> Result<(), String> {
    let decs: Vec<Dec> = p.iter().map(|d| decision(nm, ts, d)).collect::<Result<_, _>>()?;
    let mut m = ts.max_const().max(q.goal.1.max_const());
    for d in &decs {
        m = m.max(d.src.1.max_const()).max(d.dst.1.max_const());
    }
    let b = Bound { m, diag: true };
    // the start: initial state, or every valuation given by the query
    let (mut loc, mut set) = match &q.start {
        None => (ts.init().unwrap(), HashSet::from([Reg::zero(n).canon(b)])),
        Some((ls, f)) => {
            let m = m.max(f.max_const());
            (with_leaves(ts, &mut ls.iter()), universe(n, m).into_iter().filter(|r| r.eval(f)).collect())
        }
    };
    let b = match &q.start {
        Some((_, f)) => Bound { m: m.max(f.max_const()), diag: true },
        None => b,
    };
    set = delayed(ts, &loc, &set, b);
    let met = |l: &L, s: &HashSet<Reg>| hit(l) && s.iter().any(|r| r.eval(&q.goal.1));
    if met(&loc, &set) && !p.is_empty() {
        return Err("the start meets the goal, yet the path is not empty".into());
    }
    for (i, d) in decs.iter().enumerate() {
        run.trans(1);
        if d.src.0 != loc {
            return Err(format!("step {i} does not start where the previous one ended"));
        }
        let mut next = HashSet::new();
        let want: Vec<(usize, String)> = d.edges.clone();
        let mut matched = false;
        let mut edges_known = vec![];
        for t in ts.trans(&loc, &d.act) {
            edges_known.push(t.edges.clone());
            if t.dst != d.dst.0 || t.edges != want {
                continue;
            }
            matched = true;
            for r in &set {
                if r.eval(&d.src.1) && r.eval(&t.guard) {
                    next.insert(r.assign(&t.resets, b));
                }
            }
        }
        if !matched {
            return Err(format!("step {i}: no transition on {} with edges {want:?} to the destination", d.act));
        }
        if next.is_empty() {
            return Err(format!("step {i} cannot be executed from the zone it names"));
        }
        loc = d.dst.0.clone();
        set = delayed(ts, &loc, &next, b);
        run.states(set.len() as u64);
        if set.iter().all(|r| !r.eval(&d.dst.1)) {
            return Err(format!("step {i} does not lead into the zone it names"));
        }
    }
    if !met(&loc, &set) {
        return Err("the last state does not meet the goal".into());
    }
    Ok(())
}

fn spaces(run: &Run, verdicts: bool) {
    let quick = run.quick();
    // one component, from the initial state
    let invs = if quick { vec![F::T, le(1), lt(2)] } else { vec![F::T, le(1), lt(1), lt(2)] };
    let gs = if quick { vec![F::T, ge(1), gt(2), lt(1)] } else { vec![F::T, ge(1), gt(1), eq(1), gt(2), lt(1), le(1)] };
    let us: [Upd; 3] = [vec![], vec![(0, 0)], vec![(0, 2)]];
    let us1 = if quick { us[..2].to_vec() } else { us.to_vec() };
    let goals: Vec<F> = vec![F::T, lt(1), eq(1), gt(2), ge(3), or(lt(1), gt(2)), and(gt(1), lt(2)), F::N];
    let starts: Vec<Option<(usize, F)>> =
        vec![None, Some((0, F::T)), Some((0, eq(0))), Some((1, le(1))), Some((1, gt(1))), Some((2, and(gt(0), lt(1)))), Some((0, or(lt(1), gt(3))))];
    let (ni, ng) = (invs.len() as u64, gs.len() as u64);
    let n = ni * 4 * ng * 3 * ng * us1.len() as u64 * 2 * 3 * 4 * 8 * 7;
    run.space("one-component", n, "three locations in a row with a way back: invariants x guards x updates x start x goal");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let start = d.of(&starts).clone();
        let goal = d.of(&goals).clone();
        let gl = d.pick(4);
        let mut c = Comp::new("A", 1);
        c.loc(d.of(&invs).clone());
        c.loc([F::T, le(1), and(ge(1), lt(3)), ge(2)][d.pick(4)].clone());
        c.loc(F::T);
        let (g0, u0) = (d.of(&gs).clone(), d.of(&us).clone());
        let (g1, u1) = (d.of(&gs).clone(), d.of(&us1).clone());
        let kind = d.pick(2);
        let back = d.pick(3);
        c.edge(0, "a!", g0, &u0, 1);
        c.edge(1, ["b?", "a!"][kind], g1, &u1, 2);
        match back {
            0 => {}
            1 => c.edge(1, "c!", eq(1), &[(0, 0)], 0),
            _ => c.edge(2, "a?".replace('?', "!").as_str(), ge(2), &[], 0),
        }
        let q = Q {
            e: &leaf(&c),
            start: start.map(|(l, f)| (vec![l], f)),
            goal: (vec![if gl == 3 { None } else { Some(gl) }], goal),
            tags: None,
            style: (k % 5) as u8,
        };
        run_query(run, "one-component", k, &q, verdicts);
    });
    // longer components: what an early edge sets has to survive locations without invariants
    let invs5 = [F::T, le(2)];
    let g5 = [F::T, ge(2), lt(1)];
    let n = 2u64 * 2 * 3 * 3 * 3 * 3 * 2 * 2 * 4 * 2 * 3;
    run.space("five-locations", n, "four or five locations in a row with a way back and a shortcut: invariants x guards x resets x shortcut x goal");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let goal = [F::T, ge(4), lt(1), eq(3)][d.pick(4)].clone();
        let long = d.pick(2);
        let mut c = Comp::new("A", 1);
        let (i1, i3) = (d.of(&invs5).clone(), d.of(&invs5).clone());
        for i in [F::T, i1, F::T, i3, F::T][..4 + long].iter() {
            c.loc(i.clone());
        }
        let r: [Upd; 2] = [vec![], vec![(0, 0)]];
        let last = 3 + long;
        let (u1, u3) = (d.of(&r).clone(), d.of(&r).clone());
        let g: Vec<F> = (0..4).map(|_| d.of(&g5).clone()).collect();
        c.edge(0, "a!", g[0].clone(), &[], 1);
        c.edge(1, "b?", g[1].clone(), &u1, 2);
        c.edge(2, "a!", g[2].clone(), &[], 3);
        if long == 1 {
            c.edge(3, "b?", ge(3), &u3, 4);
        } else {
            c.edge(3, "c!", ge(2), &u3, 0);
        }
        c.edge(last, "b?", g[3].clone(), &[(0, 1)], 0);
        match d.pick(3) {
            0 => {}
            1 => c.edge(1, "c!", eq(1), &[(0, 0)], last),
            _ => c.edge(1, "c!", ge(2), &[], last),
        }
        let q = Q { e: &leaf(&c), start: None, goal: (vec![Some(last)], goal), tags: None, style: (k % 5) as u8 };
        run_query(run, "five-locations", k, &q, verdicts);
    });
    // two clocks in one component, with goals over their difference
    let two_goals = vec![
        c(1, Op::Gt, 2),
        and(c(0, Op::Lt, 1), c(1, Op::Ge, 2)),
        and(c(0, Op::Eq, 0), c(1, Op::Eq, 3)),
        F::D(1, 0, Op::Gt, 1),
        F::D(1, 0, Op::Eq, 2),
        F::D(0, 1, Op::Ge, 1),
        and(F::D(1, 0, Op::Ge, 1), c(0, Op::Lt, 1)),
        or(F::D(0, 1, Op::Gt, 0), c(1, Op::Gt, 3)),
    ];
    let g2 = [F::T, le(1), ge(1), c(1, Op::Ge, 2), and(eq(1), c(1, Op::Lt, 3))];
    let i2 = [F::T, le(1), c(1, Op::Le, 2)];
    let u2: [Upd; 4] = [vec![], vec![(0, 0)], vec![(1, 0)], vec![(0, 1), (1, 0)]];
    let n = 3u64 * 3 * 5 * 4 * 5 * 4 * 8 * 3 * 3;
    run.space("two-clocks", n, "two locations and two clocks, goals over both clocks and their difference");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let goal = d.of(&two_goals).clone();
        let gl = d.pick(3);
        let st = d.pick(3);
        // differences are asked for from the initial state only
        if st > 0 && goal.has_diag() {
            return;
        }
        let mut a = Comp::new("A", 2);
        a.loc(d.of(&i2).clone());
        a.loc(d.of(&i2).clone());
        a.edge(0, "a!", d.of(&g2).clone(), &d.of(&u2).clone(), 1);
        a.edge(1, "b!", d.of(&g2).clone(), &d.of(&u2).clone(), 0);
        let q = Q {
            e: &leaf(&a),
            start: [None, Some((vec![0], and(c(0, Op::Lt, 1), c(1, Op::Gt, 1)))), Some((vec![1], c(1, Op::Eq, 1)))][st].clone(),
            goal: (vec![if gl == 2 { None } else { Some(gl) }], goal),
            tags: None,
            style: (k % 4) as u8,
        };
        run_query(run, "two-clocks", k, &q, verdicts);
    });
    // two instances, composed in every way; the components use the same clock name
    let ga = [F::T, ge(1), eq(1)];
    let n = 4u64 * 3 * 3 * 3 * 3 * 2 * 3 * 3 * 6 * 5;
    run.space("two-components", n, "two components of two locations: shared output/input, shared inputs, independent, conjunction, quotient; partial goals");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(5);
        let goal_f = d.pick(6);
        let goal_l = (d.pick(3), d.pick(3));
        let st = d.pick(4);
        let acts: [[&str; 4]; 5] = [
            ["a!", "b!", "a?", "c!"],
            ["a?", "b!", "a?", "c!"],
            ["a!", "b?", "c!", "d?"],
            ["a!", "b?", "a!", "b?"],
            ["a!", "b!", "a!", "b?"],
        ];
        let mk = |name: &str, first: &str, second: &str, g: F, h: F, inv: F| {
            let mut c = Comp::new(name, 1);
            c.loc(inv);
            c.loc(F::T);
            c.edge(0, first, g, &[(0, 0)], 1);
            c.edge(1, second, h, &[], 0);
            c
        };
        let a = mk("A", acts[form][0], acts[form][1], d.of(&ga).clone(), d.of(&ga).clone(), [F::T, le(1)][d.pick(2)].clone());
        let b = mk("B", acts[form][2], acts[form][3], d.of(&ga).clone(), d.of(&ga).clone(), F::T);
        let e = match form {
            0..=2 => par(leaf(&a), leaf(&b)),
            3 => conj(leaf(&a), leaf(&b)),
            _ => quot(leaf(&a), leaf(&b)),
        };
        let o = |i: usize| if i == 2 { None } else { Some(i) };
        if form == 4 && (goal_l == (2, 2) || st > 0) {
            // nothing specified, and start states with quotient clocks, are left out
            return;
        }
        let goals = [F::T, and(lt(1), c(1, Op::Gt, 1)), c(1, Op::Eq, 1), and(c(1, Op::Lt, 1), gt(2)), F::D(0, 1, Op::Eq, 1), F::D(1, 0, Op::Gt, 1)];
        if st > 0 && goal_f >= 4 {
            return;
        }
        let q = Q {
            e: &e,
            start: [None, Some((vec![0, 1], F::T)), Some((vec![1, 0], and(lt(1), c(1, Op::Eq, 2)))), Some((vec![1, 1], c(1, Op::Gt, 0)))][st].clone(),
            goal: (vec![o(goal_l.0), o(goal_l.1)], goals[goal_f].clone()),
            tags: None,
            style: (k % 4) as u8,
        };
        run_query(run, "two-components", k, &q, verdicts);
    });
    // several instances of one component, told apart by tags
    let n = 3u64 * 3 * 2 * 3 * 3 * 6 * 3 * 2;
    run.space("instances", n, "two or three instances of one component, told apart by tags in system, start and goal");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut a = Comp::new("A", 1);
        a.loc([F::T, le(1)][d.pick(2)].clone());
        a.loc(F::T);
        a.edge(0, "a?", d.of(&ga).clone(), &[(0, 0)], 1);
        a.edge(1, "b?", d.of(&ga).clone(), &[], 0);
        let form = d.pick(3);
        let e = match form {
            0 => par(leaf(&a), leaf(&a)),
            1 => conj(leaf(&a), leaf(&a)),
            _ => par(leaf(&a), par(leaf(&a), leaf(&a))),
        };
        let o = |i: usize| if i == 2 { None } else { Some(i) };
        let gl = [d.pick(3), d.pick(3), 2];
        let goals = [F::T, and(lt(1), c(1, Op::Gt, 1)), c(1, Op::Eq, 1), and(c(1, Op::Lt, 1), gt(2)), F::D(0, 1, Op::Eq, 1), F::D(1, 0, Op::Gt, 1)];
        let gf = d.pick(6);
        let m = if form == 2 { 3 } else { 2 };
        let st = d.pick(3);
        if st > 0 && gf >= 4 {
            return;
        }
        let starts: [Option<(Vec<usize>, F)>; 3] =
            [None, Some((vec![0, 1, 0][..m].to_vec(), F::T)), Some((vec![1, 0, 0][..m].to_vec(), and(eq(1), c(1, Op::Lt, 1))))];
        let q = Q {
            e: &e,
            start: starts[st].clone(),
            goal: (gl[..m].iter().map(|i| o(*i)).collect(), goals[gf].clone()),
            tags: Some(if d.pick(2) == 0 { vec!["1", "2", "3"] } else { vec!["left", "1", "A"] }),
            style: (k % 4) as u8,
        };
        run_query(run, "instances", k, &q, verdicts);
    });
}

/// Names that a sloppy comparison mistakes for each other.
fn alike(run: &Run, verdicts: bool) {
    let acts = ["go", "Go", "goo"];
    let pairs = [("A", "a"), ("M", "M1"), ("M1", "M")];
    let n = 81 * 2 * 3 * 4 * 3 * 3 * 3;
    run.space("alike", n, "actions, locations, clocks and components whose names differ in case or are prefixes of each other");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let act: Vec<&str> = (0..4).map(|_| acts[d.pick(3)]).collect();
        let way = ["!", "?"][d.pick(2)];
        let (n1, n2) = pairs[d.pick(3)];
        let goal_l = (d.pick(4), d.pick(3));
        let goal_f = [F::T, and(ge(1), c(1, Op::Lt, 1)), c(2, Op::Gt, 1)][d.pick(3)].clone();
        let g = [F::T, ge(1), c(1, Op::Gt, 1)][d.pick(3)].clone();
        let mut a = Comp::new(n1, 2);
        a.clocks[1] = "X".into();
        for id in ["L0", "l0", "L"] {
            let l = a.loc(F::T);
            a.locs[l].id = id.into();
        }
        a.edge(0, &format!("{}{way}", act[0]), g, &[(0, 0)], 1);
        a.edge(0, &format!("{}{way}", act[1]), c(1, Op::Le, 1), &[(1, 0)], 2);
        a.edge(1, &format!("{}{way}", act[2]), F::T, &[(1, 0)], 2);
        let mut b = Comp::new(n2, 1);
        for id in ["L0", "l0"] {
            let l = b.loc(F::T);
            b.locs[l].id = id.into();
        }
        b.edge(0, &format!("{}?", act[3]), ge(1), &[], 1);
        let q = Q {
            e: &par(leaf(&a), leaf(&b)),
            start: None,
            goal: (vec![if goal_l.0 == 3 { None } else { Some(goal_l.0) }, if goal_l.1 == 2 { None } else { Some(goal_l.1) }], goal_f),
            tags: None,
            style: (k % 4) as u8,
        };
        run_query(run, "alike", k, &q, verdicts);
    });
}

/// Locations of the special kinds, alone and beside another component.
fn kinds(run: &Run, verdicts: bool) {
    let gs = [F::T, le(1), gt(1)];
    let n = 3u64 * 2 * 3 * 2 * 2 * 3 * 3 * 4 * 3 * 3;
    run.space("kinds", n, "a component with a universal or inconsistent location, alone, composed or conjoined with another: guards x updates x actions x goals");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(3);
        let kind = [Kind::Universal, Kind::Inconsistent][d.pick(2)];
        let g = gs[d.pick(3)].clone();
        let u: Vec<(usize, i32)> = if d.pick(2) == 0 { vec![] } else { vec![(0, 0)] };
        let way = ["!", "?"][d.pick(2)];
        let enter = ["a", "b", "c"][d.pick(3)];
        let leave = ["a", "b", "c"][d.pick(3)];
        let goal_l = (d.pick(4), d.pick(3));
        let goal_f = [F::T, and(le(1), c(if form == 0 { 0 } else { 1 }, Op::Gt, 1)), gt(2)][d.pick(3)].clone();
        if form == 0 && goal_l.1 != 2 {
            return;
        }
        let mut a = Comp::new("A", 1);
        a.stars = k % 2 == 0;
        a.loc(F::T);
        a.loc_kind(kind);
        a.loc(le(2));
        a.edge(0, &format!("{enter}{way}"), g, &u, 1);
        a.edge(0, &format!("{leave}{way}"), le(1), &[], 2);
        a.edge(2, &format!("{enter}{way}"), F::T, &[(0, 0)], 0);
        let mut b = Comp::new("B", 1);
        b.loc(F::T);
        b.loc(F::T);
        let other = if form == 2 { way } else { "?" };
        b.edge(0, &format!("a{other}"), ge(1), &[(0, 0)], 1);
        b.edge(1, &format!("b{other}"), F::T, &[], 0);
        b.edge(1, &format!("c{other}"), le(1), &[(0, 0)], 0);
        let e = match form {
            0 => leaf(&a),
            1 => par(leaf(&a), leaf(&b)),
            _ => conj(leaf(&a), leaf(&b)),
        };
        let o = |i: usize, m: usize| if i == m { None } else { Some(i) };
        let q = Q {
            e: &e,
            start: if form == 0 && k % 5 == 0 { Some((vec![1], eq(1))) } else { None },
            goal: (if form == 0 { vec![o(goal_l.0, 3)] } else { vec![o(goal_l.0, 3), o(goal_l.1, 2)] }, goal_f),
            tags: None,
            style: (k % 4) as u8,
        };
        run_query(run, "kinds", k, &q, verdicts);
    });
}

/// An expression over states as a query may contain it.
#[derive(Clone)]
enum SE {
    Atom(usize),
    Not(Box<SE>),
    And(Box<SE>, Box<SE>),
    Or(Box<SE>, Box<SE>),
}

#[derive(Clone)]
enum SA {
    /// instance, location
    At(usize, usize),
    Where(F),
    /// names nothing in the system
    Bad,
}

struct SDom {
    /// text and meaning
    atoms: Vec<(String, SA)>,
}

impl SE {
    fn text(&self, d: &SDom) -> String {
        match self {
            SE::Atom(i) => d.atoms[*i].0.clone(),
            SE::Not(a) => format!("!({})", a.text(d)),
            SE::And(a, b) => format!("({} && {})", a.text(d), b.text(d)),
            SE::Or(a, b) => format!("({} || {})", a.text(d), b.text(d)),
        }
    }
    /// With as few parentheses as the grammar allows.
    fn flat(&self, d: &SDom) -> String {
        match self {
            SE::Atom(i) => d.atoms[*i].0.clone(),
            SE::Not(a) => format!("!({})", a.flat(d)),
            SE::And(a, b) => {
                let side = |x: &SE| if matches!(x, SE::Or(..)) { format!("({})", x.flat(d)) } else { x.flat(d) };
                format!("{} && {}", side(a), side(b))
            }
            SE::Or(a, b) => format!("{} || {}", a.flat(d), b.flat(d)),
        }
    }
    fn locations(&self, d: &SDom) -> bool {
        match self {
            SE::Atom(i) => !matches!(d.atoms[*i].1, SA::Where(_)),
            SE::Not(a) => a.locations(d),
            SE::And(a, b) | SE::Or(a, b) => a.locations(d) || b.locations(d),
        }
    }
    /// Locations per instance and the constraint; None where the expression is to be refused.
    fn meaning(&self, d: &SDom, locs: &mut Vec<Option<usize>>) -> Option<F> {
        match self {
            SE::Atom(i) => match &d.atoms[*i].1 {
                SA::Bad => None,
                SA::Where(f) => Some(f.clone()),
                SA::At(i, l) => {
                    if locs[*i].is_some_and(|m| m != *l) {
                        return None;
                    }
                    locs[*i] = Some(*l);
                    Some(F::T)
                }
            },
            SE::Not(_) => None,
            SE::And(a, b) => {
                let f = a.meaning(d, locs)?;
                Some(and(f, b.meaning(d, locs)?))
            }
            SE::Or(a, b) => {
                if self.locations(d) {
                    return None;
                }
                let f = a.meaning(d, locs)?;
                Some(or(f, b.meaning(d, locs)?))
            }
        }
    }
}

/// Which expressions are states, and which states they are.
fn expressions(run: &Run) {
    let mut a = Comp::new("A", 1);
    a.loc(le(2));
    a.loc(F::T);
    a.edge(0, "a?", ge(1), &[(0, 0)], 1);
    a.edge(1, "b?", F::T, &[], 0);
    let mut b = Comp::new("B", 1);
    b.clocks = vec!["y".into()];
    b.loc(F::T);
    b.loc(F::T);
    b.edge(0, "a?", F::T, &[], 1);
    b.edge(0, "c?", gt(1), &[(0, 0)], 0);
    // the same name, but never out of time: a conjunction of it with itself is consistent
    let mut free = a.clone();
    free.locs[0].inv = F::T;
    // systems, and what the names of clocks and locations are in them
    type Sys = (String, Expr, Vec<(String, Comp)>, Vec<(&'static str, SA)>);
    let at = SA::At;
    let systems: Vec<Sys> = vec![
        (
            "A || B".into(),
            par(leaf(&a), leaf(&b)),
            vec![("A".into(), a.clone()), ("B".into(), b.clone())],
            vec![
                ("A.L0", at(0, 0)),
                ("A.L1", at(0, 1)),
                ("B.L1", at(1, 1)),
                ("A.x <= 1", SA::Where(le(1))),
                ("B.y > 1", SA::Where(c(1, Op::Gt, 1))),
                ("true", SA::Where(F::T)),
                ("false", SA::Where(F::N)),
                ("A.L9", SA::Bad),
                ("C.L0", SA::Bad),
                ("A[1].L0", SA::Bad),
                ("A.y <= 1", SA::Bad),
                ("C.x <= 1", SA::Bad),
                ("B[A].y <= 1", SA::Bad),
            ],
        ),
        (
            "A[1] || A[2]".into(),
            par(leaf(&a), leaf(&a)),
            vec![("A[1]".into(), a.clone()), ("A[2]".into(), a.clone())],
            vec![
                ("A[1].L0", at(0, 0)),
                ("A[2].L0", at(1, 0)),
                ("A[2].L1", at(1, 1)),
                ("A[1].x <= 1", SA::Where(le(1))),
                ("A[2].x > 1", SA::Where(c(1, Op::Gt, 1))),
                ("A[2].x >= 1", SA::Where(c(1, Op::Ge, 1))),
                ("A.L0", SA::Bad),
                ("A[3].L1", SA::Bad),
                ("A.x <= 1", SA::Bad),
                ("A[12].x <= 1", SA::Bad),
                ("A[1].L9", SA::Bad),
            ],
        ),
        (
            "A[1] && A".into(),
            conj(leaf(&free), leaf(&free)),
            vec![("A[1]".into(), free.clone()), ("A".into(), free.clone())],
            vec![
                ("A[1].L1", at(0, 1)),
                ("A[1].L0", at(0, 0)),
                ("A.L1", at(1, 1)),
                ("A.L0", at(1, 0)),
                ("A.x > 1", SA::Where(c(1, Op::Gt, 1))),
                ("A[1].x < 1", SA::Where(lt(1))),
                ("A[A].L0", SA::Bad),
                ("A[A].x < 1", SA::Bad),
            ],
        ),
    ];
    for (text, e, insts, atoms) in systems {
        let dom = SDom { atoms: atoms.iter().map(|(t, m)| (t.to_string(), m.clone())).collect() };
        let n = dom.atoms.len() as u64;
        // atom; pair; three with either grouping; each atom or the whole negated
        let shapes = 1 + 2 + 8;
        let cases = n * n * n * shapes * 4 * 4;
        run.space(&format!("expressions over {text}"), cases, "start and goal expressions: conjunctions, disjunctions and negations of up to three locations and constraints, some of which name nothing in the system");
        let (ts, nc) = Ts::of(&e).unwrap();
        let mut jsons: Vec<String> = insts.iter().map(|(_, c)| c.json()).collect();
        jsons.dedup();
        let shown: Vec<String> = insts.iter().map(|(_, c)| c.show()).collect();
        run.for_all(cases, |k| {
            let mut d = Dig(k);
            let at = [d.pick(n as usize), d.pick(n as usize), d.pick(n as usize)];
            let shape = d.pick(shapes as usize);
            let neg = d.pick(4);
            let form = d.pick(4);
            let place = form % 3;
            // shapes that leave atoms out are built once
            if (shape == 0 && (at[1], at[2]) != (0, 0)) || (shape < 3 && at[2] != 0) || neg > 2 && shape < 3 {
                return;
            }
            let atom = |i: usize| {
                let x = SE::Atom(at[i]);
                if neg == i + 1 {
                    SE::Not(Box::new(x))
                } else {
                    x
                }
            };
            let join = |o: usize, a: SE, b: SE| if o == 0 { SE::And(Box::new(a), Box::new(b)) } else { SE::Or(Box::new(a), Box::new(b)) };
            let x = match shape {
                0 => atom(0),
                1 | 2 => join(shape - 1, atom(0), atom(1)),
                _ => {
                    let s = shape - 3;
                    if s % 2 == 0 {
                        join(s / 2 % 2, join(s / 4, atom(0), atom(1)), atom(2))
                    } else {
                        join(s / 2 % 2, atom(0), join(s / 4, atom(1), atom(2)))
                    }
                }
            };
            // as the goal; as the start; as the start together with one location of each instance
            let full: Vec<usize> = vec![0; insts.len()];
            let whole = insts.iter().map(|(name, c)| format!("{name}.{}", c.locs[0].id)).collect::<Vec<_>>().join(" && ");
            let mut locs = vec![None; insts.len()];
            if place == 2 {
                locs = full.iter().map(|l| Some(*l)).collect();
            }
            let f = x.meaning(&dom, &mut locs);
            let (from, to) = match place {
                0 => ("init".to_string(), if form == 3 { x.flat(&dom) } else { x.text(&dom) }),
                1 => (x.text(&dom), whole.clone()),
                _ => (format!("{whole} && {}", x.text(&dom)), format!("{}.{}", insts[1].0, insts[1].1.locs[1].id)),
            };
            let q = format!("reachability: {text} @ {from} -> {to}");
            let refused = f.is_none() || (place > 0 && locs.iter().any(|l| l.is_none()));
            let want = if refused {
                "refused"
            } else {
                let f = f.unwrap();
                let b = Bound { m: ts.max_const().max(f.max_const()), diag: false };
                let mut sem = Sem::new(&ts, nc, b);
                let starts: Vec<St> = if place == 0 {
                    sem.init().into_iter().collect()
                } else {
                    let l = with_leaves(&ts, &mut locs.iter().map(|l| l.unwrap()).collect::<Vec<_>>().iter());
                    let inv = ts.inv(&l);
                    all_regions(nc, b.m).into_iter().filter(|r| r.eval(&f) && r.eval(&inv)).map(|r| (l.clone(), r)).collect()
                };
                let (states, trans) = sem.reachable(starts);
                run.states(states.len() as u64);
                run.trans(trans);
                let goal: (Vec<Option<usize>>, F) = match place {
                    0 => (locs, f),
                    1 => (full.iter().map(|l| Some(*l)).collect(), F::T),
                    _ => (vec![None, Some(1)], F::T),
                };
                let hit = states.iter().any(|(l, r)| {
                    let mut v = vec![];
                    leaves(l, &mut v) && v.iter().zip(&goal.0).all(|(a, b)| b.map(|b| b == *a).unwrap_or(true)) && r.eval(&goal.1)
                });
                if hit {
                    "reachable"
                } else {
                    "unreachable"
                }
            };
            let got = ask(&jsons, &q, false);
            run.trace(&format!("{want}:{}", got.class()));
            let ok = match want {
                "refused" => matches!(got, Ans::Error(_) | Ans::Status(..)),
                w => got.class() == w,
            };
            if !ok {
                run.violation(
                    &format!("expressions | {q}"),
                    &format!("{q}: expected {want}, answer {}", got.brief()),
                    query_replay(&jsons, &q, false, &shown, want, &got.brief()),
                );
            }
        });
    }
}

/// Goals with sums and differences on both sides of the comparison.
fn sums(run: &Run) {
    let mut a = Comp::new("A", 1);
    a.loc(le(2));
    a.loc(F::T);
    a.edge(0, "a?", ge(1), &[(0, 0)], 1);
    a.edge(1, "b?", lt(1), &[], 0);
    let mut b = Comp::new("B", 1);
    b.clocks = vec!["y".into()];
    b.loc(le(3));
    b.loc(F::T);
    b.edge(0, "a?", F::T, &[], 1);
    b.edge(0, "c?", gt(1), &[(0, 0)], 0);
    let e = par(leaf(&a), leaf(&b));
    let (ts, nc) = Ts::of(&e).unwrap();
    let terms = ["A.x", "B.y", "1", "2"];
    // all sums of up to n terms: text, factors, constant
    let sums = |n: usize| {
        let mut all: Vec<(String, [i32; 2], i32)> = vec![];
        let mut last: Vec<(String, [i32; 2], i32)> = vec![(String::new(), [0, 0], 0)];
        for len in 1..=n {
            let mut next = vec![];
            for (text, f, c) in &last {
                for (i, t) in terms.iter().enumerate() {
                    for sign in [1, -1] {
                        if len == 1 && sign == -1 {
                            continue;
                        }
                        let (mut f, mut c) = (*f, *c);
                        match i {
                            0 | 1 => f[i] += sign,
                            _ => c += sign * (i as i32 - 1),
                        }
                        let text = if len == 1 { t.to_string() } else { format!("{text} {} {t}", if sign == 1 { "+" } else { "-" }) };
                        next.push((text, f, c));
                    }
                }
            }
            all.extend(next.iter().cloned());
            last = next;
        }
        all
    };
    let left = sums(3);
    let right = sums(if run.quick() { 2 } else { 3 });
    let ops = [("<", Op::Lt), ("<=", Op::Le), ("==", Op::Eq), (">=", Op::Ge), (">", Op::Gt)];
    let mut sem = Sem::new(&ts, nc, Bound { m: 12, diag: true });
    let starts = sem.init().into_iter().collect();
    let (states, trans) = sem.reachable(starts);
    run.states(states.len() as u64);
    run.trans(trans);
    let states: Vec<_> = states.into_iter().map(|(_, r)| r).collect();
    let jsons = [a.json(), b.json()];
    let shown = [a.show(), b.show()];
    let n = (left.len() * right.len() * 5) as u64;
    run.space("sums", n, "goals that compare sums and differences of two clocks and numbers");
    // the reachable valuations that meet each goal are the same for goals of one meaning
    let met: std::sync::Mutex<std::collections::HashMap<String, bool>> = Default::default();
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let (l, r) = (d.of(&left), d.of(&right));
        let (sign, op) = ops[d.pick(5)];
        let turned = match op {
            Op::Lt => Op::Gt,
            Op::Le => Op::Ge,
            Op::Ge => Op::Le,
            Op::Gt => Op::Lt,
            o => o,
        };
        let f = [l.1[0] - r.1[0], l.1[1] - r.1[1]];
        let c = r.2 - l.2;
        let fixed = |o: Op, c: i32| match o {
            Op::Lt => 0 < c,
            Op::Le => 0 <= c,
            Op::Eq => 0 == c,
            Op::Ge => 0 >= c,
            Op::Gt => 0 > c,
        };
        let truth = |b: bool| if b { F::T } else { F::N };
        let one = |x: usize, o: Op, c: i32| if c >= 0 { F::C(x, o, c) } else { truth(matches!(o, Op::Ge | Op::Gt)) };
        let meaning = match f {
            [0, 0] => truth(fixed(op, c)),
            [1, 0] => one(0, op, c),
            [0, 1] => one(1, op, c),
            [-1, 0] => one(0, turned, -c),
            [0, -1] => one(1, turned, -c),
            [1, -1] if c >= 0 => F::D(0, 1, op, c),
            [1, -1] => F::D(1, 0, turned, -c),
            [-1, 1] if c >= 0 => F::D(1, 0, op, c),
            [-1, 1] => F::D(0, 1, turned, -c),
            // no comparison of two clocks
            _ => return,
        };
        let q = format!("reachability: A || B @ init -> {} {sign} {}", l.0, r.0);
        let key = format!("{meaning:?}");
        let known = met.lock().unwrap().get(&key).copied();
        let want = known.unwrap_or_else(|| {
            let w = states.iter().any(|r| r.eval(&meaning));
            met.lock().unwrap().insert(key, w);
            w
        });
        let want = if want { "reachable" } else { "unreachable" };
        let got = ask(&jsons, &q, false);
        run.states(1);
        run.trace(&format!("{want}:{}", got.class()));
        if got.class() != want {
            run.violation(
                &format!("sums | {q}"),
                &format!("{q}: expected {want}, answer {}", got.brief()),
                query_replay(&jsons, &q, false, &shown, want, &got.brief()),
            );
        }
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "A01" => {
            spaces(&run, true);
            alike(&run, true);
            kinds(&run, true);
            expressions(&run);
            sums(&run)
        }
        "A02" => {
            spaces(&run, false);
            alike(&run, false);
            kinds(&run, false)
        }
        _ => panic!("unknown property"),
    }
    run.finish()
}
