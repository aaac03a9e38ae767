use mc::cat::*;
use mc::driver::*;
use mc::model::*;
use mc::report::*;
use mc::sem::*;
use mc::wire::*;
use serde_json::json;

/// One pair: the model verdict against the implementation's.
fn pair(run: &Run, space: &str, k: u64, s: &Comp, t: &Comp, js: &str, jt: &str) {
    let mut jsons = vec![js.to_string(), jt.to_string()];
    jsons.truncate(if s.name == t.name { 1 } else { 2 });
    systems(run, space, k, &leaf(s), &leaf(t), jsons, &[s.show(), t.show()]);
}

fn systems(run: &Run, space: &str, k: u64, s: &Expr, t: &Expr, jsons: Vec<String>, shown: &[String]) {
    let mut cnt = Cnt::default();
    let want = match refines_expr(s, t, &mut cnt) {
        None => return,
        Some(w) => w,
    };
    run.states(cnt.states);
    run.trans(cnt.trans);
    let q = format!("refinement: {} <= {}", s.text(), t.text());
    if run.id == "R03" && want.is_ok() {
        return;
    }
    let got = ask(&jsons, &q, false);
    if run.id == "R03" {
        run.trace(&got.class());
        if k < 2 {
            run.sample(json!({"space": space, "query": q, "models": shown, "answer": got.brief()}));
        }
        if let Err(why) = named_state(run, s, t, &got) {
            run.violation(
                &format!("{space} | {q} | {}", shown.join(" | ")),
                &format!("{q}: {why}"),
                query_replay(&jsons, &q, false, shown, "a reachable state where the refinement fails as said", &format!("{got:?}")),
            );
        }
        return;
    }
    let ok = match (&want, &got) {
        (Ok(()), Ans::Success) => true,
        (Err(_), Ans::Refinement(_)) => {
            matches!(got.class().as_str(), "refinement/cuts-delay" | "refinement/cannot-match" | "refinement/empty-initial")
        }
        _ => false,
    };
    run.trace(&format!("{}:{}", if want.is_ok() { "refines" } else { "refuted" }, got.class()));
    if k < 2 {
        run.sample(json!({"space": space, "query": q, "models": shown, "verdict": format!("{want:?}"), "states": cnt.states}));
    }
    if !ok {
        run.violation(
            &format!("{space} | {q} | {}", shown.join(" | ")),
            &format!("{q}: model says {want:?}, implementation says {}", got.brief()),
            query_replay(&jsons, &q, false, shown, &format!("{want:?}"), &got.brief()),
        );
    }
}

/// A failed refinement names a state of both sides, an action and a way to fail; the joint behaviour must
/// have a state among the named ones which fails that way.
fn named_state(run: &Run, s: &Expr, t: &Expr, got: &Ans) -> Result<(), String> {
    use reveaal::ProtobufServer::services::{location_tree::NodeType, query_response::refinement_failure::Failure};
    let Ans::Refinement(f) = got else { return Ok(()) };
    if let Some(Failure::NoInitialState(_) | Failure::RefinementState(_)) = &f.failure {
        let want = format!("{} <= {}", s.text(), t.text());
        if f.system != want {
            return Err(format!("the failure is said to be one of {}", f.system));
        }
    }
    let Some(Failure::RefinementState(r)) = &f.failure else { return Ok(()) };
    let mut al = Alloc::default();
    let a = Ts::build(s, &mut al).unwrap();
    let b = Ts::build(t, &mut al).unwrap();
    let mut nm = names(&a);
    nm.comps.extend(names(&b).comps);
    let sa = r.state.as_ref().ok_or("no state")?;
    let st = sa.state.as_ref().ok_or("no state")?;
    let Some(NodeType::BinaryLocationOp(x)) = st.location_tree.as_ref().and_then(|t| t.node_type.as_ref()) else {
        return Err("no pair of locations".into());
    };
    if x.operator != 3 {
        return Err(format!("the locations are joined by operator {}", x.operator));
    }
    let l = nm.loc(&a, x.left.as_ref().ok_or("no left location")?)?;
    let k = nm.loc(&b, x.right.as_ref().ok_or("no right location")?)?;
    let zone = nm.zone(st.zone.as_ref().ok_or("no zone")?)?;
    let fault = match (r.unmatched, sa.action.as_str()) {
        (0, act) => Fault::Unmatched(act.into()),
        (1, "") => Fault::Cut(None),
        (1, act) => Fault::Cut(Some(act.into())),
        (u, _) => return Err(format!("failure of kind {u}")),
    };
    let mut cnt = Cnt::default();
    let m = a.max_const().max(b.max_const()).max(zone.max_const());
    let mut here = std::collections::BTreeSet::new();
    let (mut reached, mut found) = (false, false);
    faults(&a, &b, al.clocks, m, &mut cnt, |x, y, reg, wrong| {
        if *x == l && *y == k && reg.eval(&zone) {
            reached = true;
            found |= wrong.contains(&fault);
            here.extend(wrong.iter().cloned());
        }
        found
    });
    run.states(cnt.states);
    run.trans(cnt.trans);
    if !reached {
        return Err(format!("none of the states named can be reached: {l:?}, {k:?}, {zone:?}"));
    }
    if !found {
        return Err(format!("no state named fails with {fault:?}, only with {here:?}: {l:?}, {k:?}, {zone:?}"));
    }
    Ok(())
}

fn cross(run: &Run, space: &str, what: &str, ls: &[Comp], rs: &[Comp]) {
    cross_styled(run, space, what, ls, rs, 0)
}
fn cross_styled(run: &Run, space: &str, what: &str, ls: &[Comp], rs: &[Comp], style: u8) {
    let jl: Vec<String> = ls.iter().map(|c| c.json_styled(style)).collect();
    let jr: Vec<String> = rs.iter().map(|c| c.json_styled(style)).collect();
    let fits: Vec<(usize, usize)> = (0..ls.len())
        .flat_map(|i| (0..rs.len()).map(move |j| (i, j)))
        .filter(|(i, j)| {
            let (s, t) = (&ls[*i], &rs[*j]);
            s.inputs().is_subset(&t.inputs()) && t.outputs().is_subset(&s.outputs())
        })
        .collect();
    run.space(space, fits.len() as u64, what);
    run.for_all(fits.len() as u64, |k| {
        let (i, j) = fits[k as usize];
        pair(run, space, k, &ls[i], &rs[j], &jl[i], &jr[j]);
    });
}


fn r01(run: &Run) {
    let no: Vec<Upd> = vec![vec![], vec![(0, 0)]];
    let to1: Vec<Upd> = vec![vec![], vec![(0, 0)], vec![(0, 1)], vec![(0, 2)]];
    let quick = run.quick();

    // one location: timing of a single output and a single input
    let g = if quick { vec![F::T, le(1), lt(1), ge(1), gt(1), eq(1)] } else { vec![F::T, le(1), lt(1), ge(1), gt(1), eq(1), ge(2), lt(2), gt(2)] };
    let invs = if quick { vec![F::T, le(1), lt(2)] } else { vec![F::T, le(1), lt(1), le(2), lt(2)] };
    let one = keep_good(one_loc("A", "o", "i", &g, &no, &invs));
    cross(run, "one-location", "every pair of good one-location components: optional output and input loop over guards x resets, invariants", &one, &renamed(&one, "B"));

    // constants that differ between the sides (extrapolation uses the maximum of both)
    let gl = [F::T, ge(1), le(1), gt(2), lt(2), le(3), ge(4), eq(3)];
    let il = [F::T, le(2), lt(4), le(5)];
    let far = keep_good(one_loc("A", "o", "i", &gl, &[vec![], vec![(0, 0)], vec![(0, 2)]], &il).into_iter().filter(|c| c.inputs().is_empty()).collect());
    cross(run, "large-constants", "every pair of output-only components with constants up to five and assignments to 0 and 2", &far, &renamed(&far, "B"));

    // two locations
    let g2 = if quick { vec![F::T, le(1), gt(1)] } else { vec![F::T, le(1), lt(1), gt(1), ge(2)] };
    let i2 = if quick { vec![F::T, le(1)] } else { vec![F::T, le(1), lt(2)] };
    let seconds: &[(&str, usize)] = &[("o!", 0), ("o!", 1), ("p!", 0), ("i?", 0)];
    let u2 = if quick { &no[..] } else { &to1[..3] };
    let two_o = keep_good(two_loc("A", "o!", seconds, &g2, u2, &g2, u2, &i2, &i2));
    let two_i = keep_good(two_loc("A", "i?", seconds, &g2, u2, &g2, u2, &i2, &i2));
    let mut two = two_o;
    two.extend(two_i);
    let small_g = [F::T, le(1), gt(1)];
    let mut small = keep_good(one_loc("B", "o", "i", &small_g, &no, &[F::T, le(1)]));
    for c in one_loc("B", "p", "i", &[F::T, ge(1)], &no, &[F::T]) {
        if c.outputs().len() == 1 {
            // o is always possible, p sometimes
            let mut c = c;
            c.edge(0, "o!", F::T, &[], 0);
            small.push(c);
        }
    }
    let small = keep_good(small);
    cross(run, "two-vs-one", "two-location components against one-location ones", &two, &small);
    cross(run, "one-vs-two", "one-location components against two-location ones", &renamed(&small, "A"), &renamed(&two, "B"));
    let stride = if quick { 5 } else { 1 };
    let few: Vec<Comp> = two.iter().step_by(stride).cloned().collect();
    let few_r: Vec<Comp> = two.iter().skip(1).step_by(stride * 2 + 1).map(|c| c.renamed("B")).collect();
    cross(run, "two-vs-two", "pairs of two-location components (every member of two fixed sub-catalogues)", &few, &few_r);

    // two edges with the same action: disjoint guards, different targets
    let mut split = vec![];
    for act in ["o!", "i?"] {
        for (ga, gb) in [(le(1), gt(1)), (lt(1), ge(1)), (eq(1), gt(1)), (lt(1), gt(1)), (le(1), ge(2)), (F::T, F::N)] {
            for ua in &to1[..3] {
                for ub in &no {
                    for inv1 in [F::T, le(1)] {
                        for after in [None, Some("o!"), Some("p!"), Some("i?")] {
                            let mut c = Comp::new("A", 1);
                            c.loc(F::T);
                            c.loc(inv1.clone());
                            c.edge(0, act, ga.clone(), ua, 0);
                            c.edge(0, act, gb.clone(), ub, 1);
                            if let Some(a) = after {
                                c.edge(1, a, le(1), &[], 1);
                            }
                            split.push(c);
                        }
                    }
                }
            }
        }
    }
    let split = keep_good(split);
    cross(run, "split-vs-split", "every pair of components with two same-action edges with disjoint guards", &split, &renamed(&split, "B"));
    cross(run, "split-vs-one", "split components against one-location ones", &split, &small);
    cross(run, "one-vs-split", "one-location components against split ones", &renamed(&small, "A"), &renamed(&split, "B"));

    // invariants that hold from some time on: whether a location can be entered depends on the clocks
    let mut late = vec![];
    for act in ["o!", "i?"] {
        for g in [F::T, ge(1), le(1)] {
            for u in [vec![], vec![(0, 0)], vec![(0, 1)]] {
                for inv in [F::T, le(1), ge(1), gt(1), and(ge(1), le(2))] {
                    for after in ["o!", "p!", "i?"] {
                        for ga in [F::T, gt(1)] {
                            let mut c = Comp::new("A", 1);
                            c.loc(F::T);
                            c.loc(inv.clone());
                            c.edge(0, act, g.clone(), &u, 1);
                            c.edge(1, after, ga, &[(0, 0)], 0);
                            late.push(c);
                        }
                    }
                }
            }
        }
    }
    let late = keep_good(late);
    cross(run, "entry", "every pair of two-location components one location of which has an invariant with a lower bound", &late, &renamed(&late, "B"));

    // two clocks on one side, upper and lower bound on different clocks
    let mut xy = vec![];
    for inv in [F::T, le(1), c(1, Op::Le, 2), and(le(1), c(1, Op::Lt, 2))] {
        for g in [F::T, ge(1), c(1, Op::Gt, 1), and(le(1), c(1, Op::Ge, 1)), or(lt(1), c(1, Op::Ge, 2)), or(eq(1), c(1, Op::Lt, 1))] {
            for r in [vec![], vec![(0, 0)], vec![(1, 0)], vec![(0, 0), (1, 0)], vec![(1, 1)], vec![(0, 2), (1, 0)]] {
                for act in ["o!", "i?"] {
                    let mut k = Comp::new("A", 2);
                    k.loc(inv.clone());
                    k.edge(0, act, g.clone(), &r, 0);
                    xy.push(k.clone());
                    if !quick {
                        k.edge(0, if act == "o!" { "i?" } else { "o!" }, ge(1), &[(0, 0)], 0);
                        xy.push(k);
                    }
                }
            }
        }
    }
    let xy = keep_good(xy);
    cross(run, "two-clocks", "every pair of one-location components with two clocks each, disjunctive guards", &xy, &renamed(&xy, "B"));

    // three locations in a row with resets in between: drift between the two sides' clocks
    let mut chain = vec![];
    for (a, b) in [(ge(1), le(2)), (ge(1), eq(2)), (le(1), ge(2)), (eq(1), eq(1)), (gt(1), lt(2)), (F::T, eq(1))] {
        for ua in &no {
            for ub in &to1[..3] {
                for inv in [F::T, le(2), lt(3)] {
                    for acts in [["o!", "p!"], ["i?", "o!"], ["o!", "i?"], ["o!", "o!"]] {
                        let mut c = Comp::new("A", 1);
                        c.loc(inv.clone());
                        c.loc(F::T);
                        c.loc(inv.clone());
                        c.edge(0, acts[0], a.clone(), ua, 1);
                        c.edge(1, acts[1], b.clone(), ub, 2);
                        c.edge(2, acts[0], a.clone(), &[(0, 0)], 0);
                        chain.push(c);
                    }
                }
            }
        }
    }
    let chain = keep_good(chain);
    cross(run, "chains", "every pair of three-location rings with resets in between", &chain, &renamed(&chain, "B"));

    // diagonal constraints
    let mut diag = vec![];
    for g in [F::D(0, 1, Op::Le, 1), F::D(0, 1, Op::Gt, 1), F::D(0, 1, Op::Lt, 3), F::D(0, 1, Op::Ge, 3), F::D(0, 1, Op::Eq, 2), F::D(1, 0, Op::Ge, 1), F::D(1, 0, Op::Lt, 1)] {
        for r in [vec![], vec![(0, 0)], vec![(1, 0)]] {
            for r2 in [vec![(1, 0)], vec![(0, 0)]] {
                for g2 in [F::T, ge(1), le(1)] {
                    let mut k = Comp::new("A", 2);
                    k.loc(F::T);
                    k.edge(0, "o!", g.clone(), &r, 0);
                    k.edge(0, "p!", g2, &r2, 0);
                    diag.push(k);
                }
            }
        }
    }
    for r0 in [vec![], vec![(1, 0)], vec![(0, 0)]] {
        for g1 in [F::D(0, 1, Op::Le, 2), F::D(0, 1, Op::Gt, 1), F::D(1, 0, Op::Le, 3), F::D(0, 1, Op::Eq, 2)] {
            for g2 in [F::D(0, 1, Op::Gt, 3), F::D(0, 1, Op::Le, 1), F::D(1, 0, Op::Gt, 3), F::D(0, 1, Op::Eq, 1)] {
                let mut k = Comp::new("A", 2);
                k.loc(F::T);
                k.loc(F::T);
                k.loc(F::T);
                k.edge(0, "p!", F::T, &r0, 1);
                k.edge(1, "p!", g1.clone(), &[], 2);
                k.edge(2, "o!", g2.clone(), &[], 2);
                diag.push(k);
            }
        }
    }
    let mut plain = vec![];
    for (g, g2) in [(F::T, F::T), (ge(1), F::T), (F::T, ge(1)), (le(1), F::T), (F::T, lt(1)), (F::N, F::T)] {
        for (r, r2) in [(vec![], vec![(0, 0)]), (vec![(0, 0)], vec![]), (vec![], vec![]), (vec![(0, 0)], vec![(0, 0)])] {
            let mut k = Comp::new("B", 1);
            k.loc(F::T);
            k.edge(0, "o!", g.clone(), &r, 0);
            k.edge(0, "p!", g2.clone(), &r2, 0);
            plain.push(k);
        }
    }
    cross(run, "diagonal-vs-plain", "components with constraints between clocks against plain ones", &diag, &plain);
    cross(run, "plain-vs-diagonal", "plain components against ones with constraints between clocks", &renamed(&plain, "A"), &renamed(&diag, "B"));
    // locations of the special kinds, entered by any action
    let mut kinds = vec![];
    for kind in [Kind::Universal, Kind::Inconsistent] {
        for stars in [false, true] {
            for act in ["o!", "i?", "p!"] {
                for g in [F::T, le(1), gt(1)] {
                    for inv in [F::T, le(2)] {
                        for u in &no {
                            for also in [None, Some("o!"), Some("i?"), Some("p!")] {
                                for h in [le(1), gt(1), F::T] {
                                    if stars && kind == Kind::Inconsistent || also.is_none() && h != F::T {
                                        continue;
                                    }
                                    let mut k = Comp::new("A", 1);
                                    k.stars = stars;
                                    k.loc(inv.clone());
                                    k.loc_kind(kind);
                                    k.loc(F::T);
                                    k.edge(0, act, g.clone(), u, 1);
                                    if let Some(b) = also {
                                        k.edge(0, b, h, &[], 2);
                                        k.edge(2, b, F::T, &[(0, 0)], 0);
                                    }
                                    kinds.push(k);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let kinds = keep_good(kinds);
    cross(run, "kinds", "pairs of components with a universal or an inconsistent location", &kinds, &renamed(&kinds, "B"));
    cross(run, "kinds-vs-one", "components with a universal or an inconsistent location against one-location ones", &kinds, &small);
    cross(run, "one-vs-kinds", "one-location components against ones with a universal or an inconsistent location", &renamed(&small, "A"), &renamed(&kinds, "B"));
    // one component on both sides
    let every: Vec<&Comp> = one.iter().chain(&two).chain(&split).chain(&xy).chain(&chain).chain(&diag).chain(&kinds).collect();
    run.space("itself", every.len() as u64, "every component of the catalogues above against itself");
    run.for_all(every.len() as u64, |k| {
        let c = every[k as usize];
        pair(run, "itself", k, c, c, &c.json(), "");
    });
    // the same models under other names: similar actions, locations named alike or crosswise, other clock names
    let other = |c: &Comp, name: &str, acts: [&str; 3], locs: [&str; 3], clocks: [&str; 2]| {
        let mut c = c.renamed(name);
        for e in c.edges.iter_mut() {
            e.act = acts[["o", "p", "i"].iter().position(|a| **a == *e.act).unwrap()].into();
            e.id = format!("{}{}", e.act, e.id);
        }
        for (l, id) in c.locs.iter_mut().zip(locs) {
            l.id = id.into();
        }
        for (x, id) in c.clocks.iter_mut().zip(clocks) {
            *x = id.into();
        }
        c
    };
    let step = if quick { 7 } else { 2 };
    let named: Vec<&Comp> = chain.iter().skip(1).step_by(step).chain(split.iter().step_by(step)).chain(xy.iter().step_by(step)).chain(kinds.iter().step_by(step * 5)).collect();
    for (i, (ns, nt, acts, ls, lt, cs, ct)) in [
        ("A", "a", ["go", "Go", "goo"], ["L", "L1", "l"], ["L1", "L", "l"], ["x", "X"], ["X", "x"]),
        ("C1", "C", ["b", "a", "ab"], ["s", "t", "u"], ["u", "s", "t"], ["x1", "x"], ["x", "x1"]),
    ]
    .into_iter()
    .enumerate()
    {
        let l: Vec<Comp> = named.iter().map(|c| other(c, ns, acts, ls, cs)).collect();
        let r: Vec<Comp> = named.iter().map(|c| other(c, nt, acts, lt, ct)).collect();
        cross(run, &format!("names-{i}"), "members of the catalogues above under names that are easily mistaken for each other", &l, &r);
    }
    // systems on either side
    let gs = [F::T, le(1), gt(1)];
    let n = 4u64 * 3 * 2 * 2 * 3 * 2 * 2 * 3 * 3 * 2;
    run.space("systems", n, "compositions and conjunctions on either side of a refinement, with shared and private actions");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(4);
        let mk = |name: &str, acts: [&str; 2], invs: [F; 2], g: [F; 2], u: [Upd; 2]| {
            let mut c = Comp::new(name, 1);
            let [i, j] = invs;
            c.loc(i);
            c.loc(j);
            let [g, h] = g;
            c.edge(0, acts[0], g, &u[0], 1);
            c.edge(1, acts[1], h, &u[1], 0);
            c
        };
        let a = mk("A", ["i?", "o!"], [F::T, [F::T, le(2)][d.pick(2)].clone()], [F::T, d.of(&gs).clone()], [vec![(0, 0)], no[d.pick(2)].clone()]);
        let b = mk("B", ["o?", "p!"], [F::T, F::T], [F::T, d.of(&gs).clone()], [no[d.pick(2)].clone(), no[d.pick(2)].clone()]);
        // what is asked of both together, and of one of them
        let mut c = Comp::new("C", 1);
        c.loc(F::T);
        c.loc([F::T, le(2)][d.pick(2)].clone());
        c.edge(0, "i?", F::T, &[(0, 0)], 1);
        c.edge(0, "o!", d.of(&gs).clone(), &[], 0);
        c.edge(0, "p!", d.of(&gs).clone(), &[], 0);
        c.edge(1, "o!", gs[(k % 3) as usize].clone(), &[], 0);
        c.edge(1, "p!", F::T, &[], 1);
        let e = mk("E", ["i?", "o!"], [F::T, F::T], [F::T, ge(1)], [vec![(0, 0)], vec![]]);
        let (s, t) = match form {
            0 => (par(leaf(&a), leaf(&b)), leaf(&c)),
            1 => (leaf(&c), par(leaf(&a), leaf(&b))),
            2 => (par(leaf(&a), leaf(&b)), par(leaf(&e), leaf(&b))),
            _ => (conj(leaf(&a), leaf(&e)), leaf(&a)),
        };
        if good(&s).is_none() || good(&t).is_none() {
            return;
        }
        let used: Vec<&Comp> = match form {
            0 | 1 => vec![&a, &b, &c],
            2 => vec![&a, &b, &e],
            _ => vec![&a, &e],
        };
        systems(run, "systems", k, &s, &t, used.iter().map(|c| c.json()).collect(), &used.iter().map(|c| c.show()).collect::<Vec<_>>());
    });
    // equivalent spellings of the same constraints
    let some = if quick { 3 } else { 1 };
    for style in 1..=4u8 {
        let l: Vec<Comp> = chain.iter().skip(style as usize).step_by(some * 2 + 1).cloned().collect();
        let r: Vec<Comp> = chain.iter().skip(1).step_by(some).map(|c| c.renamed("B")).collect();
        cross_styled(run, &format!("chains-spelling-{style}"), "rings with their constraints spelled differently", &l, &r, style);
        cross_styled(run, &format!("diagonal-spelling-{style}"), "clock differences spelled differently", &diag, &plain, style);
    }
    if !quick {
        cross(run, "diagonal-vs-diagonal", "pairs of components with constraints between clocks", &diag, &renamed(&diag, "B"));
    }
}


/// Directions of actions a, b, c: 0 absent, 1 input, 2 output.
fn alphabet(name: &str, code: u64, shape: u64) -> Comp {
    let mut c = Comp::new(name, 1);
    let mut d = Dig(code);
    c.loc(F::T);
    if shape > 0 {
        c.loc(if shape == 2 { le(2) } else { F::T });
    }
    // shape 3: an edge that is never enabled still has its action
    for act in ["a", "b", "c"] {
        let t = match d.pick(3) {
            0 => continue,
            1 => format!("{act}?"),
            _ => format!("{act}!"),
        };
        match shape {
            0 => c.edge(0, &t, F::T, &[], 0),
            1 => {
                c.edge(0, &t, F::T, &[(0, 0)], 1);
                c.edge(1, &t, ge(1), &[], 0);
            }
            3 => c.edge(0, &t, F::N, &[], 1),
            _ => {
                c.edge(0, &t, le(1), &[(0, 0)], 1);
                c.edge(1, &t, F::T, &[], 1);
            }
        }
    }
    c
}

fn r02(run: &Run) {
    use reveaal::ProtobufServer::services::query_response::{consistency_failure as cf, refinement_failure::Failure};
    // every assignment of directions on both sides, three behaviours per side
    let n = 27u64 * 27 * 16;
    run.space("alphabets", n, "every assignment of {absent,input,output} to three actions on both sides x four behaviours per side, edges that are never enabled among them");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let (sc, tc, ss, st) = (d.pick(27) as u64, d.pick(27) as u64, d.pick(4) as u64, d.pick(4) as u64);
        let (s, t) = (alphabet("A", sc, ss), alphabet("B", tc, st));
        if good(&leaf(&s)).is_none() || good(&leaf(&t)).is_none() {
            return;
        }
        let sets = |c: &Comp| {
            let v = |x: std::collections::BTreeSet<String>| x.into_iter().collect::<Vec<_>>();
            (v(c.inputs()), v(c.outputs()))
        };
        let ((si, so), (ti, to)) = (sets(&s), sets(&t));
        let meet = |a: &Vec<String>, b: &Vec<String>| a.iter().any(|x| b.contains(x));
        let sub = |a: &Vec<String>, b: &Vec<String>| a.iter().all(|x| b.contains(x));
        // (kind, first set, second set) with (system, is_input, actions)
        let mut wrong: Vec<(i32, (String, bool, Vec<String>), (String, bool, Vec<String>))> = vec![];
        let set = |n: &str, i: bool, v: &Vec<String>| (n.to_string(), i, v.clone());
        if meet(&si, &to) {
            wrong.push((1, set("A", true, &si), set("B", false, &to)));
        }
        if meet(&ti, &so) {
            wrong.push((1, set("B", true, &ti), set("A", false, &so)));
        }
        if !sub(&si, &ti) {
            wrong.push((0, set("A", true, &si), set("B", true, &ti)));
        }
        if !sub(&to, &so) {
            wrong.push((0, set("B", false, &to), set("A", false, &so)));
        }
        if wrong.is_empty() {
            pair(run, "alphabets", k, &s, &t, &s.json(), &t.json());
            return;
        }
        let jsons = [s.json(), t.json()];
        let q = "refinement: A <= B";
        run.states(1);
        run.trans(wrong.len() as u64);
        let got = ask(&jsons, q, false);
        run.trace(&format!("mismatch:{}", got.class()));
        let ok = match &got {
            Ans::Refinement(r) => match &r.failure {
                Some(Failure::ActionMismatch(m)) if m.action_sets.len() == 2 => {
                    let f = |i: usize| {
                        let x = &m.action_sets[i];
                        let mut a = x.actions.clone();
                        a.sort();
                        (x.system.clone(), x.is_input, a)
                    };
                    let (a, b) = (f(0), f(1));
                    // the direction of an empty set is not observable
                    let same = |x: &(String, bool, Vec<String>), y: &(String, bool, Vec<String>)| {
                        x.0 == y.0 && x.2 == y.2 && (x.1 == y.1 || x.2.is_empty())
                    };
                    wrong.iter().any(|w| {
                        w.0 == m.failure && ((same(&w.1, &a) && same(&w.2, &b)) || (w.0 == 1 && same(&w.1, &b) && same(&w.2, &a)))
                    })
                }
                _ => false,
            },
            _ => false,
        };
        if !ok {
            run.violation(
                &format!("alphabets | {} | {}", s.show(), t.show()),
                &format!("expected one of {wrong:?}, got {got:?}"),
                query_replay(&jsons, q, false, &[s.show(), t.show()], &format!("{wrong:?}"), &format!("{got:?}")),
            );
        }
    });

    // operands that are not usable, with every combination on the two sides and several alphabets
    let kinds = ["fine", "nondeterministic", "stuck", "no-initial", "nondeterministic-later", "stuck-later"];
    let make = |name: &str, kind: usize, acts: usize| -> Comp {
        let mut c = Comp::new(name, 1);
        let (o, i) = [("o!", "i?"), ("o!", ""), ("p!", "i?"), ("i!", "o?")][acts];
        match kind {
            0 => {
                c.loc(F::T);
            }
            1 => {
                c.loc(F::T);
                c.edge(0, o, ge(1), &[(0, 0)], 0);
            }
            2 => {
                c.loc(le(1));
                if !i.is_empty() {
                    c.edge(0, i, F::T, &[], 0);
                }
                c.edge(0, o, gt(1), &[], 0);
                return c;
            }
            3 => {
                c.loc(lt(0));
            }
            4 => {
                c.loc(F::T);
                c.loc(F::T);
                c.edge(0, "p!", F::T, &[(0, 0)], 1);
                c.edge(1, o, ge(2), &[(0, 0)], 0);
                c.edge(1, o, le(2), &[], 1);
            }
            _ => {
                c.loc(F::T);
                c.loc(le(1));
                c.edge(0, "j?", F::T, &[(0, 0)], 1);
            }
        }
        c.edge(0, o, F::T, &[], 0);
        if !i.is_empty() {
            c.edge(0, i, F::T, &[], 0);
        }
        c
    };
    let n = 6u64 * 6 * 4 * 4;
    run.space("operands", n, "every pair of usable, nondeterministic, stuck and initial-state-free operands with four alphabets each");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let (ks, kt) = (d.pick(6), d.pick(6));
        let s = make("A", ks, d.pick(4));
        let t = make("B", kt, d.pick(4));
        if ks + kt == 0 {
            return;
        }
        let jsons = [s.json(), t.json()];
        let q = "refinement: A <= B";
        let got = ask(&jsons, q, false);
        run.states(2);
        run.trans(1);
        let blame = |kind: usize, system: &str, c: &reveaal::ProtobufServer::services::query_response::ConsistencyFailure| {
            c.system == system
                && match (kind, &c.failure) {
                    (1 | 4, Some(cf::Failure::Determinism(_))) => true,
                    (2 | 5, Some(cf::Failure::FailureState(_))) => true,
                    (3, Some(cf::Failure::NoInitialState(_))) => true,
                    (3, Some(cf::Failure::FailureState(_))) => true,
                    _ => false,
                }
        };
        let ok = match &got {
            Ans::Refinement(r) => match &r.failure {
                Some(Failure::InconsistentChild(c)) => blame(ks, "A", c) || blame(kt, "B", c),
                // an alphabet mismatch may be found first
                _ => false,
            },
            _ => false,
        };
        run.trace(&format!("{}/{}:{}", kinds[ks], kinds[kt], got.class()));
        if !ok {
            run.violation(
                &format!("operands | {} | {}", s.show(), t.show()),
                &format!("left is {}, right is {}: got {}", kinds[ks], kinds[kt], got.brief()),
                query_replay(&jsons, q, false, &[s.show(), t.show()], &format!("{}/{}", kinds[ks], kinds[kt]), &format!("{got:?}")),
            );
        }
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "R01" | "R03" => r01(&run),
        "R02" => r02(&run),
        _ => panic!("unknown property"),
    }
    run.finish()
}
