//! D01 determinism verdicts, D02 consistency verdicts, D03 what failed ones name.
use mc::cat::*;
use mc::driver::*;
use mc::model::*;
use mc::report::*;
use mc::sem::*;
use mc::region::{Bound, Reg};
use mc::wire::*;
use reveaal::ProtobufServer::services::{location_tree::NodeType, query_response::consistency_failure as cf, State};
use serde_json::json;

fn det(run: &Run, space: &str, k: u64, e: &Expr) {
    let Some((ts, n)) = Ts::of(e) else { return };
    let f = facts(&ts, n);
    run.states(f.states);
    run.trans(f.trans);
    let mut comps = vec![];
    e.comps(&mut comps);
    let jsons: Vec<String> = comps.iter().map(|c| c.json()).collect();
    let shown: Vec<String> = comps.iter().map(|c| c.show()).collect();
    let q = format!("determinism: {}", e.text());
    let got = ask(&jsons, &q, false);
    let zone = if !f.reach_overlap.is_empty() {
        "overlap"
    } else if f.any_overlap.is_empty() {
        "disjoint"
    } else {
        "unreachable-overlap"
    };
    run.trace(&format!("{zone}:{}", got.class()));
    if run.id == "D03" {
        if let Ans::Determinism(d) = &got {
            if let Err(why) = named_overlap(&ts, d) {
                run.violation(
                    &format!("{space} | {} | {}", e.text(), shown.join(" | ")),
                    &format!("{q}: {why}"),
                    query_replay(&jsons, &q, false, &shown, "a location and an action with an overlap", &format!("{got:?}")),
                );
            }
        }
        return;
    }
    if k % 9973 == 0 {
        run.sample(json!({"space": space, "models": shown, "overlap_reachable": f.reach_overlap, "overlap_anywhere": f.any_overlap}));
    }
    let ok = match &got {
        Ans::Success => f.reach_overlap.is_empty(),
        Ans::Determinism(d) => {
            let a = d.failure_state.as_ref().map(|s| s.action.clone()).unwrap_or_default();
            f.any_overlap.contains(&a)
        }
        // a conjunction may be rejected for having no consistent behaviour before determinism is looked at
        Ans::Model(_) => matches!(e, Expr::Conj(..)),
        _ => false,
    };
    if !ok {
        let want = format!("reachable overlaps {:?}, overlaps anywhere {:?}", f.reach_overlap, f.any_overlap);
        run.violation(
            &format!("{space} | {} | {}", e.text(), shown.join(" | ")),
            &format!("{q}: {want}, implementation says {got:?}"),
            query_replay(&jsons, &q, false, &shown, &want, &format!("{got:?}")),
        );
    }
}

/// A failed determinism query names a component of the system, one of its locations that can be reached,
/// and an action with two transitions enabled together there.
fn named_overlap(ts: &Ts, d: &reveaal::ProtobufServer::services::query_response::DeterminismFailure) -> Result<(), String> {
    let sa = d.failure_state.as_ref().ok_or("no state")?;
    let (c, l) = named_location(ts, &d.system, &sa.state)?;
    if !overlap_places(ts).contains(&(c.name.clone(), l, sa.action.clone())) {
        return Err(format!("no two transitions for {} are enabled together in {}.{}", sa.action, c.name, c.locs[l].id));
    }
    if !walkable(&c)[l] {
        return Err(format!("location {} of {} cannot be reached", c.locs[l].id, c.name));
    }
    Ok(())
}

/// The component and location that a failure names.
fn named_location(ts: &Ts, system: &str, st: &Option<State>) -> Result<(Comp, usize), String> {
    let tree = st.as_ref().and_then(|s| s.location_tree.as_ref()).and_then(|t| t.node_type.as_ref()).ok_or("no location")?;
    let NodeType::LeafLocation(l) = tree else { return Err(format!("{tree:?} is not a location of a component")) };
    let ci = l.component_instance.as_ref().ok_or("no component instance")?;
    if ci.component_name != system {
        return Err(format!("location of {} for system {system}", ci.component_name));
    }
    let nm = names(ts);
    let c = match nm.comps.get(ci.component_index as usize) {
        Some((c, _)) if c.name == system => c.clone(),
        _ => return Err(format!("no component instance {system}#{}", ci.component_index)),
    };
    let at = c.locs.iter().position(|x| x.id == l.id).ok_or(format!("no location {} in {system}", l.id))?;
    Ok((c, at))
}

/// Locations that some sequence of edges leads to.
fn walkable(c: &Comp) -> Vec<bool> {
    let mut seen: Vec<bool> = c.locs.iter().map(|l| l.kind == Kind::Initial).collect();
    loop {
        let new: Vec<usize> = c.edges.iter().filter(|e| seen[e.src] && !seen[e.dst]).map(|e| e.dst).collect();
        if new.is_empty() {
            return seen;
        }
        new.into_iter().for_each(|l| seen[l] = true);
    }
}

fn d01(run: &Run) {
    let quick = run.quick();
    // up to three edges of one action
    let guards = if quick { vec![F::T, lt(1), eq(1), gt(1), ge(2)] } else { vec![F::T, lt(1), le(1), eq(1), ge(1), gt(1), ge(2)] };
    let mut es: Vec<Option<(F, Upd, usize)>> = vec![None];
    for g in &guards {
        for u in [vec![], vec![(0, 0)]] {
            for t in [0, 1] {
                es.push(Some((g.clone(), u.clone(), t)));
            }
        }
    }
    let invs0 = [F::T, le(1), lt(1)];
    let invs1 = [F::T, le(1), lt(1), ge(1)];
    let m = es.len() as u64;
    let n = m * m * m * 12 * 2;
    run.space("three-edges", n, "two locations, up to three same-action edges over guards x resets x targets, invariants on both, input or output");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc(d.of(&invs0).clone());
        c.loc(d.of(&invs1).clone());
        let act = *d.of(&["a!", "a?"]);
        let picks = [d.pick(es.len()), d.pick(es.len()), d.pick(es.len())];
        // absent edges only at the end
        if (picks[0] == 0 && picks[1] != 0) || (picks[1] == 0 && picks[2] != 0) {
            return;
        }
        for p in picks {
            if let Some((g, u, t)) = &es[p] {
                c.edge(0, act, g.clone(), u, *t);
            }
        }
        if c.edges.is_empty() {
            return;
        }
        det(run, "three-edges", k, &leaf(&c));
    });
    // overlap in a later location, reached with different timing; other actions in between
    let g = [F::T, le(1), gt(1), lt(0)];
    let pairs: Vec<(F, F)> = vec![(le(1), ge(1)), (lt(1), ge(1)), (le(1), gt(1)), (eq(1), le(2)), (F::T, gt(2)), (F::T, F::T), (lt(1), gt(1)), (eq(2), ge(3))];
    let n = 4u64 * 2 * 4 * 2 * 8 * 3 * 4 * 3 * 2;
    run.space("later-location", n, "three locations in a row or with shortcuts, two edges at the last one");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc(F::T);
        c.loc([F::T, le(2)][d.pick(2)].clone());
        let (g0, u0) = (d.of(&g).clone(), d.of(&[vec![], vec![(0, 0)]]).clone());
        let (g1, u1) = (d.of(&g).clone(), d.of(&[vec![], vec![(0, 2)]]).clone());
        let (p, q) = d.of(&pairs).clone();
        c.loc([F::T, le(1), lt(3)][d.pick(3)].clone());
        c.edge(0, "b!", g0, &u0, 1);
        c.edge(1, "b?".replace('?', "!").as_str(), g1, &u1, 2);
        let (aa, ab) = [("a!", "a!"), ("a?", "a?"), ("a!", "c!"), ("b!", "b!")][d.pick(4)];
        let (ta, tb) = [(2, 2), (0, 1), (2, 0)][d.pick(3)];
        c.edge(2, aa, p, &[], ta);
        c.edge(2, ab, q, if d.pick(2) == 0 { &[] } else { &[(0, 0)] }, tb);
        det(run, "later-location", k, &leaf(&c));
    });
    // a location entered in two ways, with a smaller and a larger set of valuations, at once or on a way through
    let gw = [F::T, ge(3), gt(1), le(1), and(ge(1), le(2))];
    let uw: [Upd; 3] = [vec![], vec![(0, 0)], vec![(0, 2)]];
    let n = 5u64 * 5 * 3 * 3 * 8 * 3 * 2 * 2;
    run.space("two-ways", n, "a location entered by two actions with different guards and updates, directly or through another location, two edges behind it");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc(F::T);
        c.loc(F::T);
        c.loc(F::T);
        let (g0, g1) = (d.of(&gw).clone(), d.of(&gw).clone());
        let (u0, u1) = (d.of(&uw).clone(), d.of(&uw).clone());
        let (p, q) = d.of(&pairs).clone();
        let through = d.pick(3);
        let acts = [["d!", "b!"], ["b?", "d?"]][d.pick(2)];
        let act = ["a!", "a?"][d.pick(2)];
        match through {
            0 => {
                c.edge(0, acts[0], g0, &u0, 1);
                c.edge(0, acts[1], g1, &u1, 1);
            }
            1 => {
                c.edge(0, acts[0], g0, &u0, 2);
                c.edge(0, acts[1], g1, &u1, 1);
                c.edge(2, acts[1], F::T, &[], 1);
            }
            _ => {
                c.edge(0, acts[0], g0, &u0, 1);
                c.edge(0, acts[1], g1, &u1, 2);
                c.edge(2, acts[0], F::T, &[], 1);
            }
        }
        c.edge(1, act, p, &[], 1);
        c.edge(1, act, q, &[], 2);
        det(run, "two-ways", k, &leaf(&c));
    });
    // special kinds of locations; names that are easily mistaken for each other
    let gk = [F::T, le(1), gt(1)];
    let n = (2u64 * 3 * 3 * 3).pow(2) * 4 * 3 * 2 * 3;
    run.space("kinds and names", n, "edges into, beside and behind a universal or inconsistent location; actions and locations with similar names");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc(F::T);
        match d.pick(4) {
            0 => c.loc_kind(Kind::Universal),
            1 => {
                c.stars = true;
                c.loc_kind(Kind::Universal)
            }
            2 => c.loc_kind(Kind::Inconsistent),
            _ => c.loc(le(1)),
        };
        c.loc(F::T);
        for (l, id) in c.locs.iter_mut().zip(["L1", "L10", "l1"]) {
            l.id = id.into();
        }
        let acts = ["a", "aa", "A"];
        let way = ["!", "?"][d.pick(2)];
        for _ in 0..2 {
            let src = [0, 2][d.pick(2)];
            let act = acts[d.pick(3)];
            let g = gk[d.pick(3)].clone();
            c.edge(src, &format!("{act}{way}"), g, &[], d.pick(3));
        }
        c.edge(2, &format!("{}{way}", acts[d.pick(3)]), gk[d.pick(3)].clone(), &[], 0);
        det(run, "kinds and names", k, &leaf(&c));
    });
    // constraints between clocks
    let dg = [F::D(0, 1, Op::Le, 0), F::D(0, 1, Op::Gt, 1), F::D(1, 0, Op::Ge, 1), F::D(0, 1, Op::Eq, 2), and(F::D(0, 1, Op::Lt, 2), ge(1)), gt(2), c(1, Op::Lt, 1)];
    let ud: [Upd; 3] = [vec![], vec![(0, 0)], vec![(1, 0)]];
    let n = 7u64 * 7 * 3 * 3 * 7 * 2;
    run.space("differences", n, "two edges with guards over the difference of two clocks, entered with every relation between them");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 2);
        c.loc(F::T);
        c.loc(F::T);
        c.edge(0, "b!", d.of(&dg).clone(), &d.of(&ud).clone(), 1);
        let (u, act) = (d.of(&ud).clone(), ["a!", "a?"][d.pick(2)]);
        c.edge(1, act, d.of(&dg).clone(), &u, 0);
        c.edge(1, act, d.of(&dg).clone(), &[], 1);
        det(run, "differences", k, &leaf(&c));
    });
    // two clocks
    let two = [F::T, le(1), c(1, Op::Gt, 1), and(le(1), c(1, Op::Le, 1)), or(lt(1), c(1, Op::Ge, 2)), or(gt(1), c(1, Op::Lt, 1)), and(gt(1), c(1, Op::Eq, 1))];
    let n = 7u64 * 7 * 4 * 3 * 3 * 2;
    run.space("two-clocks", n, "two edges with guards over two clocks, disjunctions included");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut k2 = Comp::new("A", 2);
        k2.loc([F::T, c(1, Op::Le, 1), le(1)][d.pick(3)].clone());
        k2.loc([F::T, c(1, Op::Lt, 2), le(1)][d.pick(3)].clone());
        let act = *d.of(&["a!", "a?"]);
        let ups = [vec![], vec![(0, 0)], vec![(1, 0)], vec![(0, 1), (1, 0)]];
        let u = d.of(&ups).clone();
        k2.edge(0, act, d.of(&two).clone(), &u, 1);
        k2.edge(0, act, d.of(&two).clone(), &[], 1);
        k2.edge(1, "b!", F::T, &[(1, 0)], 0);
        det(run, "two-clocks", k, &leaf(&k2));
    });
    // composed systems
    let parts = |name: &str, acts: [&str; 2]| -> Vec<Comp> {
        let mut v = vec![];
        for (p, q) in [(le(1), gt(1)), (le(1), ge(1)), (F::T, F::N)] {
            for later in [false, true] {
                for block in [F::T, lt(0)] {
                    let mut c = Comp::new(name, 1);
                    c.loc(F::T);
                    let mut at = 0;
                    if later {
                        at = c.loc(F::T);
                        c.edge(0, acts[1], block.clone(), &[(0, 0)], at);
                    }
                    c.edge(at, acts[0], p.clone(), &[], at);
                    c.edge(at, acts[0], q.clone(), &[(0, 0)], 0);
                    v.push(c);
                }
            }
        }
        v
    };
    let exprs: Vec<Expr> = {
        let mut v = vec![];
        for acts_b in [["b!", "c!"], ["a?", "b!"], ["a!", "b!"], ["b?", "a?"]] {
            for a in parts("A", ["a!", "d!"]) {
                for b in parts("B", acts_b) {
                    v.push(par(leaf(&a), leaf(&b)));
                    v.push(par(leaf(&b), leaf(&a)));
                    v.push(conj(leaf(&a), leaf(&b)));
                    v.push(quot(leaf(&a), leaf(&b)));
                }
            }
        }
        for a in parts("A", ["a!", "d!"]).iter().step_by(2) {
            for b in parts("B", ["b!", "e!"]).iter().step_by(3) {
                for c in parts("C", ["a?", "b?"]) {
                    v.push(par(leaf(a), par(leaf(b), leaf(&c))));
                    v.push(par(par(leaf(&c), leaf(a)), leaf(b)));
                }
            }
        }
        v
    };
    run.space("composed", exprs.len() as u64, "compositions, conjunctions and quotients of two or three (non)deterministic components");
    run.for_all(exprs.len() as u64, |k| {
        let e = &exprs[k as usize];
        if let Some((ts, _)) = Ts::of(e) {
            // quotients add their own rules; only the verdict about the leaves is claimed for them
            if matches!(e, Expr::Quot(..)) && !leaf_overlaps(&ts).is_empty() {
                return;
            }
            det(run, "composed", k, e);
        }
    });
}

/// Greatest fixpoint over locations: every edge resets the only clock, so a location has one entry state.
fn consistent(c: &Comp, cnt: &mut (u64, u64)) -> bool {
    winning(c, cnt)[0]
}

fn winning(c: &Comp, cnt: &mut (u64, u64)) -> Vec<bool> {
    let n = c.locs.len();
    let zero = mc::region::Reg::zero(1);
    let b = mc::region::Bound { m: c.max_const(), diag: false };
    let entry: Vec<bool> = c.locs.iter().map(|l| zero.eval(&l.inv)).collect();
    // regions reachable by delay inside the invariant, and whether time can diverge
    let life = |i: usize| {
        let (mut v, mut r) = (vec![], zero.canon(b));
        if !r.eval(&c.locs[i].inv) {
            return (v, false);
        }
        loop {
            v.push(r);
            match r.succ(b) {
                None => return (v, true),
                Some(s) if s.eval(&c.locs[i].inv) => r = s,
                _ => return (v, false),
            }
        }
    };
    let lives: Vec<_> = (0..n).map(life).collect();
    if !entry[0] {
        return vec![false; n];
    }
    let mut good: Vec<bool> = (0..n).map(|i| c.locs[i].kind != Kind::Inconsistent).collect();
    loop {
        let mut changed = false;
        for i in 0..n {
            cnt.0 += 1;
            if !good[i] || c.locs[i].kind == Kind::Universal {
                continue;
            }
            let ins_ok = c.edges.iter().filter(|e| e.src == i && e.input && entry[e.dst]).all(|e| {
                cnt.1 += 1;
                good[e.dst]
            });
            let outs_ok = lives[i].1
                || c.edges.iter().any(|e| {
                    e.src == i && !e.input && entry[e.dst] && good[e.dst] && lives[i].0.iter().any(|r| r.eval(&e.guard))
                });
            if !(ins_ok && outs_ok) {
                good[i] = false;
                changed = true;
            }
        }
        if !changed {
            return good;
        }
    }
}

fn reaches_all(c: &Comp) -> bool {
    let mut seen = vec![false; c.locs.len()];
    let mut st = vec![0];
    seen[0] = true;
    while let Some(i) = st.pop() {
        for e in c.edges.iter().filter(|e| e.src == i) {
            if !seen[e.dst] {
                seen[e.dst] = true;
                st.push(e.dst);
            }
        }
    }
    seen.iter().all(|x| *x)
}

/// A failed consistency query names a component of the system and a reachable location of it from which
/// being stuck cannot be avoided, with the states the component can be in there; or its initial state, if it has none.
fn named_stuck(ts: &Ts, f: &reveaal::ProtobufServer::services::query_response::ConsistencyFailure, bounded: bool) -> Result<(), String> {
    let nm = names(ts);
    match &f.failure {
        Some(cf::Failure::NoInitialState(_)) => {
            let c = nm.comps.iter().find(|c| c.0.name == f.system).ok_or(format!("no component {}", f.system))?;
            let at = c.0.locs.iter().find(|l| l.kind == Kind::Initial).ok_or("no initial location")?;
            if Reg::zero(c.0.clocks.len()).eval(&at.inv) {
                return Err(format!("{} has an initial state", f.system));
            }
            Ok(())
        }
        Some(cf::Failure::FailureState(s)) => {
            let (c, l) = named_location(ts, &f.system, &Some(s.clone()))?;
            let here = format!("{}.{}", c.name, c.locs[l].id);
            if bounded {
                // without outputs, every location with a bounded invariant is stuck
                let (own, n) = Ts::of(&leaf(&c)).unwrap();
                let b = Bound { m: own.max_const(), diag: false };
                let mut sem = Sem::new(&own, n, b);
                let init = sem.init().ok_or("no initial state")?;
                if !sem.reachable(vec![init]).0.iter().any(|s| s.0 == L::S(l)) {
                    return Err(format!("{here} cannot be reached"));
                }
                return if c.locs[l].inv == F::T { Err(format!("time can pass for ever in {here}")) } else { Ok(()) };
            }
            if winning(&c, &mut (0, 0))[l] {
                return Err(format!("{here} has consistent behaviour"));
            }
            if !walkable(&c)[l] {
                return Err(format!("{here} cannot be reached"));
            }
            // the zone: every edge resets the clock, so the location is entered at zero
            let off = nm.comps.iter().find(|x| x.0.name == c.name).unwrap().1;
            let z = nm.zone(s.zone.as_ref().ok_or("no zone")?)?;
            let own = Ts::of(&leaf(&c)).unwrap().0;
            let b = Bound { m: own.max_const().max(z.max_const()), diag: false };
            let entered = delayed(&own, &L::S(l), &std::collections::HashSet::from([Reg::zero(1).canon(b)]), b);
            for r in mc::region::all_regions(1, b.m) {
                let mut wide = Reg::zero(off + 1);
                (wide.ip[off], wide.fr[off]) = (r.ip[0], r.fr[0]);
                if wide.eval(&z) != entered.contains(&r) {
                    return Err(format!("the zone named for {here} is wrong at {}", r.show()));
                }
            }
            Ok(())
        }
        other => Err(format!("{other:?} for an inconsistent component")),
    }
}

fn ask_cons(run: &Run, space: &str, k: u64, c: &Comp, want: bool, exact: bool) {
    if run.id == "D03" && (want || !exact) {
        return;
    }
    let jsons = [c.json()];
    let q = "consistency: A";
    let got = ask(&jsons, q, false);
    run.trace(&format!("{}:{}", if want { "consistent" } else { "inconsistent" }, got.class()));
    if k % 50021 == 0 {
        run.sample(json!({"space": space, "model": c.show(), "consistent": want}));
    }
    if run.id == "D03" {
        if let Ans::Consistency(f) = &got {
            let (ts, _) = Ts::of(&leaf(c)).unwrap();
            if let Err(why) = named_stuck(&ts, f, space == "inputs-only") {
                run.violation(
                    &format!("{space} | {}", c.show()),
                    &format!("{q}: {why}"),
                    query_replay(&jsons, q, false, &[c.show()], "a state without consistent behaviour", &format!("{got:?}")),
                );
            }
        }
        return;
    }
    let ok = match &got {
        Ans::Success => want,
        Ans::Consistency(f) => {
            !want && exact && matches!(f.failure, Some(cf::Failure::FailureState(_)) | Some(cf::Failure::NoInitialState(_)))
        }
        _ => false,
    };
    if !ok {
        run.violation(
            &format!("{space} | {}", c.show()),
            &format!("{q}: model says {}, implementation says {}", if want { "consistent" } else { "inconsistent" }, got.brief()),
            query_replay(&jsons, q, false, &[c.show()], &want.to_string(), &got.brief()),
        );
    }
}

fn d02(run: &Run) {
    let quick = run.quick();
    let ask_exact = |space: &str, k: u64, c: &Comp| {
        if !reaches_all(c) {
            return;
        }
        let mut cnt = (0, 0);
        let w = consistent(c, &mut cnt);
        run.states(cnt.0);
        run.trans(cnt.1);
        ask_cons(run, space, k, c, w, true);
    };
    let r = [(0usize, 0i32)];
    let seeds = if quick { 1 } else { 6 };
    for seed in 0..seeds {
        // three locations with two outputs and one input each
        let n = 128u64.pow(3);
        if seed == 0 {
            run.space("graphs-3", n, "every graph over three locations: bounded or not, each of outputs o, p and input i absent or to any location (graphs with unreachable locations and mirror images left out)");
        }
        run.for_all_seeded(n, seed, |k| {
            let mut d = Dig(k);
            let codes = [d.pick(128), d.pick(128), d.pick(128)];
            let mut c = Comp::new("A", 1);
            for code in codes {
                c.loc(if code % 2 == 1 { le(1) } else { F::T });
            }
            for (i, code) in codes.iter().enumerate() {
                let mut d = Dig(*code as u64 / 2);
                for act in ["o!", "p!", "i?"] {
                    let t = d.pick(4);
                    if t > 0 {
                        c.edge(i, act, F::T, &r, t - 1);
                    }
                }
            }
            // mirror images under swapping L1 and L2, and o and p
            let flip = |code: usize| {
                let f = |t: usize| [0, 1, 3, 2][t];
                code % 2 + 2 * (f(code / 2 % 4) + 4 * (f(code / 8 % 4) + 4 * f(code / 32 % 4)))
            };
            if (flip(codes[0]), flip(codes[2]), flip(codes[1])) < (codes[0], codes[1], codes[2]) {
                return;
            }
            ask_exact("graphs-3", k, &c);
        });
        // a stuck location, shared successors and two inputs
        let n = 50u64 * 250 * 50;
        if seed == 0 {
            run.space("graphs-4", n, "four locations, the last one stuck: L0 with outputs o,p; L1 with output o and inputs i,j; L2 with output o and input i; every target");
        }
        run.for_all_seeded(n, seed + 16, |k| {
            let mut d = Dig(k);
            let mut c = Comp::new("A", 1);
            for _ in 0..3 {
                let b = d.pick(2);
                c.loc(if b == 1 { le(1) } else { F::T });
            }
            c.loc(le(1));
            let sets: [&[&str]; 3] = [&["o!", "p!"], &["o!", "i?", "j?"], &["o!", "i?"]];
            for (i, acts) in sets.iter().enumerate() {
                for act in *acts {
                    let t = d.pick(5);
                    if t > 0 {
                        c.edge(i, act, F::T, &r, t - 1);
                    }
                }
            }
            ask_exact("graphs-4", k, &c);
        });
    }
    // timing and kinds: two locations, guards and invariants of every shape
    let invs = [F::T, le(1), lt(1), le(0), lt(0)];
    let gs = [F::T, ge(1), gt(1), eq(1), lt(1), lt(0)];
    let n = 5u64 * 6 * 4 * (6 * 3 + 1) * (6 * 3 + 1) * 4;
    run.space("timing", n, "two locations plus one universal, inconsistent or stuck one: invariants x output guards x targets x input targets");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc(d.of(&invs).clone());
        c.loc([F::T, le(1), lt(1), le(0), lt(0), ge(1)][d.pick(6)].clone());
        match d.pick(4) {
            0 => {
                c.stars = k % 2 == 0;
                c.loc_kind(Kind::Universal)
            }
            1 => c.loc_kind(Kind::Inconsistent),
            2 => c.loc(lt(1)),
            _ => c.loc(F::T),
        };
        for i in 0..2 {
            let o = d.pick(19);
            if o > 0 {
                c.edge(i, "o!", gs[(o - 1) / 3].clone(), &r, (o - 1) % 3);
            }
        }
        let t = d.pick(4);
        if t > 0 {
            c.edge(0, "i?", F::T, &r, t - 1);
        }
        let mut cnt = (0, 0);
        let w = consistent(&c, &mut cnt);
        run.states(cnt.0);
        run.trans(cnt.1);
        ask_cons(run, "timing", k, &c, w, true);
    });
    // several edges of one output (with disjoint guards), in every order
    let splits: [[F; 3]; 4] = [[lt(1), and(ge(1), lt(2)), eq(2)], [le(1), gt(1), lt(0)], [gt(2), le(2), lt(0)], [eq(1), lt(1), gt(1)]];
    let n = 4u64 * 4 * 4 * 4 * 6 * 6 * 3 * 4;
    run.space("split-outputs", n, "a bounded location with up to three edges of one output with disjoint guards: targets x guard splits x kind of the other locations");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc([le(2), le(1), lt(2)][d.pick(3)].clone());
        let sp = d.of(&splits).clone();
        let ts = [d.pick(4), d.pick(4), d.pick(4)];
        for _ in 0..2 {
            c.loc(F::T);
        }
        for (g, t) in sp.iter().zip(ts) {
            if t > 0 {
                c.edge(0, "o!", g.clone(), &r, t - 1);
            }
        }
        for i in [1, 2] {
            let t = d.pick(6);
            c.locs[i].inv = [F::T, le(1), le(1), le(1), lt(0), F::T][t].clone();
            match t {
                2 => c.edge(i, "o!", gt(1), &r, 0),
                3 => c.edge(i, "p!", eq(1), &r, 0),
                5 => c.edge(i, "i?", F::T, &r, 3 - i),
                _ => {}
            }
        }
        if d.pick(4) == 0 {
            c.edge(0, "p!", eq(1), &r, 2);
        }
        let mut cnt = (0, 0);
        let w = consistent(&c, &mut cnt);
        run.states(cnt.0);
        run.trans(cnt.1);
        ask_cons(run, "split-outputs", k, &c, w, true);
    });
    // no outputs: a bounded location is fatal exactly when it can be reached; arbitrary updates and guards
    let y = |op, k| c(1, op, k);
    let ui: [Upd; 5] = [vec![], vec![(0, 0)], vec![(1, 0)], vec![(0, 0), (1, 0)], vec![(1, 2)]];
    let gi = [F::T, ge(2), y(Op::Ge, 2), and(lt(1), y(Op::Gt, 1)), and(y(Op::Lt, 1), gt(1)), eq(1)];
    let n = 5u64 * 5 * 6 * 6 * 3 * 2 * 5;
    run.space("inputs-only", n, "three or four locations, two clocks, inputs with arbitrary guards and updates (self-loops included) and no outputs, the last location bounded: consistent exactly when it is unreachable");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut a = Comp::new("A", 2);
        a.loc(F::T);
        a.loc(F::T);
        let (u, v) = (d.of(&ui).clone(), d.of(&ui).clone());
        let (g, h) = (d.of(&gi).clone(), d.of(&gi).clone());
        let back = d.pick(3);
        let bound = [le(2), y(Op::Lt, 3)][d.pick(2)].clone();
        let w = d.of(&ui).clone();
        a.loc(bound);
        // two inputs into the same location, one of them perhaps a self-loop
        match back {
            0 => {
                a.edge(0, "i?", F::T, &u, 1);
                a.edge(0, "j?", g.clone(), &v, 1);
                a.edge(1, "k?", h.clone(), &w, 2);
            }
            1 => {
                a.edge(0, "i?", g.clone(), &u, 0);
                a.edge(0, "j?", F::T, &v, 1);
                a.edge(1, "i?", F::T, &w, 1);
                a.edge(1, "k?", h.clone(), &[], 2);
            }
            _ => {
                a.edge(0, "i?", F::T, &u, 1);
                a.edge(1, "j?", g.clone(), &v, 0);
                a.edge(0, "k?", h.clone(), &w, 2);
            }
        }
        let (ts, nc) = Ts::of(&leaf(&a)).unwrap();
        let f = facts(&ts, nc);
        run.states(f.states);
        run.trans(f.trans);
        if f.has_init && f.any_overlap.is_empty() {
            ask_cons(run, "inputs-only", k, &a, !f.reach_stuck, true);
        }
    });
    // outside the exact class: never reject a deterministic component without reachable stuck states
    let ups: [Upd; 3] = [vec![], vec![(0, 0)], vec![(0, 1)]];
    let g3 = [F::T, le(1), gt(1), ge(2)];
    let i3 = [F::T, le(1), le(2), lt(2)];
    let n = 4u64.pow(2) * (12 * 12) * 2 * 3 * 4 * 2;
    run.space("no-stuck-state", n, "two locations with arbitrary updates and input guards; claimed only where no stuck state is reachable");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc(d.of(&i3).clone());
        c.loc(d.of(&i3).clone());
        c.edge(0, "o!", d.of(&g3).clone(), &d.of(&ups).clone(), 1);
        c.edge(1, *d.of(&["o!", "i?"]), d.of(&g3).clone(), &d.of(&ups).clone(), 0);
        match d.pick(3) {
            0 => {}
            1 => c.edge(0, "i?", d.of(&g3).clone(), &[(0, 0)], 1),
            _ => c.edge(1, "p!", d.of(&g3).clone(), &[(0, 0)], d.pick(2)),
        }
        let (ts, nc) = Ts::of(&leaf(&c)).unwrap();
        let f = facts(&ts, nc);
        run.states(f.states);
        run.trans(f.trans);
        if f.has_init && f.any_overlap.is_empty() && !f.reach_stuck {
            ask_cons(run, "no-stuck-state", k, &c, true, false);
        }
    });
    // systems: every part decides
    let part = |name: &str, kind: usize, i: &str, o: &str| {
        let mut c = Comp::new(name, 1);
        c.loc([F::T, F::T, lt(0), le(1), F::T, le(2)][kind].clone());
        let (i, o) = (format!("{i}?"), format!("{o}!"));
        if kind != 3 {
            c.edge(0, &o, F::T, &r, 0);
        }
        match kind {
            0 => c.edge(0, &i, F::T, &r, 0),
            1 => {
                let l = c.loc(le(1));
                c.edge(0, &i, F::T, &r, l);
                c.edge(l, &o, F::T, &r, 0);
            }
            2 | 3 => c.edge(0, &i, F::T, &r, 0),
            4 => {
                let l = c.loc(le(1));
                c.edge(0, &i, F::T, &r, l);
                c.edge(l, &i, F::T, &r, l);
            }
            _ => {
                let l = c.loc(lt(1));
                c.edge(0, "z!", F::T, &r, l);
                c.edge(0, &i, F::T, &r, 0);
            }
        }
        c
    };
    let n = 6u64 * 6 * 6 * 8;
    run.space("systems", n, "compositions and quotients of up to three parts, each consistent, without initial state, stuck at once, stuck after an input, or only able to choose to get stuck");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(8);
        let kinds = [d.pick(6), d.pick(6), d.pick(6)];
        let composed = form < 4;
        // parts that may both choose to get stuck would output the same action
        if kinds.iter().filter(|k| **k == 5).count() > 1 || !composed && kinds[1..].contains(&5) {
            return;
        }
        // composed: a ring of signals; quotient: the divisors do a part of what the first does
        let (a, b, c) = if composed {
            (part("A", kinds[0], "c", "a"), part("B", kinds[1], "a", "b"), part("C", kinds[2], "b", "c"))
        } else {
            (part("A", kinds[0], "i", "a"), part("B", kinds[1], "i", "a"), part("C", kinds[2], "j", "c"))
        };
        let (la, lb, lc) = (leaf(&a), leaf(&b), leaf(&c));
        let (e, used) = match form {
            0 => (par(la, lb), vec![&a, &b]),
            1 => (par(par(la, lb), lc), vec![&a, &b, &c]),
            2 => (par(la, par(lb, lc)), vec![&a, &b, &c]),
            3 => (par(lc, par(lb, la)), vec![&a, &b, &c]),
            4 => (quot(la, lb), vec![&a, &b]),
            5 => (par(quot(la, lb), lc), vec![&a, &b, &c]),
            6 => (par(lc, quot(la, lb)), vec![&a, &b, &c]),
            _ => (quot(par(la, lc), lb), vec![&a, &b, &c]),
        };
        if used.len() == 2 && kinds[2] > 0 || Ts::of(&e).is_none() {
            return;
        }
        let mut cnt = (0, 0);
        let want = used.iter().all(|c| consistent(c, &mut cnt));
        run.states(cnt.0);
        run.trans(cnt.1);
        let jsons: Vec<String> = used.iter().map(|c| c.json()).collect();
        let q = format!("consistency: {}", e.text());
        if run.id == "D03" {
            if want {
                return;
            }
            let got = ask(&jsons, &q, false);
            run.trace(&format!("system:{}", got.class()));
            if let Ans::Consistency(f) = &got {
                if let Err(why) = named_stuck(&Ts::of(&e).unwrap().0, f, false) {
                    let shown: Vec<String> = used.iter().map(|c| c.show()).collect();
                    run.violation(
                        &format!("systems | {q} | {}", shown.join(" | ")),
                        &format!("{q}: {why}"),
                        query_replay(&jsons, &q, false, &shown, "a state without consistent behaviour", &format!("{got:?}")),
                    );
                }
            }
            return;
        }
        let got = ask(&jsons, &q, k % 2 == 0);
        run.trace(&format!("system {}:{}", if want { "consistent" } else { "inconsistent" }, got.class()));
        let ok = match &got {
            Ans::Success => want,
            Ans::Consistency(f) => !want && matches!(f.failure, Some(cf::Failure::FailureState(_)) | Some(cf::Failure::NoInitialState(_))),
            // a quotient is not built from inconsistent operands
            Ans::Model(_) => !want && !composed && got.class() == "model/inconsistent",
            _ => false,
        };
        if !ok {
            let shown: Vec<String> = used.iter().map(|c| c.show()).collect();
            run.violation(
                &format!("systems | {q} | {}", shown.join(" | ")),
                &format!("{q}: model says {}, implementation says {}", if want { "consistent" } else { "inconsistent" }, got.brief()),
                query_replay(&jsons, &q, k % 2 == 0, &shown, &want.to_string(), &got.brief()),
            );
        }
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "D01" => d01(&run),
        "D02" => d02(&run),
        "D03" => {
            d01(&run);
            d02(&run)
        }
        _ => panic!("unknown property"),
    }
    run.finish()
}
