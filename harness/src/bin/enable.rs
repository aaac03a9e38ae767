//! I01: what loading adds to a component, compared point by point with what is missing.
use mc::cat::*;
use mc::driver::{guarded, request, send};
use mc::model::*;
use mc::points::{self, assign, grid, holds, holds_real, names_of, place};
use mc::report::{query_replay, Run};
use reveaal::DataReader::component_loader::{ComponentContainer, ModelCache};
use reveaal::DataReader::json_reader::json_to_component;
use reveaal::ModelObjects::{Component, SyncType};

/// Components sent along with the one of interest, each lacking inputs of its own.
fn companions() -> Vec<Comp> {
    ["F", "Z", "B"]
        .iter()
        .map(|name| {
            let mut c = Comp::new(name, 1);
            c.loc(F::T);
            c.loc(le(2));
            c.edge(0, "i?", le(1), &[(0, 0)], 1);
            c.edge(1, "j?", gt(1), &[], 0);
            c
        })
        .collect()
}

/// The components as the server keeps them after one request that carried them, at the given place among
/// companions.
fn by_request(json: &str, name: &str, others: &[Comp], place: usize) -> (Option<Component>, Vec<Option<Component>>) {
    let cache = ModelCache::new(1);
    let mut jsons: Vec<String> = others.iter().map(|c| c.json()).collect();
    jsons.insert(place, json.to_string());
    let mut req = request(&jsons, "determinism: NoSuchComponent", false);
    req.user_id = 1;
    req.components_info.as_mut().unwrap().components_hash = 1;
    let _ = send(req, cache.clone());
    match cache.get_model(1, 1) {
        None => (None, vec![]),
        Some(model) => (
            model.loaded_components.get(name).cloned(),
            others.iter().map(|c| model.loaded_components.get(&c.name).cloned()).collect(),
        ),
    }
}

fn by_container(json: &str, name: &str) -> Option<Component> {
    let c = guarded(|| ComponentContainer::from(vec![json_to_component(json).unwrap()])).ok()?;
    c.loaded_components.get(name).cloned()
}

fn compare(c: &Comp, got: &Component, pts: &[Vec<i64>], cnt: &mut u64) -> Result<bool, String> {
    let names = names_of(c);
    let (mut own, mut added) = (vec![], vec![]);
    let universal = c.locs.iter().filter(|l| l.kind == Kind::Universal);
    let loops: Vec<_> = got.edges.iter().filter(|e| e.sync == "*").collect();
    let kept = universal.clone().all(|l| {
        let at: Vec<_> = loops.iter().filter(|e| e.source_location == l.id && e.target_location == l.id).collect();
        at.len() == 2 && at[0].sync_type != at[1].sync_type
    });
    if loops.len() != if c.stars { 2 * universal.count() } else { 0 } || c.stars && !kept {
        return Err("the loops of universal locations were changed".into());
    }
    for e in got.edges.iter().filter(|e| e.sync != "*") {
        match c.edges.iter().find(|f| f.id == e.id) {
            Some(f) => own.push((f, e)),
            None => added.push(e),
        }
    }
    if own.len() != c.edges.len() {
        return Err(format!("{} own edges instead of {}", own.len(), c.edges.len()));
    }
    for (f, e) in &own {
        let same = e.source_location == c.locs[f.src].id
            && e.target_location == c.locs[f.dst].id
            && (e.sync_type == SyncType::Input) == f.input
            && e.sync == f.act;
        let ups: Option<Vec<(usize, i64)>> = e.update.iter().flatten().map(|u| Some((*names.get(&u.variable)?, match &u.expression {
            reveaal::ModelObjects::Expressions::ArithExpression::Int(k) => *k as i64,
            _ => return None,
        }))).collect();
        let want: Vec<(usize, i64)> = f.resets.iter().map(|r| (r.0, r.1 as i64)).collect();
        if !same || ups != Some(want) {
            return Err(format!("edge {} was changed to {e}", f.id));
        }
        for v in pts {
            *cnt += 1;
            if e.guard.as_ref().map_or(Some(true), |g| holds_real(g, &names, v)) != Some(holds(&f.guard, v)) {
                return Err(format!("guard of {} changed at {}", f.id, place(&c.clocks, v)));
            }
        }
    }
    if got.locations.len() != c.locs.len() {
        return Err("locations changed".into());
    }
    for (l, m) in c.locs.iter().zip(&got.locations) {
        if l.id != m.id {
            return Err("locations changed".into());
        }
        for v in pts {
            if m.invariant.as_ref().map_or(Some(true), |g| holds_real(g, &names, v)) != Some(holds(&l.inv, v)) {
                return Err(format!("invariant of {} changed at {}", l.id, place(&c.clocks, v)));
            }
        }
    }
    if got.get_input_actions().into_iter().collect::<std::collections::BTreeSet<_>>() != c.inputs()
        || got.get_output_actions().into_iter().collect::<std::collections::BTreeSet<_>>() != c.outputs()
    {
        return Err("alphabet changed".into());
    }
    for e in &added {
        if e.source_location != e.target_location
            || e.update.as_ref().is_some_and(|u| !u.is_empty())
            || e.sync_type != SyncType::Input
            || !c.inputs().contains(&e.sync)
            || !c.locs.iter().any(|l| l.id == e.source_location)
        {
            return Err(format!("added edge {e} is no plain input self-loop"));
        }
    }
    let mut some = false;
    for (i, l) in c.locs.iter().enumerate() {
        for a in c.inputs() {
            let mine: Vec<_> = c.edges.iter().filter(|e| e.src == i && e.input && e.act == a).collect();
            let extra: Vec<_> = added.iter().filter(|e| e.source_location == l.id && e.sync == a).collect();
            for v in pts.iter().filter(|v| holds(&l.inv, v)) {
                *cnt += 1;
                // everything is possible in a universal location, every input in an inconsistent one
                let own = c.stars && l.kind == Kind::Universal || mine.iter().any(|e| holds(&e.guard, v) && holds(&c.locs[e.dst].inv, &assign(v, &e.resets)));
                let mut n = 0;
                for e in &extra {
                    match e.guard.as_ref().map_or(Some(true), |g| holds_real(g, &names, v)) {
                        Some(true) => n += 1,
                        Some(false) => {}
                        None => return Err(format!("guard of added edge {e} has no meaning")),
                    }
                }
                some |= n > 0;
                let at = || format!("{a}? in {} at {}", l.id, place(&c.clocks, v));
                match (own, n) {
                    (true, 0) | (false, 1) => {}
                    (false, 0) if matches!(l.kind, Kind::Universal | Kind::Inconsistent) => {}
                    (true, _) => return Err(format!("{}: enabled by an own edge and by an added one", at())),
                    (false, 0) => return Err(format!("{}: not enabled", at())),
                    (false, _) => return Err(format!("{}: enabled by several added edges", at())),
                }
            }
        }
    }
    Ok(some)
}

fn check(run: &Run, space: &str, k: u64, c: &Comp, pts: &[Vec<i64>]) {
    let json = c.json();
    let mut cnt = 0;
    // one case in eight in company
    let company = if k % 8 == 0 { companions() } else { vec![] };
    let place = if company.is_empty() { 0 } else { (k / 8 % 4) as usize };
    let (asked, others) = by_request(&json, &c.name, &company, place);
    for (o, got) in company.iter().zip(others) {
        let r = match got {
            Some(g) => compare(o, &g, pts, &mut cnt).and_then(|some| if some { Ok(()) } else { Err("nothing added".into()) }),
            None => Err("not loaded".into()),
        };
        if let Err(e) = r {
            run.violation(
                &format!("{space} | companion {} | {}", o.name, c.show()),
                &format!("loaded in a request of four components, the other one at {place}: {e}"),
                query_replay(&[json.clone()], &format!("get-component: {0} save-as {0}", c.name), false, &[c.show(), o.show()], "input-enabled, own edges kept", &e),
            );
        }
    }
    for (route, got) in [("request", asked), ("container", by_container(&json, &c.name))] {
        let r = match got {
            Some(g) => compare(c, &g, pts, &mut cnt),
            None => Err("not loaded".into()),
        };
        match r {
            Ok(some) => run.trace(if some { "completed" } else { "already input-enabled" }),
            Err(e) => run.violation(
                &format!("{space} | {}", c.show()),
                &format!("loaded by {route}: {e}"),
                query_replay(&[json.clone()], &format!("get-component: {0} save-as {0}", c.name), false, &[c.show()], "input-enabled, own edges kept", &e),
            ),
        }
    }
    run.states(cnt);
    if k % 9973 == 0 {
        run.sample(serde_json::json!({"space": space, "model": c.show()}));
    }
}

fn two(g: F, h: F) -> F {
    or(g, h)
}

fn c_le1() -> F {
    F::C(1, Op::Le, 1)
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    assert_eq!(id, "I01");
    let run = Run::new(&id);
    assert!(points::SCALE > 3);
    let (p1, p2) = (grid(1, 4, 2), grid(2, 4, if run.quick() { 2 } else { 4 }));
    let p2 = if run.quick() { p2.into_iter().chain(grid(2, 2, 4)).collect() } else { p2 };
    let p3 = grid(3, 2, 4);

    // one clock, two edges for one input (and one for another) from L0
    let gs = [F::T, le(1), lt(1), ge(1), gt(1), eq(1), lt(2), ge(2), two(lt(1), gt(1)), two(eq(0), ge(2)), F::N, and(ge(1), le(2))];
    let us: [Upd; 5] = [vec![], vec![(0, 0)], vec![(0, 1)], vec![(0, 2)], vec![(0, 1), (0, 0)]];
    let is = [F::T, le(1), lt(1), ge(1), lt(0), two(le(0), eq(1))];
    let n = (gs.len() * us.len() * 2) as u64;
    let n2 = n * (n + 1) / 2 * (is.len() * is.len()) as u64;
    let pairs: Vec<(u64, u64)> = (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).collect();
    run.space("one-clock", n2, "two input edges from L0 over all guards, updates and targets; all invariants");
    let put = |c: &mut Comp, e: u64, src: usize, act: &str| {
        let mut d = Dig(e);
        let dst = d.pick(2);
        let g = d.of(&gs).clone();
        let u = d.of(&us).clone();
        c.edge(src, act, g, &u, dst);
    };
    run.for_all(n2, |k| {
        let mut d = Dig(k);
        let (a, b) = *d.of(&pairs);
        let mut c = Comp::new("A", 1);
        c.loc(d.of(&is).clone());
        c.loc(d.of(&is).clone());
        put(&mut c, a, 0, "a?");
        put(&mut c, b, 0, if k % 5 == 0 { "b?" } else { "a?" });
        c.edge(1, "o!", F::T, &[], 0);
        check(&run, "one-clock", k, &c, &p1);
    });

    // three edges, spread over the locations and two inputs
    let g3: Vec<usize> = if run.quick() { vec![0, 1, 4, 8] } else { vec![0, 1, 2, 4, 5, 8] };
    let u3: Vec<usize> = if run.quick() { vec![0, 1] } else { vec![0, 1, 2] };
    let i3 = [F::T, le(1), gt(0)];
    let per = (g3.len() * u3.len() * 2 * 2) as u64;
    let n3 = per.pow(3) * 2 * 9;
    run.space("three-edges", n3, "three input edges from either location, for one or two inputs");
    run.for_all(n3, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc(d.of(&i3).clone());
        c.loc(d.of(&i3).clone());
        let other = d.pick(2) == 1;
        for j in 0..3 {
            let src = d.pick(2);
            let dst = d.pick(2);
            let g = gs[*d.of(&g3)].clone();
            let u = us[*d.of(&u3)].clone();
            c.edge(src, if j == 2 && other { "b?" } else { "a?" }, g, &u, dst);
        }
        check(&run, "three-edges", k, &c, &p1);
    });

    // special kinds of locations; names that are easily mistaken for each other
    let gk = [F::T, le(1), gt(1)];
    let n = (3u64 * 3 * 3 * 3).pow(2) * 4 * 3 * 2;
    run.space("kinds and names", n, "a universal or inconsistent location with and without loops for all actions; actions, locations and clocks with similar names");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 2);
        c.clocks = [["x", "x1"], ["X", "x"]][d.pick(2)].iter().map(|x| x.to_string()).collect();
        c.loc(le(2));
        match d.pick(4) {
            0 => c.loc_kind(Kind::Universal),
            1 => {
                c.stars = true;
                c.loc_kind(Kind::Universal)
            }
            2 => c.loc_kind(Kind::Inconsistent),
            _ => c.loc(c_le1()),
        };
        c.loc(F::T);
        for (l, id) in c.locs.iter_mut().zip(["L1", "L10", "l1"]) {
            l.id = id.into();
        }
        let third = ["a?", "aa?", "A?"][d.pick(3)];
        for _ in 0..2 {
            let act = ["a?", "aa?", "A?"][d.pick(3)];
            let g = gk[d.pick(3)].clone();
            let (src, dst) = (d.pick(3), d.pick(3));
            if c.locs[src].kind == Kind::Universal || c.locs[src].kind == Kind::Inconsistent {
                return;
            }
            c.edge(src, act, g, &[(0, 0)], dst);
        }
        c.edge(2, third, F::C(1, Op::Lt, 1), &[(1, 0)], 0);
        c.edge(2, "a1!", F::T, &[], 0);
        check(&run, "kinds and names", k, &c, &p2);
    });

    // two clocks: differences, disjunctions, updates of either clock or both
    let y = |o, k| F::C(1, o, k);
    let dd = |o, k| F::D(0, 1, o, k);
    let g2 = [
        F::T, le(1), gt(1), y(Op::Lt, 1), dd(Op::Le, 0), dd(Op::Gt, 1), dd(Op::Eq, 0), F::D(1, 0, Op::Lt, 1),
        and(ge(1), y(Op::Le, 1)), or(lt(1), y(Op::Gt, 1)), or(dd(Op::Lt, 0), eq(2)), and(F::D(1, 0, Op::Le, 1), y(Op::Lt, 2)),
    ];
    let u2: Vec<Upd> = vec![vec![], vec![(0, 0)], vec![(1, 1)], vec![(0, 0), (1, 0)], vec![(1, 2), (0, 1)], vec![(0, 2), (0, 0)]];
    let i2 = [F::T, le(1), y(Op::Lt, 2), dd(Op::Le, 0), and(le(2), y(Op::Ge, 1)), or(lt(1), y(Op::Le, 1))];
    let e2 = (g2.len() * u2.len()) as u64;
    let reps = if run.quick() { 1 } else { 2 };
    let n = e2 * e2 * (6 * 6) * reps;
    run.space("two-clocks", n, "two input edges over guards with differences and disjunctions, updates of both clocks, all invariants");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 2);
        c.loc(d.of(&i2).clone());
        c.loc(d.of(&i2).clone());
        let t = if reps == 2 { d.pick(2) } else { (k % 2) as usize };
        for dst in [1, t] {
            let g = d.of(&g2).clone();
            let u = d.of(&u2).clone();
            c.edge(0, "a?", g, &u, dst);
        }
        check(&run, "two-clocks", k, &c, &p2);
    });

    // three clocks
    let g4 = [F::T, le(1), and(y(Op::Gt, 0), F::C(2, Op::Le, 1)), F::D(2, 1, Op::Lt, 0), or(F::D(0, 2, Op::Ge, 1), y(Op::Eq, 1)), F::C(2, Op::Ge, 1)];
    let u4: Vec<Upd> = vec![vec![], vec![(2, 0)], vec![(1, 1), (0, 0)], vec![(2, 1), (2, 0), (1, 0)]];
    let i4 = [F::T, F::C(2, Op::Lt, 1), F::D(0, 2, Op::Le, 0), or(le(0), y(Op::Gt, 1))];
    let g4 = &g4[..if run.quick() { 4 } else { 6 }];
    let n = (g4.len() as u64 * 4).pow(2) * 16;
    run.space("three-clocks", n, "two input edges, three clocks");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 3);
        for _ in 0..2 {
            let g = d.of(g4).clone();
            let u = d.of(&u4).clone();
            let dst = (c.edges.len() + 1) % 2;
            c.edges.push(Edge { id: format!("E{}", c.edges.len()), src: 0, dst, act: "a".into(), input: true, guard: g, resets: u });
        }
        c.loc(d.of(&i4).clone());
        c.loc(d.of(&i4).clone());
        check(&run, "three-clocks", k, &c, &p3);
    });
    // many inputs and locations
    let n = 5 * 8 * 3u64.pow(4) * 4 * 2;
    run.space("many-inputs", n, "up to eight inputs and five locations: guards and sources of the edges, invariants");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let (locs, inputs) = (d.pick(5) + 1, d.pick(8) + 1);
        let guards: Vec<F> = (0..4).map(|_| [F::T, le(1), gt(1)][d.pick(3)].clone()).collect();
        let (from, inv) = (d.pick(4), d.pick(2));
        let mut c = Comp::new("A", 1);
        for l in 0..locs {
            c.loc(if inv == 1 && l % 2 == 0 { le(2) } else { F::T });
        }
        for i in 0..inputs {
            // one source for all, alternating, the last one, two edges
            let src = match from {
                0 => 0,
                1 => i % locs,
                2 => locs - 1,
                _ => (inputs - i) % locs,
            };
            let act = format!("i{i}?");
            c.edge(src, &act, guards[i % 4].clone(), &[(0, 0)], (src + 1) % locs);
            if from == 3 {
                c.edge((src + 1) % locs, &act, guards[(i + 1) % 4].clone(), &[], 0);
            }
        }
        c.edge(locs - 1, "o!", F::T, &[], 0);
        check(&run, "many-inputs", k, &c, &p1);
    });
    run.finish()
}
