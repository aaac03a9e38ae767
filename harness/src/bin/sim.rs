//! M01 simulation, O01 composition: walks the simulation service through every decision up to a depth
//! and compares every answer with the reference product.
use mc::cat::*;
use mc::driver::*;
use mc::model::*;
use mc::report::*;
use mc::sem::*;
use mc::walk::*;

fn deterministic(e: &Expr) -> bool {
    match Ts::of(e) {
        Some((ts, _)) => leaf_overlaps(&ts).is_empty(),
        None => false,
    }
}

fn m01(run: &Run) {
    let quick = run.quick();
    let depth = if quick { 3 } else { 6 };
    let gs = [F::T, le(1), gt(1), ge(1), eq(1), or(lt(1), gt(2))];
    let us: [Upd; 3] = [vec![], vec![(0, 0)], vec![(0, 2)]];
    let invs = [F::T, le(2), lt(2)];
    let n = 3u64 * 5 * 6 * 3 * 6 * 3 * 4 * 3;
    run.space("one-component", n, "two locations, up to four edges: guards (also disjunctions), updates, invariants, inputs and outputs");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut c = Comp::new("A", 1);
        c.loc(d.of(&invs).clone());
        c.loc([F::T, le(2), lt(2), ge(1), and(gt(1), le(3))][d.pick(5)].clone());
        c.edge(0, "a!", d.of(&gs).clone(), &d.of(&us).clone(), 1);
        c.edge(1, "b?", d.of(&gs).clone(), &d.of(&us).clone(), 0);
        match d.pick(4) {
            0 => {}
            1 => c.edge(0, "a!", gt(2), &[(0, 0)], 0),
            2 => c.edge(1, "a!", lt(1), &[], 1),
            _ => c.edge(0, "b?", or(lt(1), gt(1)), &[], 1),
        }
        match d.pick(3) {
            0 => {}
            1 => c.edge(1, "b?", and(gt(2), lt(3)), &[(0, 1)], 1),
            _ => c.edge(1, "c!", F::T, &[(0, 0)], 0),
        }
        let e = leaf(&c);
        if !deterministic(&e) {
            return;
        }
        walk(run, "one-component", k, &e, depth, false);
    });
    // two clocks, diagonal guards included
    let g2 = [F::T, c(1, Op::Ge, 1), and(le(1), c(1, Op::Lt, 2)), or(lt(1), c(1, Op::Gt, 1)), F::D(0, 1, Op::Lt, 1), F::D(1, 0, Op::Ge, 1)];
    let u2: [Upd; 5] = [vec![], vec![(0, 0)], vec![(1, 0)], vec![(0, 1), (1, 0)], vec![(1, 2)]];
    let i2 = [F::T, le(1), and(le(2), c(1, Op::Lt, 2))];
    let n = 3u64 * 5 * 6 * 5 * 6 * 5 * 2;
    let d2 = if quick { 2 } else { 5 };
    run.space("two-clocks", n, "two locations, two clocks, guards over their difference");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut a = Comp::new("A", 2);
        if d.pick(2) == 1 {
            a.clocks = vec!["y".into(), "x".into()];
        }
        a.loc(d.of(&i2).clone());
        a.loc([F::T, le(1), and(le(2), c(1, Op::Lt, 2)), and(ge(1), c(1, Op::Lt, 2)), F::D(0, 1, Op::Lt, 1)][d.pick(5)].clone());
        a.edge(0, "a!", d.of(&g2).clone(), &d.of(&u2).clone(), 1);
        a.edge(1, "b?", d.of(&g2).clone(), &d.of(&u2).clone(), 0);
        walk(run, "two-clocks", k, &leaf(&a), d2, false);
    });
    composed(run, "composed", 5, if quick { 2 } else { 4 });
    // universal and inconsistent locations, inputs only, no clocks
    let n = 2u64 * 3 * 2 * 2 * 4 * 2;
    run.space("kinds", n, "universal, inconsistent and clockless locations; universal ones with and without loops for `*`");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut a = Comp::new("A", d.pick(2));
        a.loc(F::T);
        match d.pick(3) {
            0 => a.loc_kind(Kind::Universal),
            1 => a.loc_kind(Kind::Inconsistent),
            _ => a.loc(F::T),
        };
        a.edge(0, ["a!", "a?"][d.pick(2)], F::T, &[], 1);
        a.edge(0, ["b!", "b?"][d.pick(2)], F::T, &[], 1);
        let mut b = Comp::new("B", 1);
        b.loc(F::T);
        b.edge(0, "a?", le(1), &[(0, 0)], 0);
        let form = d.pick(4);
        a.stars = d.pick(2) == 1;
        let e = match form {
            0 | 1 => leaf(&a),
            2 => par(leaf(&a), leaf(&b)),
            _ => par(leaf(&b), leaf(&a)),
        };
        walk(run, "kinds", k, &e, 3, false);
    });
}

/// Two or three instances in every form.
fn composed(run: &Run, space: &str, forms: usize, depth: usize) {
    let ga = [F::T, ge(1), lt(1)];
    let n = 3u64 * 3 * 3 * 3 * 2 * 2 * 2 * 2 * forms as u64;
    run.space(space, n, "two components in composition (shared, independent), conjunction and quotient, instances of one component, three components");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(forms);
        let acts: [[&str; 4]; 5] =
            [["a!", "b!", "a?", "c!"], ["a?", "b!", "a?", "c?"], ["a?", "b?", "a?", "b?"], ["a!", "b?", "a!", "b?"], ["a!", "b!", "a!", "b?"]];
        // the second location may be one that can only be entered from some time on
        let late = d.pick(2) * (1 + k as usize / 7 % 2);
        let mk = |name: &str, first: &str, second: &str, g: F, h: F, inv: F| {
            let mut c = Comp::new(name, 1);
            let late = late == 1 && name == "A" || late == 2 && name == "B";
            c.loc(if late { F::T } else { inv });
            c.loc(if late { ge(1) } else { F::T });
            c.edge(0, first, g, if late { &[] } else { &[(0, 0)] }, 1);
            c.edge(1, second, h, &[], 0);
            c
        };
        let a = mk("A", acts[form][0], acts[form][1], d.of(&ga).clone(), d.of(&ga).clone(), [F::T, le(1)][d.pick(2)].clone());
        let b = mk("B", acts[form][2], acts[form][3], d.of(&ga).clone(), d.of(&ga).clone(), [F::T, le(2)][d.pick(2)].clone());
        let mirror = d.pick(2) == 1;
        let (l, r) = if mirror { (leaf(&b), leaf(&a)) } else { (leaf(&a), leaf(&b)) };
        let (e, tagged) = match form {
            0 | 1 => (par(l, r), false),
            2 => (par(leaf(&a), leaf(&a)), true),
            3 => (conj(l, r), false),
            _ => (quot(l, r), false),
        };
        walk(run, space, k, &e, depth, tagged);
    });
}

/// The alphabet of a system, read off the failures of refinement queries against the empty alphabet.
fn alphabet(jsons: &[String], text: &str) -> Result<(Vec<String>, Vec<String>), String> {
    use reveaal::ProtobufServer::services::query_response::refinement_failure::Failure;
    let mut p = Comp::new("Probe", 0);
    p.loc(F::T);
    let mut js = jsons.to_vec();
    js.push(p.json());
    let mut res = vec![];
    // S's inputs must be among T's: with an empty T the failure shows S's inputs. T's outputs must be
    // among S's: with an empty S it shows T's outputs.
    for (q, input) in [(format!("refinement: {text} <= Probe"), true), (format!("refinement: Probe <= {text}"), false)] {
        let v = match ask(&js, &q, false) {
            Ans::Success => vec![],
            Ans::Refinement(f) => match f.failure {
                Some(Failure::ActionMismatch(a)) => {
                    let mut v: Vec<String> = a.action_sets.iter().flat_map(|s| s.actions.clone()).collect();
                    v.sort();
                    v
                }
                // the alphabets fit, so there was nothing of this direction
                _ => vec![],
            },
            a => return Err(format!("{q}: {}", a.brief())),
        };
        let _ = input;
        res.push(v);
    }
    Ok((res[0].clone(), res[1].clone()))
}

fn o01(run: &Run) {
    let quick = run.quick();
    // alphabets: every direction (or absence) of three actions on two and three sides
    let dirs = ["", "?", "!"];
    let comp = |name: &str, code: usize, never: bool| {
        let mut c = Comp::new(name, 1);
        c.loc(F::T);
        for (i, a) in ["a", "b", "c"].iter().enumerate() {
            let d = dirs[code / 3usize.pow(i as u32) % 3];
            if !d.is_empty() {
                c.edge(0, &format!("{a}{d}"), if never { F::N } else { F::T }, &[], 0);
            }
        }
        c
    };
    let n = 27u64 * 27 * 2 * if quick { 3 } else { 27 + 2 };
    run.space("alphabets", n, "every direction of three actions in two (and three) components, also on edges that are never enabled");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let never = d.pick(2) == 1;
        let (a, b) = (comp("A", d.pick(27), never), comp("B", d.pick(27), never));
        let third = d.pick(if quick { 3 } else { 29 });
        let c3 = comp("C", if quick { 16 } else { third.saturating_sub(2) }, false);
        let e = match third {
            0 => par(leaf(&a), leaf(&b)),
            1 => par(par(leaf(&c3), leaf(&a)), leaf(&b)),
            _ => par(leaf(&a), par(leaf(&b), leaf(&c3))),
        };
        let jsons = [a.json(), b.json(), c3.json()];
        let text = e.text();
        let shown = [a.show(), b.show(), c3.show()];
        let fail = |what: String| {
            run.violation(
                &format!("alphabets | {text} | {}", shown.join(" | ")),
                &what,
                query_replay(&jsons, &format!("determinism: {text}"), false, &shown, "the alphabet of the product", &what),
            )
        };
        run.states(1);
        match Ts::of(&e) {
            None => {
                let q = format!("determinism: {text}");
                let got = ask(&jsons, &q, false);
                run.trace(&format!("clash:{}", got.class()));
                if got.class() != "model/actions" {
                    fail(format!("{q}: two sides output the same action, answer {}", got.brief()));
                }
            }
            Some((ts, _)) => match alphabet(&jsons, &text) {
                Err(e) => fail(e),
                Ok((i, o)) => {
                    run.trace("alphabet");
                    let wi: Vec<String> = ts.inputs.iter().cloned().collect();
                    let wo: Vec<String> = ts.outputs.iter().cloned().collect();
                    if i != wi || o != wo {
                        fail(format!("inputs {i:?} outputs {o:?}, expected {wi:?} and {wo:?}"));
                    }
                }
            },
        }
    });
    // behaviour: pairs from a catalogue, in all sharing patterns
    let depth = if quick { 2 } else { 4 };
    let patterns: [[&str; 4]; 8] = [
        ["a!", "b!", "a?", "c!"],
        ["a!", "b?", "a?", "b!"],
        ["a?", "b?", "a?", "b?"],
        ["a?", "b!", "a?", "b?"],
        ["a!", "b?", "c!", "d?"],
        ["a!", "a!", "a?", "a?"],
        ["a!", "a!", "a?", "c!"],
        ["a?", "a?", "b!", "a?"],
    ];
    let gs = [F::T, ge(1), lt(1), eq(1)];
    let us: [Upd; 2] = [vec![(0, 0)], vec![]];
    let invs = [F::T, le(1), lt(2)];
    let n = 8u64 * 4 * 4 * 4 * 2 * 3 * 3 * 2 * 3;
    run.space("pairs", n, "two components of two locations, every sharing pattern of their actions, guards, updates and invariants, both orders");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let p = d.of(&patterns);
        let mk = |name: &str, first: &str, second: &str, g: F, h: F, u: &Upd, inv: F, late: F| {
            let mut c = Comp::new(name, 1);
            c.loc(inv.clone());
            c.loc(late);
            c.edge(0, first, g, u, 1);
            c.edge(1, second, h, &[(0, 0)], 0);
            c
        };
        // locations that can only be entered from some time on
        let late = d.of(&[[F::T, F::T], [le(2), ge(1)], [ge(1), le(2)]]).clone();
        let a = mk("A", p[0], p[1], d.of(&gs).clone(), d.of(&gs).clone(), if late[0] == F::T { &us[0] } else { &us[1] }, d.of(&invs).clone(), late[0].clone());
        let b = mk("B", p[2], p[3], d.of(&gs).clone(), F::T, d.of(&us), d.of(&invs).clone(), late[1].clone());
        let e = if d.pick(2) == 0 { par(leaf(&a), leaf(&b)) } else { par(leaf(&b), leaf(&a)) };
        if !deterministic(&e) {
            return;
        }
        walk(run, "pairs", k, &e, depth, false);
    });
    // several edges of one shared action per side, some of which can never be taken
    let never = and(lt(1), gt(1));
    let gm = [F::T, never.clone(), lt(1), ge(1)];
    let n = 4u64 * 4 * 4 * 4 * 4 * 3 * 2;
    run.space("several-edges", n, "two sides with two or three edges of a shared action each, some with a guard nothing satisfies, in compositions and conjunctions");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let form = d.pick(3);
        let mirror = d.pick(2) == 1;
        let mut a = Comp::new("A", 1);
        let mut b = Comp::new("B", 1);
        for _ in 0..3 {
            a.loc(F::T);
            b.loc(F::T);
        }
        let (da, db) = [("a!", "a?"), ("a?", "a?"), ("a!", "a!")][form];
        a.edge(0, da, d.of(&gm).clone(), &[(0, 0)], 1);
        a.edge(0, da, d.of(&gm).clone(), &[], 2);
        a.edge(0, da, d.of(&gm).clone(), &[(0, 1)], 0);
        a.edge(1, da, F::T, &[], 0);
        b.edge(0, db, d.of(&gm).clone(), &[(0, 0)], 1);
        b.edge(0, db, d.of(&gm).clone(), &[], 2);
        b.edge(1, db, F::T, &[], 0);
        let (l, r) = if mirror { (leaf(&b), leaf(&a)) } else { (leaf(&a), leaf(&b)) };
        let e = if form == 2 { conj(l, r) } else { par(l, r) };
        if !deterministic(&e) {
            return;
        }
        walk(run, "several-edges", k, &e, 2, false);
    });
    // three components, both groupings
    let n = 4u64 * 2 * 2 * 2 * 2 * 3;
    let (g3, i3) = ([F::T, ge(1)], [F::T, le(1)]);
    run.space("triples", n, "three components, both groupings: broadcast of one output to two inputs, chains, independent ones");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let p: [[&str; 6]; 4] = [
            ["a!", "b!", "a?", "c!", "a?", "d!"],
            ["a!", "b!", "a?", "c!", "c?", "d!"],
            ["a?", "b!", "a?", "c!", "a?", "d!"],
            ["a!", "b!", "c!", "d!", "e?", "f!"],
        ];
        let p = d.of(&p);
        let (g, h) = (d.of(&g3).clone(), d.of(&g3).clone());
        let (i, j) = (d.of(&i3).clone(), d.of(&i3).clone());
        let mk = |name: &str, s: usize, g: &F, inv: &F| {
            let mut c = Comp::new(name, 1);
            c.loc(inv.clone());
            c.loc(F::T);
            c.edge(0, p[s], g.clone(), &[(0, 0)], 1);
            c.edge(1, p[s + 1], F::T, &[(0, 0)], 0);
            c
        };
        let (a, b, c3) = (mk("A", 0, &g, &i), mk("B", 2, &h, &F::T), mk("C", 4, &F::T, &j));
        let e = match d.pick(3) {
            0 => par(par(leaf(&a), leaf(&b)), leaf(&c3)),
            1 => par(leaf(&a), par(leaf(&b), leaf(&c3))),
            _ => par(leaf(&c3), par(leaf(&b), leaf(&a))),
        };
        walk(run, "triples", k, &e, 1, false);
    });
    // several instances of one component keep their clocks apart
    let n = 4u64 * 4 * 3 * 2 * 2;
    run.space("instances", n, "two instances of one component sharing inputs, tagged or not");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let mut a = Comp::new("A", 1);
        a.loc(d.of(&invs).clone());
        a.loc(F::T);
        a.edge(0, "a?", d.of(&gs).clone(), d.of(&us), 1);
        a.edge(1, "b?", d.of(&gs).clone(), &[(0, 0)], 0);
        walk(run, "instances", k, &par(leaf(&a), leaf(&a)), depth + 1, d.pick(2) == 1);
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    let run = Run::new(&id);
    match id.as_str() {
        "M01" => m01(&run),
        "O01" => o01(&run),
        _ => panic!("unknown property"),
    }
    run.finish()
}
