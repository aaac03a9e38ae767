//! L01: location trees: equality, printed form, partial matching, kinds and invariants.
use mc::model::{and, c, Comp, Dig, Op, F};
use mc::points::{grid, holds, SCALE};
use mc::report::Run;
use reveaal::ModelObjects::{Component, LocationType};
use reveaal::TransitionSystems::{CompositionType, LocationID, LocationTree};
use serde_json::json;

#[derive(Clone, Debug, PartialEq)]
enum T {
    /// location number of the component at this position
    Loc(usize),
    Any,
    Universal,
    Error,
    Node(usize, Box<T>, Box<T>),
}
const OPS: [&str; 3] = ["&&", "||", "//"];

/// Shapes: None is a leaf
#[derive(Clone, Debug)]
enum Shape {
    Leaf,
    Node(usize, Box<Shape>, Box<Shape>),
}

fn shapes(n: usize) -> Vec<Shape> {
    if n == 1 {
        return vec![Shape::Leaf];
    }
    let mut out = vec![];
    for l in 1..n {
        for op in 0..3 {
            for a in shapes(l) {
                for b in shapes(n - l) {
                    out.push(Shape::Node(op, Box::new(a.clone()), Box::new(b.clone())));
                }
            }
        }
    }
    out
}

/// All locations of a shape: every leaf any of the labels, every quotient possibly one of its special locations
fn labelled(s: &Shape, leaves: &[T], special: bool) -> Vec<T> {
    match s {
        Shape::Leaf => leaves.to_vec(),
        Shape::Node(op, a, b) => {
            let mut out = vec![];
            for x in labelled(a, leaves, special) {
                for y in labelled(b, leaves, special) {
                    out.push(T::Node(*op, Box::new(x.clone()), Box::new(y)));
                }
            }
            if special && *op == 2 {
                out.extend([T::Universal, T::Error]);
            }
            out
        }
    }
}

const DIM: usize = 3;

fn real(t: &T, at: &mut dyn FnMut(usize) -> LocationTree) -> LocationTree {
    match t {
        T::Loc(i) => at(*i),
        T::Any => LocationTree::build_any_location_tree(),
        T::Universal => LocationTree::universal(),
        T::Error => LocationTree::error(DIM, 1),
        T::Node(op, a, b) => {
            let (a, b) = (real(a, at), real(b, at));
            match op {
                0 => LocationTree::compose(&a, &b, CompositionType::Conjunction),
                1 => LocationTree::compose(&a, &b, CompositionType::Composition),
                _ => LocationTree::merge_as_quotient(&a, &b),
            }
        }
    }
}

fn matches(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Node(o, a, b), T::Node(p, x, y)) => o == p && matches(a, x) && matches(b, y),
        (T::Any, T::Any | T::Loc(_)) | (T::Loc(_), T::Any) => true,
        (a, b) => a == b,
    }
}

fn partial(t: &T) -> bool {
    match t {
        T::Any => true,
        T::Node(_, a, b) => partial(a) || partial(b),
        _ => false,
    }
}

fn show(t: &T) -> String {
    match t {
        T::Loc(i) => format!("L{i}"),
        T::Any => "_".into(),
        T::Universal => "U".into(),
        T::Error => "E".into(),
        T::Node(o, a, b) => format!("({}{}{})", show(a), OPS[*o], show(b)),
    }
}

fn initial(t: &T) -> bool {
    match t {
        T::Loc(i) => *i == 0,
        T::Node(_, a, b) => initial(a) && initial(b),
        _ => false,
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property");
    assert_eq!(id, "L01");
    let run = Run::new(&id);
    let comp = |invs: &[F]| -> Component {
        let mut c = Comp::new("A", 2);
        for i in invs {
            c.loc(i.clone());
        }
        serde_json::from_str(&c.json()).unwrap()
    };
    let plain = comp(&[F::T, F::T]);
    let leaf = |i: usize| LocationTree::simple(&plain.locations[i], &plain.declarations, DIM);

    // all pairs of locations of one shape
    let leaves = [T::Loc(0), T::Loc(1), T::Any];
    let top = if run.quick() { 4 } else { 5 };
    for n in 1..=top {
        let sh = shapes(n);
        let leaves = if n == 5 { &leaves[1..] } else { &leaves[..] };
        let special = n <= 4;
        let sizes: Vec<usize> = sh.iter().map(|s| labelled(s, leaves, special).len()).collect();
        let total: u64 = sizes.iter().map(|n| (*n * *n) as u64).sum();
        run.space(&format!("same-shape-{n}"), total, "all pairs of (partial) locations of every shape");
        run.for_all(sh.len() as u64, |k| {
            let ts = labelled(&sh[k as usize], leaves, special);
            let rs: Vec<LocationTree> = ts.iter().map(|t| real(t, &mut |i| leaf(i))).collect();
            let ps: Vec<String> = rs.iter().map(|r| r.id.to_string()).collect();
            let ids: Vec<LocationID> = rs.iter().map(|r| r.id.clone()).collect();
            for (i, a) in ts.iter().enumerate() {
                let bad = |what: &str| run.violation(&format!("location {}", show(a)), what, json!({"kind": "location", "location": show(a)}));
                if ids[i].is_partial_location() != partial(a) {
                    bad("reported partial wrongly");
                }
                if rs[i].is_initial() != initial(a) || rs[i].is_universal() != (*a == T::Universal) || rs[i].is_inconsistent() != (*a == T::Error) {
                    bad("wrong kind");
                }
                if let T::Node(_, l, r) = a {
                    if *rs[i].get_left() != real(l, &mut |i| leaf(i)) || *rs[i].get_right() != real(r, &mut |i| leaf(i)) {
                        bad("wrong parts");
                    }
                }
                for (j, b) in ts.iter().enumerate() {
                    let (same, m) = (a == b, matches(a, b));
                    let got = (ids[i] == ids[j], rs[i] == rs[j], ps[i] == ps[j], rs[i].compare_partial_locations(&rs[j]), rs[j].compare_partial_locations(&rs[i]));
                    if got != (same, same, same, m, m) {
                        run.violation(
                            &format!("locations {} and {}", show(a), show(b)),
                            &format!("(ids equal, equal, print equally, match, match reversed) is {got:?}, expected {:?}", (same, same, same, m, m)),
                            json!({"kind": "location", "left": show(a), "right": show(b)}),
                        );
                    }
                }
                run.states(ts.len() as u64);
                run.trans(ts.len() as u64 * 5);
            }
            run.trace("pairs of one shape");
        });
    }
    // different shapes never match and are never equal
    let all: Vec<T> = (1..=3).flat_map(shapes).flat_map(|s| labelled(&s, &[T::Loc(0), T::Loc(1), T::Any], true)).collect();
    let four: Vec<T> = shapes(4).iter().flat_map(|s| labelled(s, &[T::Loc(0), T::Any], false)).collect();
    let all: Vec<T> = all.into_iter().chain(if run.quick() { vec![] } else { four }).collect();
    run.space("any-shape", (all.len() * all.len()) as u64, "all pairs of (partial) locations of any shapes");
    let rs: Vec<LocationTree> = all.iter().map(|t| real(t, &mut |i| leaf(i))).collect();
    run.for_all(all.len() as u64, |k| {
        let a = &all[k as usize];
        for (j, b) in all.iter().enumerate() {
            let (same, m) = (a == b, matches(a, b));
            let got = (rs[k as usize] == rs[j], rs[k as usize].compare_partial_locations(&rs[j]));
            if got != (same, m) {
                run.violation(
                    &format!("locations {} and {}", show(a), show(b)),
                    &format!("(equal, match) is {got:?}, expected {:?}", (same, m)),
                    json!({"kind": "location", "left": show(a), "right": show(b)}),
                );
            }
        }
        run.states(all.len() as u64);
        run.trace("pairs of any shape");
    });
    // invariants of composed locations
    let y = |o, k| F::C(1, o, k);
    let invs = [
        F::T, c(0, Op::Le, 1), c(0, Op::Gt, 1), y(Op::Lt, 2), F::D(0, 1, Op::Le, 0), F::D(1, 0, Op::Lt, 1),
        F::Or(Box::new(c(0, Op::Lt, 1)), Box::new(y(Op::Gt, 1))), F::Or(Box::new(c(0, Op::Eq, 0)), Box::new(c(0, Op::Ge, 2))), y(Op::Lt, 0),
    ];
    let with = comp(&invs);
    let at = |i: usize| LocationTree::simple(&with.locations[i], &with.declarations, DIM);
    let pts = grid(2, 3, 4);
    for n in 1..=(if run.quick() { 3 } else { 4 }) {
        let sh = shapes(n);
        let m = invs.len() as u64;
        let total = sh.len() as u64 * m.pow(n as u32);
        run.space(&format!("invariants-{n}"), total, "conjunctions, compositions and quotients of locations with invariants");
        run.for_all(total, |k| {
            let mut d = Dig(k);
            let s = d.of(&sh);
            let pick: Vec<usize> = (0..n).map(|_| d.pick(invs.len())).collect();
            fn fill(s: &Shape, p: &mut std::slice::Iter<usize>) -> T {
                match s {
                    Shape::Leaf => T::Loc(*p.next().unwrap()),
                    Shape::Node(o, a, b) => T::Node(*o, Box::new(fill(a, p)), Box::new(fill(b, p))),
                }
            }
            fn inv(t: &T, invs: &[F]) -> F {
                match t {
                    T::Loc(i) => invs[*i].clone(),
                    T::Node(2, ..) => F::T,
                    T::Node(_, a, b) => and(inv(a, invs), inv(b, invs)),
                    _ => F::T,
                }
            }
            let t = fill(s, &mut pick.iter());
            let r = real(&t, &mut |i| at(i));
            let f = inv(&t, &invs);
            let fed = r.apply_invariants(edbm::zones::OwnedFederation::universe(DIM)).minimal_constraints();
            let own = r.get_invariants().map(|f| f.minimal_constraints());
            for v in &pts {
                let inside = |d: &edbm::util::constraints::Disjunction| {
                    let at = |i: usize| if i == 0 { 0 } else { v[i - 1] };
                    d.conjunctions.iter().any(|c| {
                        c.constraints.iter().all(|c| {
                            let d = at(c.i) - at(c.j);
                            match c.ineq() {
                                edbm::util::constraints::Inequality::LS(b) => d < b as i64 * SCALE,
                                edbm::util::constraints::Inequality::LE(b) => d <= b as i64 * SCALE,
                            }
                        })
                    })
                };
                let want = holds(&f, v);
                if inside(&fed) != want || own.as_ref().map_or(true, inside) != want {
                    run.violation(
                        &format!("invariant of {} with {:?}", show(&t), pick),
                        &format!("at x={}/{SCALE} y={}/{SCALE}: expected {want}", v[0], v[1]),
                        json!({"kind": "location", "location": show(&t)}),
                    );
                    break;
                }
            }
            run.states(pts.len() as u64);
            run.trace("invariant");
        });
    }
    // kinds of component locations
    for (k, kind) in [LocationType::Normal, LocationType::Initial, LocationType::Universal, LocationType::Inconsistent].into_iter().enumerate() {
        let mut l = plain.locations[1].clone();
        l.location_type = kind;
        let t = LocationTree::simple(&l, &plain.declarations, DIM);
        if (t.is_initial(), t.is_universal(), t.is_inconsistent()) != (k == 1, k == 2, k == 3) {
            run.violation(&format!("kind {kind:?}"), "reported wrongly", json!({"kind": "location"}));
        }
        run.trace("kind");
    }
    run.finish()
}
