//! Walks the simulation service over a system and compares every answer with the reference.
use crate::model::*;
use crate::region::*;
use crate::report::*;
use crate::sem::*;
use crate::driver::*;
use crate::wire::*;
use reveaal::DataReader::component_loader::ModelCache;
use reveaal::ProtobufServer::services::{
    self, component::Rep, ComponentsInfo, SimulationInfo, SimulationStartRequest, SimulationStepRequest, SimulationStepResponse,
};
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex, OnceLock};

static UNIV: OnceLock<Mutex<HashMap<(usize, i32), Arc<Vec<Reg>>>>> = OnceLock::new();

pub fn univ(n: usize, m: i32) -> Arc<Vec<Reg>> {
    let t = UNIV.get_or_init(Default::default);
    if let Some(u) = t.lock().unwrap().get(&(n, m)) {
        return u.clone();
    }
    let u = Arc::new(universe(n, m));
    t.lock().unwrap().insert((n, m), u.clone());
    u
}

pub fn info(jsons: &[String], composition: &str) -> SimulationInfo {
    SimulationInfo {
        component_composition: composition.into(),
        components_info: Some(ComponentsInfo {
            components: jsons.iter().map(|j| services::Component { rep: Some(Rep::Json(j.clone())) }).collect(),
            components_hash: 0,
        }),
        user_id: 1,
    }
}

pub type Resp = Result<SimulationStepResponse, String>;

pub fn start(i: &SimulationInfo) -> Resp {
    match guarded(|| {
        ConcreteEcdarBackend::handle_start_simulation(SimulationStartRequest { simulation_info: Some(i.clone()) }, ModelCache::new(2))
    }) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(s)) => Err(format!("status: {s:?}")),
        Ok(Ok(r)) => Ok(r),
    }
}
pub fn step(i: &SimulationInfo, d: &services::Decision) -> Resp {
    match guarded(|| {
        ConcreteEcdarBackend::handle_take_simulation_step(
            SimulationStepRequest { simulation_info: Some(i.clone()), chosen_decision: Some(d.clone()) },
            ModelCache::new(2),
        )
    }) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(s)) => Err(format!("status: {s:?}")),
        Ok(Ok(r)) => Ok(r),
    }
}

fn special(l: &L) -> bool {
    match l {
        L::Univ | L::Err => true,
        L::P(a, b) => special(a) || special(b),
        _ => false,
    }
}

/// Key of a group of decisions: action, destination, edges (edges are left out for the rules of a
/// quotient that involve no move of its own).
type Key = (String, L, Option<Vec<(usize, String)>>);

fn key(act: &str, dst: &L, edges: &[(usize, String)]) -> Key {
    (act.to_string(), dst.clone(), if special(dst) { None } else { Some(edges.to_vec()) })
}

/// Compares the decisions offered in a state with those of the reference. `st` is what the wire says.
fn compare(run: &Run, ts: &Ts, nm: &Names, n: usize, st: &(L, F), decs: &[Dec]) -> Result<(), String> {
    let mut m = ts.max_const().max(st.1.max_const());
    for d in decs {
        m = m.max(d.src.1.max_const()).max(d.dst.1.max_const());
    }
    let _ = nm;
    // regions are compared for the bound m; the step is computed on finer ones, where a constant that is
    // assigned does not make a truncated gap ambiguous
    let u = univ(n, m);
    let top = ts.max_assigned();
    let b = Bound { m: m + top, diag: true };
    let fine = univ(n, b.m);
    let here: Vec<Reg> = fine.iter().filter(|r| r.eval(&st.1)).cloned().collect();
    run.states(here.len() as u64);
    let mut want: BTreeMap<Key, (usize, HashSet<Reg>, HashSet<Reg>)> = BTreeMap::new();
    for act in ts.actions() {
        for t in ts.trans(&st.0, &act) {
            let src: HashSet<Reg> = here.iter().filter(|r| r.eval(&t.guard)).cloned().collect();
            if src.is_empty() {
                continue;
            }
            run.trans(1);
            let post: HashSet<Reg> = src.iter().map(|r| r.assign(&t.resets, b)).collect();
            let dst = delayed(ts, &t.dst, &post, b);
            let e = want.entry(key(&act, &t.dst, &t.edges)).or_default();
            e.0 += 1;
            e.1.extend(src);
            e.2.extend(dst);
        }
    }
    let mut got: BTreeMap<Key, Vec<&Dec>> = BTreeMap::new();
    for d in decs {
        if d.src.0 != st.0 {
            return Err(format!("a decision on {} starts in another location", d.act));
        }
        got.entry(key(&d.act, &d.dst.0, &d.edges)).or_default().push(d);
    }
    for k in want.keys() {
        if !got.contains_key(k) {
            return Err(format!("no decision for {k:?}"));
        }
    }
    for (k, ds) in &got {
        let Some((count, src, dst)) = want.get(k) else { return Err(format!("decision for {k:?}, which is not possible")) };
        if k.2.as_ref().map(|e| !e.is_empty()).unwrap_or(false) && ds.len() != *count {
            return Err(format!("{} decisions instead of {count} for {k:?}", ds.len()));
        }
        for r in u.iter() {
            if ds.iter().any(|d| r.eval(&d.src.1)) != src.contains(r) {
                return Err(format!("source zone of {k:?} is wrong at {}", r.show()));
            }
            if ds.iter().any(|d| r.eval(&d.dst.1)) != dst.contains(r) {
                return Err(format!("destination zone of {k:?} is wrong at {}", r.show()));
            }
        }
    }
    Ok(())
}

/// Walks the simulation of `e` through every decision up to a depth and compares every answer.
pub fn walk(run: &Run, space: &str, k: u64, e: &Expr, depth: usize, tagged: bool) {
    let Some((ts, n)) = Ts::of_shared(e) else { return };
    let nm = names(&ts);
    let mut comps = vec![];
    e.comps(&mut comps);
    let mut jsons: Vec<String> = comps.iter().map(|c| c.json()).collect();
    jsons.dedup();
    let shown: Vec<String> = comps.iter().map(|c| c.show()).collect();
    let mut text = e.text();
    if tagged {
        // give every instance a tag
        let mut i = 0;
        for c in &comps {
            let at = text.match_indices(&c.name).map(|x| x.0).nth(i).unwrap();
            i += 1;
            text = format!("{}[{i}]{}", &text[..at + c.name.len()], &text[at + c.name.len()..]);
        }
    }
    let inf = info(&jsons, &text);
    if k % 2003 == 0 {
        run.sample(json!({"space": space, "system": text, "models": shown, "depth": depth}));
    }
    let fail = |path: &[String], why: String| {
        run.violation(
            &format!("{space} | {text} | {} | after <{}>", shown.join(" | "), path.join(" ")),
            &why,
            json!({"kind": "simulation", "components": jsons, "composition": text, "models": shown, "decisions": path, "observed": why}),
        );
    };
    let b = Bound { m: ts.max_const(), diag: true };
    let init_ok = Reg::zero(n).eval(&ts.inv(&ts.init().unwrap()));
    if !init_ok {
        return;
    }
    // conjunctions without consistent behaviour are refused
    let first = match start(&inf) {
        Ok(r) => r,
        Err(p) if matches!(e, Expr::Conj(..)) && p.contains("InconsistentConjunction") | p.contains("Inconsistent(") => {
            run.trace("refused-conjunction");
            return;
        }
        Err(p) => return fail(&[], format!("starting the simulation: {p}")),
    };
    let st = match nm.state(&ts, &first.full_state) {
        Ok(s) => s,
        Err(w) => return fail(&[], w),
    };
    if st.0 != ts.init().unwrap() {
        return fail(&[], "the simulation does not start in the initial location".into());
    }
    let want = delayed(&ts, &st.0, &HashSet::from([Reg::zero(n).canon(b)]), Bound { m: b.m.max(st.1.max_const()), diag: true });
    for r in univ(n, b.m.max(st.1.max_const())).iter() {
        if r.eval(&st.1) != want.contains(r) {
            return fail(&[], format!("initial zone is wrong at {}", r.show()));
        }
    }
    let mut seen: HashSet<(L, F)> = HashSet::from([st.clone()]);
    let mut front = vec![(st, first.new_decision_points, Vec::<String>::new())];
    for level in 0..=depth {
        let mut next = vec![];
        for (st, wire, path) in &front {
            let decs: Vec<Dec> = match wire.iter().map(|d| decision(&nm, &ts, d)).collect::<Result<_, _>>() {
                Ok(d) => d,
                Err(w) => return fail(path, w),
            };
            if let Err(w) = compare(run, &ts, &nm, n, st, &decs) {
                return fail(path, w);
            }
            run.trace("state-compared");
            if level == depth {
                continue;
            }
            for (d, w) in decs.iter().zip(wire) {
                let mut path = path.clone();
                path.push(format!("{}{:?}", d.act, d.edges.iter().map(|e| format!("{}.{}", e.0, e.1)).collect::<Vec<_>>()));
                if seen.contains(&d.dst) && k % 7 != 0 {
                    continue;
                }
                let r = match step(&inf, w) {
                    Ok(r) => r,
                    Err(p) => return fail(&path, format!("taking an offered decision: {p}")),
                };
                run.trace("step-taken");
                match nm.state(&ts, &r.full_state) {
                    Err(w) => return fail(&path, w),
                    Ok(s) if s != d.dst => return fail(&path, "the state after the step is not the destination of the decision".into()),
                    Ok(s) => {
                        if seen.insert(s.clone()) {
                            next.push((s, r.new_decision_points, path));
                        } else {
                            // the same state offers the same decisions, however it was reached
                            let decs: Vec<Dec> = match r.new_decision_points.iter().map(|d| decision(&nm, &ts, d)).collect::<Result<_, _>>() {
                                Ok(d) => d,
                                Err(w) => return fail(&path, w),
                            };
                            if let Err(w) = compare(run, &ts, &nm, n, &s, &decs) {
                                return fail(&path, w);
                            }
                        }
                    }
                }
            }
        }
        front = next;
    }
}
