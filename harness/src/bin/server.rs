//! V01 answers independent of history, V02 model cache under histories and interleavings, V03 user tokens.
use futures::executor::block_on;
use mc::model::*;
use mc::report::*;
use mc::sched;
use reveaal::DataReader::component_loader::ModelCache;

use reveaal::ProtobufServer::services::{
    self, component::Rep, ecdar_backend_server::EcdarBackend, query_request::Settings, ComponentsInfo, QueryRequest, SimulationInfo,
    SimulationStartRequest, SimulationStepRequest, SimulationStepResponse,
};
use reveaal::ModelObjects::Declarations;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use tonic::{Request, Response, Status};

// ---------------------------------------------------------------- requests

/// What a client can ask.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum What {
    Component,
    Refinement,
    Reduced,
    ComponentReduced,
    Consistency,
    Determinism,
    Reach,
    Start,
    Step,
    // requests that fail
    Unknown,
    Garbled,
    TwoQueries,
    NoComponents,
    NoDecision,
    WrongDecision,
    StartUnknown,
    Clash,
}
use What::*;
const KINDS: [What; 17] = [
    Component, Refinement, Reduced, ComponentReduced, Consistency, Determinism, Reach, Start, Step, Unknown, Garbled, TwoQueries, NoComponents,
    NoDecision, WrongDecision, StartUnknown, Clash,
];

/// One request: who, which model, under which hash, asking what. `bare` leaves the components out and
/// relies on the cache.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Rq {
    user: i32,
    set: usize,
    hash: u32,
    kind: What,
    bare: bool,
}

/// Users and hashes that agree in most of their bits.
const USERS: [i32; 4] = [1, 257, 65537, -1];
fn hash(set: usize) -> u32 {
    [7, 7 + (1 << 16), 7 + (1 << 31), 8][set]
}

/// The models clients send. They share every name and differ in behaviour; the third has a part that is no
/// JSON, the fourth an invariant that cannot be read.
fn set(k: usize) -> Vec<String> {
    let lim = [2, 5, 3, 4][k];
    let mut a = Comp::new("A", 2); // the second clock is never read, so settings show in the component asked for
    let l0 = a.loc(c(0, Op::Le, lim));
    let l1 = a.loc(F::T);
    a.edge(l0, "i?", F::T, &[], l0);
    a.edge(l0, "o!", c(0, Op::Ge, lim - 1), &[(0, 0)], l1);
    a.edge(l1, "i?", F::T, &[], l1);
    a.edge(l1, "o!", c(0, Op::Ge, lim + 1), &[(0, 0)], if k == 1 { l0 } else { l1 });
    let mut b = Comp::new("B", 1);
    let m0 = b.loc(c(0, Op::Le, 3));
    b.edge(m0, "i?", F::T, &[], m0);
    b.edge(m0, "o!", F::T, &[(0, 0)], m0);
    let (mut a, mut b) = (a.json(), b.json());
    if k == 2 {
        b = b[..b.len() / 2].to_string();
        a = format!("{a} ");
    }
    if k == 3 {
        b = b.replace("x<=3", "x<=");
    }
    vec![a, b]
}

struct World {
    sets: Vec<Vec<String>>,
    /// first decision of A in each set
    decs: Vec<services::Decision>,
}

fn infos(w: &World, r: &Rq) -> Option<ComponentsInfo> {
    (r.kind != NoComponents).then(|| ComponentsInfo {
        components: if r.bare { vec![] } else { w.sets[r.set].iter().map(|j| services::Component { rep: Some(Rep::Json(j.clone())) }).collect() },
        components_hash: r.hash,
    })
}

fn canon_step(r: Result<Response<SimulationStepResponse>, Status>) -> String {
    match r {
        Err(s) => format!("{s:?}"),
        Ok(r) => {
            let r = r.into_inner();
            let mut d: Vec<String> = r.new_decision_points.iter().map(|d| format!("{d:?}")).collect();
            d.sort();
            format!("{:?} {d:?}", r.full_state)
        }
    }
}

/// Sends a request to a server and puts its whole answer into a comparable form.
fn send(w: &World, srv: &ConcreteEcdarBackend, r: &Rq) -> String {
    let info = |composition: &str| SimulationInfo { component_composition: composition.into(), components_info: infos(w, r), user_id: r.user };
    match r.kind {
        Start => canon_step(block_on(srv.start_simulation(Request::new(SimulationStartRequest { simulation_info: Some(info("A")) })))),
        StartUnknown => canon_step(block_on(srv.start_simulation(Request::new(SimulationStartRequest { simulation_info: Some(info("A || C")) })))),
        Step | NoDecision | WrongDecision => {
            let mut d = (r.kind != NoDecision).then(|| w.decs[r.set].clone());
            if r.kind == WrongDecision {
                let d = d.as_mut().unwrap();
                d.action = "nosuch".into();
                d.edges.clear();
            }
            canon_step(block_on(srv.take_simulation_step(Request::new(SimulationStepRequest { simulation_info: Some(info("A")), chosen_decision: d }))))
        }
        _ => {
            let query = match r.kind {
                Component | ComponentReduced | NoComponents => "get-component: A save-as Z",
                Refinement | Reduced => "refinement: A <= B",
                Consistency => "consistency: A",
                Determinism => "determinism: A",
                Reach => "reachability: A @ init -> A.L1",
                Unknown => "refinement: A <= C",
                Garbled => "refinement: A <=",
                TwoQueries => "consistency: A; consistency: B",
                Clash => "consistency: A || A",
                _ => unreachable!(),
            };
            let req = QueryRequest {
                user_id: r.user,
                query_id: 10 + r.set as i32,
                query: query.into(),
                components_info: infos(w, r),
                settings: Some(Settings { disable_clock_reduction: !matches!(r.kind, Reduced | ComponentReduced) }),
                ..Default::default()
            };
            match block_on(srv.send_query(Request::new(req))) {
                Err(s) => format!("{s:?}"),
                Ok(r) => {
                    let mut r = r.into_inner();
                    if let Some(services::query_response::Result::Component(c)) = &mut r.result {
                        if let Some(Rep::Json(j)) = &mut c.rep {
                            *j = without_layout(j);
                        }
                    }
                    format!("{r:?}")
                }
            }
        }
    }
}

/// A component's text without where things are drawn.
fn without_layout(j: &str) -> String {
    let Ok(v) = serde_json::from_str::<serde_json::Value>(j) else { return format!("unreadable {j}") };
    let keep = |v: &serde_json::Value, keys: &[&str]| json!(keys.iter().map(|k| v[*k].clone()).collect::<Vec<_>>());
    let each = |v: &serde_json::Value, keys: &[&str]| json!(v.as_array().map(|a| a.iter().map(|x| keep(x, keys)).collect::<Vec<_>>()));
    let mut names: Vec<&str> = v["declarations"].as_str().unwrap_or("").split(|c: char| !c.is_alphanumeric() && c != '_').filter(|n| !n.is_empty()).collect();
    names.sort();
    json!([
        keep(&v, &["name"]),
        names,
        each(&v["locations"], &["id", "invariant", "type", "urgency", "nickname"]),
        each(&v["edges"], &["id", "sourceLocation", "targetLocation", "status", "guard", "update", "sync"]),
    ])
    .to_string()
}

fn failed(kind: What, answer: &str) -> bool {
    kind >= Unknown && answer.starts_with("Status {")
}

fn world() -> World {
    let sets: Vec<_> = (0..4).map(set).collect();
    let mut w = World { decs: vec![], sets };
    for k in 0..4 {
        let srv = ConcreteEcdarBackend::new(1, 1);
        let r = Rq { user: 1, set: k % 3, hash: 0, kind: Start, bare: false };
        let i = SimulationInfo { component_composition: "A".into(), components_info: infos(&w, &r), user_id: 1 };
        let a = block_on(srv.start_simulation(Request::new(SimulationStartRequest { simulation_info: Some(i) }))).expect("start").into_inner();
        let d = a.new_decision_points.into_iter().find(|d| d.action == "o").expect("a decision on o");
        w.decs.push(d);
    }
    w
}

/// A request to a server that has just been started.
fn fresh_answer(w: &World, r: &Rq, seed: u64) -> String {
    with_hash_seed(seed, || send(w, &ConcreteEcdarBackend::new(1, 4), r))
}

fn replay_json(seq: &[Rq], cap: usize, at: usize, want: &str, got: &str) -> serde_json::Value {
    json!({"kind": "server", "capacity": cap, "requests": seq.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>(), "failing_position": at,
        "expected": want, "observed": got})
}

fn case_key(cap: usize, seq: &[Rq]) -> String {
    let s: Vec<String> = seq.iter().map(|r| format!("u{}s{}h{}{:?}{}", r.user, r.set, r.hash, r.kind, if r.bare { "-bare" } else { "" })).collect();
    format!("cap={cap} {}", s.join(","))
}

/// The reference cache: who is kept, most recent last. `touch` is whether a lookup under another hash counts as use.
#[derive(Clone, Default)]
struct Lru<T: Clone> {
    cap: usize,
    touch: bool,
    v: Vec<(i32, u32, T)>,
}
impl<T: Clone> Lru<T> {
    fn get(&mut self, user: i32, hash: u32) -> Option<T> {
        if hash == 0 {
            return None;
        }
        let i = self.v.iter().position(|e| e.0 == user)?;
        let hit = self.v[i].1 == hash;
        if hit || self.touch {
            let e = self.v.remove(i);
            self.v.push(e);
        }
        hit.then(|| self.v.last().unwrap().2.clone())
    }
    fn put(&mut self, user: i32, hash: u32, t: T) {
        if hash == 0 {
            return;
        }
        self.v.retain(|e| e.0 != user);
        self.v.push((user, hash, t));
        if self.v.len() > self.cap {
            self.v.remove(0);
        }
    }
}

// ---------------------------------------------------------------- V01

fn v01(run: &Run) {
    let w = world();
    // every request on its own, on a fresh server, under several hash orders: the specification
    let honest: Vec<Rq> = (0..2)
        .flat_map(|u| (0..4).flat_map(move |s| [0u32, hash(s)].into_iter().flat_map(move |h| KINDS.into_iter().map(move |k| Rq { user: USERS[u], set: s, hash: h, kind: k, bare: false }))))
        .collect();
    let mut spec: HashMap<Rq, String> = HashMap::new();
    for r in &honest {
        let a = fresh_answer(&w, r, 1);
        for seed in 2..4 {
            let b = fresh_answer(&w, r, seed);
            if a != b {
                run.violation(&format!("fresh {r:?}"), "two fresh servers answer the same request differently", replay_json(&[*r], 4, 0, &a, &b));
            }
        }
        if r.kind >= Unknown && r.kind != Clash && !a.starts_with("Status {") {
            run.violation(&format!("fresh {r:?}"), "a malformed request is not answered with an error status", replay_json(&[*r], 4, 0, "an error status", &a));
        }
        // answers to questions say which question they answer
        if !a.starts_with("Status {") && !matches!(r.kind, Start | Step) && !a.contains(&format!("query_id: {},", 10 + r.set)) {
            run.violation(&format!("fresh {r:?}"), "the answer does not carry the number of the question", replay_json(&[*r], 4, 0, &format!("query_id: {}", 10 + r.set), &a));
        }
        if (r.kind < Unknown || r.kind == Clash) && r.set < 2 && a.starts_with("Status {") {
            run.violation(&format!("fresh {r:?}"), "a well-formed request is answered with an error status", replay_json(&[*r], 4, 0, "an answer", &a));
        }
        run.states(1);
        run.note(if a.starts_with("Status {") { "fresh/status" } else { "fresh/answer" });
        spec.insert(*r, a);
    }
    // the answers tell the models apart, or the check would be blind
    for k in [Component, Refinement, Reach, Start, Step] {
        let a: BTreeSet<String> =
            (0..2).map(|s| spec[&Rq { user: 1, set: s, hash: 0, kind: k, bare: false }].replace(&format!("query_id: {}", 10 + s), "")).collect();
        if a.len() < 2 {
            run.broken(&format!("{k:?} does not tell the models apart"));
        }
    }
    let (full, reduced) = (Rq { user: 1, set: 0, hash: 0, kind: Component, bare: false }, Rq { user: 1, set: 0, hash: 0, kind: ComponentReduced, bare: false });
    if spec[&full] == spec[&reduced] {
        run.note("settings do not show in any answer");
    }
    let go = |cap: usize, seq: &[Rq]| {
        let srv = ConcreteEcdarBackend::new(1, cap);
        for (i, r) in seq.iter().enumerate() {
            let got = send(&w, &srv, r);
            run.trans(1);
            let want = &spec[r];
            if &got != want {
                run.violation(&case_key(cap, &seq[..=i]), &format!("request {} of the sequence is answered differently than by a fresh server", i + 1), replay_json(seq, cap, i, want, &got));
                return;
            }
            if i + 1 == seq.len() {
                run.trace(if failed(r.kind, &got) { "same failure" } else { "same answer" });
            }
        }
    };
    // 1: all sequences of two, capacities 1 and 2
    let n = honest.len() as u64;
    for cap in 1..3 {
        run.space(&format!("pairs/{cap}"), n * n, "all sequences of two of all requests (2 users, 4 models, with and without hash, 17 kinds)");
        run.for_all(n * n, |i| go(cap, &[honest[(i / n) as usize], honest[(i % n) as usize]]));
    }
    // 2: longer ones over the kinds that store, read, fail early and fail late
    let few: Vec<Rq> = honest
        .iter()
        .filter(|r| {
            (r.set < 2 || r.user == 1 && (r.set == 3 || !run.quick()))
                && if run.quick() {
                    matches!(r.kind, Component | Reduced | Start | Unknown) && (r.hash != 0 || r.kind == Component)
                } else {
                    matches!(r.kind, Component | Reduced | Start | Step | Unknown | NoDecision | NoComponents)
                }
        })
        .copied()
        .collect();
    let n = few.len() as u64;
    run.space("triples", n * n * n, "all sequences of three over the kinds that store, read, fail early and fail late; capacity 1");
    run.for_all(n * n * n, |i| go(1, &[few[(i / n / n) as usize], few[(i / n % n) as usize], few[(i % n) as usize]]));
    let tiny: Vec<Rq> = few.iter().filter(|r| r.hash != 0 && (matches!(r.kind, Component | Unknown) || (!run.quick() && r.kind == Start))).copied().collect();
    let n = tiny.len() as u64;
    let len = if run.quick() { 4 } else { 5 };
    run.space("longer", n.pow(len), "all sequences of four (thorough: five) of cached component and failing requests; capacity 2");
    run.for_all(n.pow(len), |i| {
        let seq: Vec<Rq> = (0..len).map(|k| tiny[(i / n.pow(k) % n) as usize]).collect();
        go(2, &seq)
    });
}

// ---------------------------------------------------------------- V02

/// A model that can be told from others by the name of its only component.
fn tagged(tag: usize) -> Arc<HashMap<String, reveaal::ModelObjects::Component>> {
    let name = format!("T{tag}");
    let c = reveaal::ModelObjects::Component { name: name.clone(), declarations: Declarations::empty(), locations: vec![], edges: vec![], special_id: None };
    Arc::new(HashMap::from([(name, c)]))
}

fn tag_of(c: &reveaal::DataReader::component_loader::ComponentContainer) -> usize {
    let n: Vec<_> = c.loaded_components.keys().collect();
    if n.len() == 1 { n[0][1..].parse().unwrap_or(999) } else { 999 }
}

fn v02(run: &Run) {
    // 1: the cache itself, all sequences of operations
    // operation: user 0..3, hash 0..3, get or put
    for cap in 1..=3usize {
        for users in 2..=3usize {
            let ops = (users * 3 * 2) as u64;
            let len = if run.quick() { if users == 2 { 6 } else { 5 } } else { if users == 2 { 7 } else { 6 } };
            if users == 2 && cap == 3 {
                continue;
            }
            // the last operation is a lookup: the first len-1 are free
            let n = ops.pow(len - 1);
            run.space(&format!("cache/{cap}/{users}"), n, "all operation sequences on the model cache (look up or store, by user and hash incl. 0), then every lookup");
            run.for_all(n, |i| {
                let mut real = ModelCache::new(cap);
                let mut refs = [true, false].map(|touch| Lru { cap, touch, v: vec![] });
                let mut last: BTreeMap<i32, (u32, usize)> = BTreeMap::new();
                let mut shown = vec![];
                let bad = |what: &str, shown: &[String]| {
                    run.violation(&format!("cap={cap} {}", shown.join(" ")), what, json!({"kind": "cache operations", "capacity": cap, "operations": shown}));
                };
                let check_get = |real: &ModelCache, refs: &mut [Lru<usize>; 2], last: &BTreeMap<i32, (u32, usize)>, u: i32, h: u32| -> Option<String> {
                    let got = real.get_model(u, h).map(|c| tag_of(&c));
                    let want = [refs[0].get(u, h), refs[1].get(u, h)];
                    run.trans(1);
                    if let Some(t) = got {
                        if h == 0 {
                            return Some("a model is found under hash 0".into());
                        }
                        if last.get(&u) != Some(&(h, t)) {
                            return Some(format!("the lookup gives model {t}, but the last stored for user {u} is {:?}", last.get(&u)));
                        }
                    }
                    if want[0] == want[1] && got != want[0] {
                        return Some(format!("the lookup gives {got:?}, the reference {:?}", want[0]));
                    }
                    None
                };
                for k in 0..len - 1 {
                    let o = i / ops.pow(k) % ops;
                    let (u, h, put) = (USERS[(o / 6) as usize], if o / 2 % 3 == 0 { 0 } else { hash((o / 2 % 3) as usize - 1) }, o % 2 == 1);
                    shown.push(format!("{}({u},{h})", if put { "put" } else { "get" }));
                    if put {
                        let tag = 10 + k as usize;
                        let c = real.insert_model(u, h, tagged(tag));
                        if tag_of(&c) != tag {
                            return bad("storing returns another model than the one stored", &shown);
                        }
                        for r in &mut refs {
                            r.put(u, h, tag);
                        }
                        if h != 0 {
                            last.insert(u, (h, tag));
                        }
                    } else if let Some(e) = check_get(&real, &mut refs, &last, u, h) {
                        return bad(&e, &shown);
                    }
                }
                run.states(1);
                // every last lookup; each leaves the cache as the previous left it, so order by recency does
                // not matter for what is found
                for u in USERS.into_iter().take(users) {
                    for h in [0, hash(0), hash(1)] {
                        if let Some(e) = check_get(&real, &mut refs, &last, u, h) {
                            shown.push(format!("get({u},{h})"));
                            return bad(&e, &shown);
                        }
                    }
                }
                run.trace("cache history");
            });
        }
    }
    // who and what, bit by bit: one thing is stored, then another, and each is looked up under both names
    let us: Vec<i32> = (0..32).map(|b| 1 << b).chain((2..32).map(|b| 3 ^ 1 << b)).chain([0, -1, i32::MAX, 3]).collect();
    let hs: Vec<u32> = (0..32).map(|b| 1 << b).chain((2..32).map(|b| 3 ^ 1 << b)).chain([u32::MAX, 3]).collect();
    let m = (us.len() * hs.len()) as u64;
    run.space("identities", m * m, "two models stored under any two of 66 users and 64 hashes, each looked up in between and after");
    run.for_all(m * m, |i| {
        let id = |i: u64| (us[i as usize % us.len()], hs[i as usize / us.len()]);
        let (p, q) = (id(i / m), id(i % m));
        let mut real = ModelCache::new(4);
        let get = |real: &ModelCache, (u, h): (i32, u32)| real.get_model(u, h).map(|c| tag_of(&c));
        real.insert_model(p.0, p.1, tagged(1));
        let one = [get(&real, p), get(&real, q)];
        real.insert_model(q.0, q.1, tagged(2));
        let two = [get(&real, p), get(&real, q)];
        let want1 = [Some(1), if p == q { Some(1) } else { None }];
        let want2 = [if p == q { Some(2) } else if p.0 == q.0 { None } else { Some(1) }, Some(2)];
        run.trans(4);
        if one != want1 || two != want2 {
            run.violation(&format!("identities {p:?} {q:?}"), &format!("found {one:?} then {two:?} instead of {want1:?} then {want2:?}"), json!({"kind": "cache operations", "capacity": 4, "operations": [format!("put{p:?}"), format!("get{q:?}"), format!("put{q:?}"), format!("get{p:?}")]}));
        }
    });
    // room for as many users as the cache was made for
    let caps: Vec<usize> = (1..=12).chain([50, 100]).collect();
    let n = caps.len() as u64 * 24;
    run.space("capacity", n, "cap+1 users stored in a cache of 1..12, 50, 100 (the default cache): the first is gone, or the one not looked up");
    run.for_all(n, |i| {
        let cap = caps[(i / 24) as usize];
        let touched = (i % 24) as usize % cap; // looked up before the last is stored
        let mut real = if cap == 100 { ModelCache::default() } else { ModelCache::new(cap) };
        for u in 0..cap {
            real.insert_model(u as i32 - 3, 9, tagged(u));
        }
        let hit = real.get_model(touched as i32 - 3, 9).map(|c| tag_of(&c));
        real.insert_model(cap as i32 - 3, 9, tagged(cap));
        let gone = if cap == 1 { 0 } else if touched == 0 { 1 } else { 0 };
        let found: Vec<usize> = (0..=cap).filter(|u| real.get_model(*u as i32 - 3, 9).map(|c| tag_of(&c)) == Some(*u)).collect();
        let want: Vec<usize> = (0..=cap).filter(|u| *u != gone).collect();
        run.trans(2 * cap as u64);
        if hit != Some(touched) || found != want {
            run.violation(&format!("capacity {cap} touched {touched}"), &format!("kept {found:?} instead of {want:?}"), json!({"kind": "cache operations", "capacity": cap, "operations": ["put every user", "get one", "put another", "get all"], "touched": touched}));
        }
    });
    // 2: requests that leave the components out are answered from the cache exactly when the model is in it
    let w = world();
    let rq = |user, set: usize, bare| Rq { user, set, hash: hash(set), kind: Component, bare };
    let alphabet: Vec<Rq> = (0..3).flat_map(|u| (0..2).flat_map(move |s| [false, true].map(|b| rq(USERS[u], s, b)))).collect();
    let spec: HashMap<Rq, String> = alphabet.iter().map(|r| (*r, fresh_answer(&w, r, 1))).collect();
    let n = alphabet.len() as u64;
    let len = if run.quick() { 3 } else { 4 };
    for cap in 1..=2usize {
        run.space(&format!("requests/{cap}"), n.pow(len), "all sequences of component requests with and without the components, three users, two models");
        run.for_all(n.pow(len), |i| {
            let seq: Vec<Rq> = (0..len).map(|k| alphabet[(i / n.pow(k) % n) as usize]).collect();
            let srv = ConcreteEcdarBackend::new(1, cap);
            let mut refs = [true, false].map(|touch| Lru { cap, touch, v: vec![] });
            for (k, r) in seq.iter().enumerate() {
                let got = send(&w, &srv, r);
                run.trans(1);
                let mut missed = false;
                let want = refs.each_mut().map(|l| match l.get(r.user, r.hash) {
                    Some(_) => spec[&Rq { bare: false, ..*r }].clone(),
                    None => {
                        missed = true;
                        l.put(r.user, r.hash, ());
                        spec[r].clone()
                    }
                });
                if want[0] == want[1] && got != want[0] {
                    run.violation(&case_key(cap, &seq[..=k]), "the answer is not the one for the model last stored by that user under that hash", replay_json(&seq, cap, k, &want[0], &got));
                    return;
                }
                if missed && r.bare {
                    break; // what is kept after a request for a model that was never sent is nobody's business
                }
            }
            run.trace("request history");
        });
    }
    // 3: interleavings of clients on one server
    let programs: Vec<(&str, usize, Vec<Rq>, Vec<Vec<Rq>>)> = {
        let q = |user, set: usize, kind| Rq { user, set, hash: hash(set), kind, bare: false };
        let z = |user, set: usize, kind| Rq { user, set, hash: 0, kind, bare: false };
        let mut v = vec![
            ("two users, two models", 2, vec![], vec![vec![q(1, 0, Component), q(1, 1, Component)], vec![q(2, 1, Component), q(2, 0, Component)]]),
            ("two users, room for one", 1, vec![], vec![vec![q(1, 0, Component), q(1, 0, Refinement)], vec![q(2, 1, Component), q(2, 1, Refinement)]]),
            ("one user, two sessions", 2, vec![], vec![vec![q(1, 0, Component), q(1, 0, Start)], vec![q(1, 1, Start), q(1, 1, Component)]]),
            ("one user, same model", 1, vec![], vec![vec![q(1, 0, Component), q(1, 0, Component)], vec![q(1, 0, Reduced), q(1, 0, Component)]]),
            ("uncached beside cached", 1, vec![], vec![vec![z(1, 0, Component), q(1, 1, Component)], vec![q(1, 1, Component), z(1, 0, Refinement)]]),
            ("failing beside good", 2, vec![], vec![vec![q(1, 0, Unknown), q(1, 0, Component)], vec![q(1, 1, Component), q(1, 1, NoDecision)]]),
            ("three clients, one request each", 2, vec![], vec![vec![q(1, 0, Component)], vec![q(2, 1, Component)], vec![q(1, 1, Start)]]),
            (
                "stored before, read by all without components",
                2,
                vec![q(1, 0, Component), q(2, 1, Component)],
                vec![
                    vec![Rq { bare: true, ..q(1, 0, Component) }, Rq { bare: true, ..q(1, 0, Start) }],
                    vec![Rq { bare: true, ..q(2, 1, Component) }, q(2, 1, Component)],
                    vec![Rq { bare: true, ..q(1, 0, Component) }],
                ],
            ),
            ("three clients, room for two", 2, vec![], vec![vec![q(1, 0, Component)], vec![q(2, 1, Component)], vec![q(3, 0, Component), q(3, 1, Component)]]),
        ];
        if !run.quick() {
            v.push(("three clients, two requests each", 2, vec![], vec![
                vec![q(1, 0, Component), q(1, 1, Component)],
                vec![q(2, 1, Component), q(2, 0, Start)],
                vec![q(1, 1, Start), q(1, 0, Component)],
            ]));
            v.push(("four clients", 2, vec![], vec![vec![q(1, 0, Component)], vec![q(2, 1, Component)], vec![q(3, 0, Component)], vec![q(1, 1, Component)]]));
            v.push(("two clients, four requests each", 1, vec![], vec![
                vec![q(1, 0, Component), q(1, 1, Component), z(1, 0, Component), q(1, 0, Start)],
                vec![q(2, 1, Component), q(1, 0, Component), q(2, 0, Unknown), q(2, 1, Component)],
            ]));
        }
        v
    };
    let bound = if run.quick() { 3 } else { usize::MAX };
    run.put("preemption_bound", if run.quick() { json!(3) } else { json!("none") });
    let mut per = serde_json::Map::new();
    for (name, cap, before, clients) in &programs {
        let n = clients.len();
        let full = |r: &Rq| fresh_answer(&w, &Rq { bare: false, ..*r }, 1);
        let want: Vec<Vec<String>> = clients.iter().map(|c| c.iter().map(full).collect()).collect();
        let mut events = 0;
        let mut least = usize::MAX;
        let count = sched::explore(
            n,
            bound,
            || {
                let srv = ConcreteEcdarBackend::new(n, *cap);
                for r in before {
                    send(&w, &srv, r);
                }
                srv
            },
            |srv, c| clients[c].iter().map(|r| send(&w, srv, r)).collect::<Vec<String>>(),
            |_, out| {
                events += out.events;
                least = least.min(out.schedule.len());
                let fail = |what: String, want: &str, got: &str| {
                    let id: String = out.picks.iter().map(|p| p.to_string()).collect();
                    run.violation(&format!("{name}: schedule {id}"), &what, json!({"kind": "schedule", "program": name, "capacity": cap,
                        "clients": clients.iter().map(|c| c.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()).collect::<Vec<_>>(),
                        "baton": out.schedule, "picks": out.picks, "expected": want, "observed": got}));
                    false
                };
                if out.deadlock {
                    return fail("the clients block each other for ever".into(), "every request answered", "deadlock");
                }
                for (cl, r) in out.results.iter().enumerate() {
                    match r {
                        Err(e) => return fail(format!("client {cl} dies"), "every request answered", e),
                        Ok(a) => {
                            for (k, x) in a.iter().enumerate() {
                                run.trans(1);
                                if x != &want[cl][k] {
                                    return fail(format!("request {} of client {cl} is not answered from its own model", k + 1), &want[cl][k], x);
                                }
                            }
                        }
                    }
                }
                run.trace("schedule");
                true
            },
        );
        run.states(count);
        run.space(&format!("schedules/{name}"), count, "interleavings of the clients' accesses to shared state");
        if least < 2 * n - 1 {
            // the code does not announce its accesses any more: say so in the evidence
            run.note("few scheduling points");
        }
        per.insert(name.to_string(), json!({"schedules": count, "accesses": events, "shortest": least}));
        if run.stopped() {
            break;
        }
    }
    cache_schedules(run, &mut per);
    run.put("schedules", serde_json::Value::Object(per));
}

/// Operations of one client on a shared cache.
#[derive(Clone, Copy, Debug)]
enum CacheOp {
    Get(i32, u32),
    Put(i32, u32, usize),
}
use CacheOp::*;

/// Is there an order of the clients' operations, each client's own kept, in which a reference cache gives
/// these results and ends up as seen?
fn explained(clients: &[Vec<CacheOp>], got: &[Vec<Option<usize>>], after: &[((i32, u32), Option<usize>)], at: &mut Vec<usize>, l: &Lru<usize>) -> bool {
    let mut end = true;
    for c in 0..clients.len() {
        if at[c] < clients[c].len() {
            end = false;
            let mut l = l.clone();
            let r = match clients[c][at[c]] {
                Get(u, h) => l.get(u, h),
                Put(u, h, t) => {
                    l.put(u, h, t);
                    Some(t)
                }
            };
            if r == got[c][at[c]] {
                at[c] += 1;
                let ok = explained(clients, got, after, at, &l);
                at[c] -= 1;
                if ok {
                    return true;
                }
            }
        }
    }
    end && {
        let mut l = l.clone();
        after.iter().all(|((u, h), t)| l.get(*u, *h) == *t)
    }
}

/// Clients that look up and store directly, every interleaving: results and final contents must be those of
/// some order of the operations.
fn cache_schedules(run: &Run, per: &mut serde_json::Map<String, serde_json::Value>) {
    let ops: Vec<CacheOp> = vec![Get(1, 7), Put(1, 7, 10), Put(1, 8, 11), Put(2, 7, 12), Get(2, 7), Put(3, 7, 13)];
    let n = ops.len();
    let (mut total, mut programs) = (0, 0);
    for (cap, shape) in [(1, vec![2, 2]), (2, vec![2, 2]), (2, vec![1, 1, 1]), (1, vec![1, 1, 2]), (2, vec![2, 2, 1])] {
        let slots: usize = shape.iter().sum();
        if run.quick() && (slots > 4 || shape.len() == 3 && slots > 3) {
            continue;
        }
        for k in 0..n.pow(slots as u32) {
            let mut j = k;
            let clients: Vec<Vec<CacheOp>> = shape
                .iter()
                .enumerate()
                .map(|(ci, len)| {
                    (0..*len)
                        .map(|oi| {
                            let o = ops[j % n];
                            j /= n;
                            match o {
                                Put(u, h, t) => Put(u, h, t + 100 * (ci * 3 + oi)),
                                g => g,
                            }
                        })
                        .collect()
                })
                .collect();
            programs += 1;
            let mut ok = true;
            total += sched::explore(
                clients.len(),
                usize::MAX,
                || ModelCache::new(cap),
                |cache, c| {
                    let mut cache = cache.clone();
                    clients[c]
                        .iter()
                        .map(|o| match *o {
                            Get(u, h) => cache.get_model(u, h).map(|m| tag_of(&m)),
                            Put(u, h, t) => Some(tag_of(&cache.insert_model(u, h, tagged(t)))),
                        })
                        .collect::<Vec<_>>()
                },
                |cache, out| {
                    let got: Option<Vec<Vec<Option<usize>>>> = out.results.iter().map(|r| r.clone().ok()).collect();
                    let good = !out.deadlock
                        && got.as_ref().map_or(false, |got| {
                            let after: Vec<_> = (1..=3).flat_map(|u| [7, 8].map(|h| ((u, h), cache.get_model(u, h).map(|m| tag_of(&m))))).collect();
                            run.trans(got.iter().map(|g| g.len() as u64).sum());
                            [true, false].iter().any(|&touch| explained(&clients, got, &after, &mut vec![0; clients.len()], &Lru { cap, touch, v: vec![] }))
                        });
                    if !good {
                        let id: String = out.picks.iter().map(|p| p.to_string()).collect();
                        run.violation(&format!("cap={cap} {clients:?}: schedule {id}"), "no order of the operations explains the results",
                            json!({"kind": "schedule", "capacity": cap, "clients": format!("{clients:?}"), "baton": out.schedule, "observed": format!("{:?}", out.results), "deadlock": out.deadlock}));
                        ok = false;
                    } else {
                        run.trace("cache schedule");
                    }
                    good
                },
            );
            if !ok || run.stopped() {
                break;
            }
        }
    }
    run.states(total);
    run.space("cache schedules", programs, "programs of two or three clients on the cache itself, each under every interleaving");
    per.insert("cache".into(), json!({"programs": programs, "schedules": total}));
}

// ---------------------------------------------------------------- V03

fn v03(run: &Run) {
    let token = |srv: &ConcreteEcdarBackend| match block_on(srv.get_user_token(Request::new(()))) {
        Ok(r) => r.into_inner().user_id,
        Err(s) => panic!("{s:?}"),
    };
    // one after the other
    let n = if run.quick() { 100_000 } else { 2_000_000 };
    let srv = ConcreteEcdarBackend::new(1, 1);
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let t = token(&srv);
        run.trans(1);
        if t <= 0 || !seen.insert(t) {
            run.violation(&format!("sequential {i}"), &format!("token request {} gives {t}", i + 1), json!({"kind": "tokens", "requests": i + 1, "observed": t}));
            break;
        }
    }
    run.trace("sequential");
    run.space("sequential", n, "token requests one after the other on one server");
    // tokens between other requests, all short histories
    let w = world();
    let other = [Component, Start, Unknown, NoDecision];
    let len = 4u32;
    let opts = 1 + 2 * other.len() as u64;
    run.space("histories", opts.pow(len), "token requests between queries, simulations and failing requests; all histories of four, both constructors");
    run.for_all(opts.pow(len), |i| {
        let srv = if i % 2 == 0 { ConcreteEcdarBackend::new(1, 1) } else { ConcreteEcdarBackend::new(2, 3) };
        let mut seen = BTreeSet::new();
        for k in 0..len {
            let o = (i / opts.pow(k) % opts) as usize;
            if o > 0 {
                let kind = other[(o - 1) / 2];
                send(&w, &srv, &Rq { user: 1 + (o as i32 - 1) % 2, set: 0, hash: 7, kind, bare: false });
            }
            let t = token(&srv);
            run.trans(1);
            if t <= 0 || !seen.insert(t) {
                run.violation(&format!("history {i}"), &format!("token {} of the history is {t}, given before or not positive", k + 1), json!({"kind": "token history", "history": i}));
                return;
            }
        }
        run.trace("history");
    });
    // all interleavings
    let mut per = serde_json::Map::new();
    let shapes: Vec<Vec<usize>> = if run.quick() { vec![vec![1, 1], vec![2, 2], vec![1, 1, 1], vec![3, 2], vec![2, 1, 1], vec![2, 2, 2]] } else { vec![vec![1, 1], vec![2, 2], vec![4, 4], vec![1, 1, 1], vec![3, 2], vec![2, 2, 2], vec![3, 3, 2], vec![1, 1, 1, 1], vec![2, 2, 1, 1]] };
    for shape in shapes {
        let name = format!("{shape:?}");
        let mut points = usize::MAX;
        let count = sched::explore(
            shape.len(),
            usize::MAX,
            || ConcreteEcdarBackend::new(1, 1),
            |srv, c| (0..shape[c]).map(|_| token(srv)).collect::<Vec<i32>>(),
            |srv, out| {
                points = points.min(out.schedule.len());
                let mut all: Vec<i32> = vec![];
                let mut err = out.deadlock.then(|| "deadlock".to_string());
                for r in &out.results {
                    match r {
                        Ok(v) => all.extend(v),
                        Err(e) => err = Some(e.clone()),
                    }
                }
                all.push(token(srv));
                run.trans(all.len() as u64);
                let d: BTreeSet<i32> = all.iter().copied().filter(|t| *t > 0).collect();
                if err.is_some() || d.len() != all.len() {
                    let id: String = out.picks.iter().map(|p| p.to_string()).collect();
                    run.violation(&format!("{name}: schedule {id}"), &format!("tokens {:?} {}", out.results, err.unwrap_or_default()),
                        json!({"kind": "schedule", "program": name, "baton": out.schedule, "picks": out.picks, "expected": "distinct positive tokens", "observed": format!("{:?}", out.results)}));
                    return false;
                }
                run.trace("schedule");
                true
            },
        );
        run.states(count);
        run.space(&format!("schedules/{name}"), count, "interleavings of concurrent token requests per client");
        per.insert(name, json!({"schedules": count, "shortest": points}));
    }
    run.put("schedules", serde_json::Value::Object(per));
}

fn main() {
    let id = std::env::args().nth(1).expect("id");
    let run = Run::new(&id);
    match id.as_str() {
        "V01" => v01(&run),
        "V02" => v02(&run),
        "V03" => v03(&run),
        _ => panic!("unknown id"),
    }
    run.finish()
}
