//! Counting, known findings, replays, evidence and the exhaustive case loop.
use serde_json::{json, Map, Value};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

thread_local! { static HASH_SEED: Cell<u64> = const { Cell::new(0) }; }

/// The standard library seeds its hash maps from this call, once per thread. Owning it makes the map
/// iteration order of the code under test a function of the case, so every run is repeatable.
/// # Safety
/// Called by the standard library with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.with(|h| h.get()).wrapping_add(0x9E37_79B9_7F4A_7C15);
    for i in 0..len {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        *buf.add(i) = (s >> 32) as u8;
    }
    len as isize
}

/// Runs f on a fresh thread whose hash maps are seeded with `seed`.
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                HASH_SEED.with(|h| h.set(seed));
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The directory of this framework (set by check.sh).
pub fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    states: AtomicU64,
    trans: AtomicU64,
    traces: AtomicU64,
    cases: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    viol: Mutex<Vec<(String, String)>>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    known: BTreeMap<String, String>,
    stop: AtomicBool,
    pub extra: Mutex<Map<String, Value>>,
    spaces: Mutex<Vec<Value>>,
    fatal: Mutex<Vec<String>>,
    slowest_ms: AtomicU64,
}

const MAX_VIOLATIONS: usize = 12;

/// What a worker is busy with.
pub struct Slot {
    case: AtomicU64,
    /// milliseconds since the start of the run, plus one; 0 when idle
    since: AtomicU64,
    request: Mutex<String>,
}

thread_local! { static SLOT: std::cell::RefCell<Option<std::sync::Arc<Slot>>> = const { std::cell::RefCell::new(None) }; }

/// Notes the request the current worker is about to issue.
pub fn about_to(request: impl FnOnce() -> String) {
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            *s.request.lock().unwrap() = request();
        }
    })
}

/// Resident memory in megabytes.
fn memory_mb() -> u64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split(' ').nth(1).and_then(|p| p.parse::<u64>().ok()).unwrap_or(0) / 256
}

const MEMORY_MB: u64 = 22_000;

impl Run {
    pub fn new(id: &str) -> Run {
        let arg = std::env::args().nth(2).or_else(|| std::env::var("VERIF_TIER").ok());
        let tier = match arg.as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", root())) {
            let v: Value = serde_json::from_str(&t).expect("known_findings.json");
            for k in v["findings"].as_array().into_iter().flatten() {
                if k["property"] == id && k["status"] == "known" {
                    for key in k["keys"].as_array().into_iter().flatten() {
                        known.insert(
                            key.as_str().unwrap().to_string(),
                            k["what"].as_str().unwrap_or("").to_string(),
                        );
                    }
                }
            }
        }
        crate::driver::quiet_panics();
        Run {
            id: id.into(),
            tier,
            seed,
            start: Instant::now(),
            states: 0.into(),
            trans: 0.into(),
            traces: 0.into(),
            cases: 0.into(),
            outcomes: Default::default(),
            samples: Default::default(),
            viol: Default::default(),
            known_hit: Default::default(),
            known,
            stop: false.into(),
            extra: Default::default(),
            spaces: Default::default(),
            fatal: Default::default(),
            slowest_ms: 0.into(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.trans.fetch_add(n, Relaxed);
    }
    /// A behaviour of the model was executed on the implementation and compared.
    pub fn trace(&self, outcome: &str) {
        self.traces.fetch_add(1, Relaxed);
        *self.outcomes.lock().unwrap().entry(outcome.to_string()).or_default() += 1;
    }
    pub fn note(&self, outcome: &str) {
        *self.outcomes.lock().unwrap().entry(outcome.to_string()).or_default() += 1;
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 8 {
            s.push(v);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn space(&self, name: &str, size: u64, what: &str) {
        self.spaces.lock().unwrap().push(json!({"name": name, "cases": size, "what": what}));
    }
    /// The check itself cannot work (for instance vacuous exploration): error exit, no verdict.
    pub fn broken(&self, why: &str) {
        self.fatal.lock().unwrap().push(why.to_string());
    }
    /// `key` identifies the failing input; `replay` is everything needed to run it again.
    pub fn violation(&self, key: &str, what: &str, replay: Value) {
        if self.known.contains_key(key) {
            *self.known_hit.lock().unwrap().entry(key.to_string()).or_default() += 1;
            return;
        }
        let mut v = self.viol.lock().unwrap();
        if v.len() >= MAX_VIOLATIONS || v.iter().any(|x| x.0 == key) {
            return;
        }
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let mut h: u64 = 0xcbf29ce484222325;
        for b in key.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let path = format!("{dir}/{}-{:016x}.json", self.id, h);
        let doc = json!({"property": self.id, "key": key, "what": what, "replay": replay,
            "how": "cd /verif && ./check.sh replay <this file> issues the request again; the key names the case in the check's own space"});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("VIOLATION property={} replay={}", self.id, path);
        println!("  {key}\n  {what}");
        v.push((key.to_string(), what.to_string()));
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }

    /// Visits every case 0..n exactly once on all cores; each chunk of cases runs on a fresh thread with
    /// its own deterministic hash seed, so outcomes are functions of the case number.
    pub fn for_all(&self, n: u64, f: impl Fn(u64) + Sync) {
        self.for_all_seeded(n, 0, f)
    }
    pub fn for_all_seeded(&self, n: u64, variant: u64, f: impl Fn(u64) + Sync) {
        // for development: one space alone
        if let Ok(only) = std::env::var("MC_SPACE") {
            let spaces = self.spaces.lock().unwrap();
            if spaces.last().map(|s| s["name"] != only.as_str()).unwrap_or(false) {
                return;
            }
        }
        let chunk_size: u64 = if n > 400_000 { 64 } else { 16 };
        let next = AtomicU64::new(0);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        let slots: Vec<_> = (0..workers)
            .map(|_| std::sync::Arc::new(Slot { case: 0.into(), since: 0.into(), request: Default::default() }))
            .collect();
        let done = AtomicU64::new(0);
        let now = || self.start.elapsed().as_millis() as u64 + 1;
        std::thread::scope(|s| {
            for slot in &slots {
                let (next, done, f) = (&next, &done, &f);
                s.spawn(move || {
                    while !self.stopped() {
                        let c = next.fetch_add(1, Relaxed);
                        if c * chunk_size >= n {
                            break;
                        }
                        let (lo, hi) = (c * chunk_size, ((c + 1) * chunk_size).min(n));
                        let r = crate::driver::guarded(|| {
                            with_hash_seed((variant << 40) | c, || {
                                SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                                for i in lo..hi {
                                    let t = now();
                                    slot.case.store(i, Relaxed);
                                    slot.since.store(t, Relaxed);
                                    if let Err(e) = crate::driver::guarded(|| f(i)) {
                                        if e.contains("panicked at src/") || !e.contains("/src/") {
                                            self.broken(&format!("harness panic at case {i}: {e}"));
                                            self.stop.store(true, Relaxed);
                                            break;
                                        }
                                        let request = slot.request.lock().unwrap().clone();
                                        self.violation(
                                            &format!("crash | case {i} | {request}"),
                                            &e,
                                            json!({"kind": "text", "case": i, "request": request, "panic": e}),
                                        );
                                    }
                                    self.slowest_ms.fetch_max(now() - t, Relaxed);
                                    self.cases.fetch_add(1, Relaxed);
                                }
                                slot.since.store(0, Relaxed);
                            })
                        });
                        if let Err(e) = r {
                            self.broken(&format!("worker failed: {e}"));
                            break;
                        }
                    }
                    done.fetch_add(1, Relaxed);
                });
            }
            // a case that never ends, or eats all memory, is a failure of the code under test
            let mut beat = 0u64;
            while done.load(Relaxed) < workers as u64 {
                std::thread::sleep(std::time::Duration::from_millis(if n < 1000 { 5 } else { 50 }));
                beat += 1;
                if beat % 4 != 0 {
                    continue;
                }
                let oldest = slots.iter().filter(|s| s.since.load(Relaxed) > 0).min_by_key(|s| s.since.load(Relaxed));
                let Some(slot) = oldest else { continue };
                let busy = now().saturating_sub(slot.since.load(Relaxed));
                let mb = memory_mb();
                if busy > self.patience_ms() || mb > MEMORY_MB {
                    let case = slot.case.load(Relaxed);
                    let space = self.spaces.lock().unwrap().last().map(|s| s["name"].to_string()).unwrap_or_default();
                    let request = slot.request.lock().unwrap().clone();
                    self.violation(
                        &format!("no answer | space {space} case {case}"),
                        &format!("no answer after {} s and {mb} MB: {}", busy / 1000, request.chars().take(400).collect::<String>()),
                        json!({"kind": "text", "space": space, "case": case, "request": request}),
                    );
                    self.broken("a case gave no answer");
                    std::process::exit(self.conclude());
                }
            }
        });
    }
    /// How long a case may take before it counts as one without an answer.
    fn patience_ms(&self) -> u64 {
        if self.quick() {
            90_000
        } else {
            1_200_000
        }
    }

    pub fn put(&self, k: &str, v: Value) {
        self.extra.lock().unwrap().insert(k.into(), v);
    }

    pub fn finish(self) -> ! {
        std::process::exit(self.conclude())
    }

    /// Writes the evidence and gives the exit code.
    fn conclude(&self) -> i32 {
        let viol = self.viol.lock().unwrap().clone();
        for (k, n) in self.known_hit.lock().unwrap().iter() {
            println!(
                "KNOWN-FINDING: property={} {} [{}] (met {} time(s))",
                self.id, self.known[k], k, n
            );
        }
        let fatal = self.fatal.lock().unwrap().clone();
        let outcomes = self.outcomes.lock().unwrap().clone();
        let mut cov = json!({
            "states": self.states.load(Relaxed),
            "transitions": self.trans.load(Relaxed),
            "traces_validated_against_impl": self.traces.load(Relaxed),
            "cases_enumerated": self.cases.load(Relaxed),
            "outcomes": outcomes,
            "spaces": *self.spaces.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "slowest_case_s": self.slowest_ms.load(Relaxed) as f64 / 1000.0,
            "exhaustive": !self.stopped() && fatal.is_empty(),
        });
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov[k] = v.clone();
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
        std::fs::write(
            format!("{}/evidence/{}.json", root(), self.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("evidence");
        println!(
            "{}: {} cases, {} states, {} transitions, {} traces compared, {:.1}s, {:?}",
            self.id,
            self.cases.load(Relaxed),
            self.states.load(Relaxed),
            self.trans.load(Relaxed),
            self.traces.load(Relaxed),
            self.start.elapsed().as_secs_f64(),
            outcomes
        );
        for f in &fatal {
            eprintln!("CHECK ERROR: {f}");
        }
        if !viol.is_empty() {
            return 1;
        }
        if !fatal.is_empty() {
            return 2;
        }
        0
    }
}

/// A replay that re-issues one request.
pub fn query_replay(jsons: &[String], query: &str, reduce: bool, shown: &[String], expected: &str, observed: &str) -> Value {
    json!({"kind": "query", "components": jsons, "query": query, "clock_reduction": reduce,
        "models": shown, "expected": expected, "observed": observed})
}
