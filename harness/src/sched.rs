//! Runs clients of the real code under every interleaving of their accesses to shared state: one baton,
//! handed over only where the code announces an access (cfg(reveaal_mc) in /repo), depth-first over all
//! choices.
use reveaal::mc_sync::{set_hook, Event};
use std::collections::HashMap;
use std::sync::{Condvar, Mutex, OnceLock};

#[derive(Default)]
struct State {
    active: bool,
    current: usize,
    done: Vec<bool>,
    waiting: Vec<Option<usize>>,
    holder: HashMap<usize, usize>,
    prefix: Vec<usize>,
    /// per choice: clients that could run, the one that ran
    trace: Vec<(Vec<usize>, usize)>,
    preemptions: usize,
    bound: usize,
    deadlock: bool,
    events: u64,
}

struct Sched {
    st: Mutex<State>,
    cv: Condvar,
}

fn sched() -> &'static Sched {
    static S: OnceLock<Sched> = OnceLock::new();
    S.get_or_init(|| Sched { st: Default::default(), cv: Condvar::new() })
}

fn lock() -> std::sync::MutexGuard<'static, State> {
    sched().st.lock().unwrap_or_else(|e| e.into_inner())
}

/// Picks who goes on; `me` is giving up the baton here.
fn choose(s: &mut State, me: Option<usize>) {
    let free = |s: &State, c: usize| !s.done[c] && s.waiting[c].map_or(true, |a| !s.holder.contains_key(&a));
    let mut enabled: Vec<usize> = (0..s.done.len()).filter(|&c| free(s, c)).collect();
    if enabled.is_empty() {
        if s.done.iter().any(|d| !d) {
            s.deadlock = true;
        }
        return;
    }
    // going on with the same client is not a preemption and comes first
    if let Some(m) = me {
        if let Some(p) = enabled.iter().position(|&c| c == m) {
            enabled.swap(0, p);
            if s.preemptions >= s.bound {
                enabled.truncate(1);
            }
        }
    }
    let k = s.trace.len();
    let pick = s.prefix.get(k).copied().unwrap_or(0).min(enabled.len() - 1);
    if me == Some(enabled[0]) && pick > 0 {
        s.preemptions += 1;
    }
    s.current = enabled[pick];
    s.trace.push((enabled, pick));
}

fn wait_for(mut s: std::sync::MutexGuard<'static, State>, me: usize) -> std::sync::MutexGuard<'static, State> {
    while s.current != me && !s.deadlock {
        s = sched().cv.wait(s).unwrap_or_else(|e| e.into_inner());
    }
    s
}

fn hook(e: Event) {
    let mut s = lock();
    if !s.active {
        return;
    }
    // only the holder of the baton runs, on its own thread or on one of the pool working for it
    let me = s.current;
    s.events += 1;
    match e {
        Event::Unlock(a) => {
            s.holder.remove(&a);
        }
        Event::Held(a) => {
            s.holder.insert(a, me);
        }
        Event::Lock(_) | Event::Atomic(_) => {
            if let Event::Lock(a) = e {
                s.waiting[me] = Some(a);
            }
            choose(&mut s, Some(me));
            sched().cv.notify_all();
            s = wait_for(s, me);
            if s.deadlock {
                drop(s);
                panic!("deadlock");
            }
            if let Event::Lock(a) = e {
                s.waiting[me] = None;
                s.holder.insert(a, me);
            }
        }
    }
}

pub struct Outcome<T> {
    /// what each client returned
    pub results: Vec<Result<T, String>>,
    pub deadlock: bool,
    /// the clients in the order they were given the baton
    pub schedule: Vec<usize>,
    pub picks: Vec<usize>,
    pub events: u64,
}

/// One execution under the schedule that starts with `prefix`; returns the trace of choices too.
fn run_once<T: Send>(n: usize, prefix: Vec<usize>, bound: usize, client: &(dyn Fn(usize) -> T + Sync)) -> (Outcome<T>, Vec<(Vec<usize>, usize)>) {
    {
        let mut s = lock();
        *s = State { active: true, current: usize::MAX, done: vec![false; n], waiting: vec![None; n], prefix, bound, ..Default::default() };
        choose(&mut s, None);
    }
    let results: Vec<Result<T, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|c| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        drop(wait_for(lock(), c));
                        let r = crate::driver::guarded(|| client(c));
                        let mut s = lock();
                        s.done[c] = true;
                        if !s.deadlock {
                            choose(&mut s, None);
                        }
                        sched().cv.notify_all();
                        r
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("client thread died".into()))).collect()
    });
    let mut s = lock();
    s.active = false;
    let trace = std::mem::take(&mut s.trace);
    let schedule = trace.iter().map(|(e, p)| e[*p]).collect();
    let picks = trace.iter().map(|(_, p)| *p).collect();
    (Outcome { results, deadlock: s.deadlock, schedule, picks, events: s.events }, trace)
}

/// Every interleaving of `n` clients with at most `bound` preemptions. `fresh` makes the shared object of one
/// execution; `check` judges it and returns false to stop. Returns how many schedules were run.
pub fn explore<S: Sync, T: Send>(
    n: usize,
    bound: usize,
    fresh: impl Fn() -> S,
    client: impl Fn(&S, usize) -> T + Sync,
    mut check: impl FnMut(&S, &Outcome<T>) -> bool,
) -> u64 {
    set_hook(hook);
    let mut prefix = vec![];
    let mut count = 0;
    loop {
        let shared = fresh();
        let (out, trace) = run_once(n, prefix, bound, &|c| client(&shared, c));
        count += 1;
        if !check(&shared, &out) {
            return count;
        }
        // the last choice that has an alternative left
        let Some(k) = trace.iter().rposition(|(e, p)| p + 1 < e.len()) else { return count };
        prefix = trace[..k].iter().map(|(_, p)| *p).collect();
        prefix.push(trace[k].1 + 1);
    }
}

/// One execution again, from the choices it was made of.
pub fn replay<S: Sync, T: Send>(n: usize, bound: usize, picks: &[usize], fresh: impl Fn() -> S, client: impl Fn(&S, usize) -> T + Sync) -> (S, Outcome<T>) {
    set_hook(hook);
    let shared = fresh();
    let (out, _) = run_once(n, picks.to_vec(), bound, &|c| client(&shared, c));
    (shared, out)
}
