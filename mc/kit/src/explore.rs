//! Explicit-state breadth-first search over a transition function that runs the real code.
use crate::{guard, Ctx};
use std::collections::HashMap;
use std::fmt::Debug;

/// A model-checking problem.  `State` carries a snapshot of the implementation state together with the reference model.
pub trait System {
    type State: Clone;
    type Op: Clone + Debug;
    fn initial(&self) -> Vec<(String, Self::State)>;
    /// operations worth trying in this state, simplest first
    fn ops(&self, s: &Self::State) -> Vec<Self::Op>;
    /// Run the operation on the implementation and on the model, compare, and return the successor plus an outcome label.
    /// Err((key, msg)) is a violation.
    fn step(&self, s: &Self::State, op: &Self::Op) -> Result<(Self::State, String), (String, String)>;
    /// canonical key for deduplication
    fn key(&self, s: &Self::State) -> u128;
}

/// Level-synchronous BFS with the frontier of every level split over the cores (results merged in order, so the
/// search is deterministic).  Returns the number of distinct states.
pub fn bfs<M: System + Sync>(ctx: &mut Ctx, m: &M, max_depth: usize, max_states: usize) -> usize
where M::State: Send + Sync, M::Op: Send + Sync {
    let mut seen: HashMap<u128, ()> = HashMap::new();
    // (state, parent index, op) -- parents kept to rebuild the trace
    let mut parents: Vec<(usize, String)> = vec![];
    let mut frontier: Vec<(usize, M::State)> = vec![];
    for (name, s) in m.initial() {
        if seen.insert(m.key(&s), ()).is_none() {
            parents.push((usize::MAX, format!("initial: {}", name)));
            frontier.push((parents.len() - 1, s));
            ctx.states += 1;
        }
    }
    let trace = |parents: &Vec<(usize, String)>, mut i: usize| {
        let mut v = vec![];
        while i != usize::MAX { v.push(parents[i].1.clone()); i = parents[i].0; }
        v.reverse();
        v
    };
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let mut depth = 0;
    while !frontier.is_empty() && depth < max_depth {
        depth += 1;
        // expand in chunks to bound memory
        let mut next: Vec<(usize, M::State)> = vec![];
        let mut capped = false;
        for chunk in frontier.chunks(5_000) {
            type Exp<S, O> = Vec<(O, Result<(Option<S>, String, u128), (String, String)>)>;
            let pos = std::sync::atomic::AtomicUsize::new(0);
            let results: Vec<std::sync::Mutex<Option<Exp<M::State, M::Op>>>> = (0..chunk.len()).map(|_| std::sync::Mutex::new(None)).collect();
            let bad = std::sync::Mutex::new(None::<String>);
            std::thread::scope(|sc| {
                for _ in 0..threads {
                    let (pos, results, bad, seen) = (&pos, &results, &bad, &seen);
                    let last = depth == max_depth;
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || loop {
                        let i = pos.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= chunk.len() || bad.lock().unwrap().is_some() { break }
                        let s = &chunk[i].1;
                        let r = guard(|| {
                            let mut out = vec![];
                            for op in m.ops(s) {
                                let r = match guard(|| m.step(s, &op)) {
                                    Ok(Ok((n, label))) => { let k = m.key(&n); Ok(((!last && !seen.contains_key(&k)).then_some(n), label, k)) }
                                    Ok(Err(e)) => Err(e),
                                    Err(p) => Err((format!("panic:{}", panic_site(&p)), p)),
                                };
                                out.push((op, r));
                            }
                            out
                        });
                        match r { Ok(o) => *results[i].lock().unwrap() = Some(o), Err(e) => { *bad.lock().unwrap() = Some(e); break } }
                    }).unwrap();
                }
            });
            if let Some(b) = bad.into_inner().unwrap() { ctx.fail(format!("panic:{}", panic_site(&b)), format!("panic while listing the operations of a state: {}", b), vec![b]); return seen.len() }
            for (i, r) in results.into_iter().enumerate() {
                let parent = chunk[i].0;
                for (op, r) in r.into_inner().unwrap().unwrap() {
                    ctx.transitions += 1;
                    match r {
                        Ok((n, label, k)) => {
                            ctx.traces += 1;
                            ctx.outcome(&label);
                            if seen.contains_key(&k) { continue }
                            if seen.len() >= max_states { capped = true; continue }
                            seen.insert(k, ());
                            ctx.states += 1;
                            if depth == max_depth {
                                // last level: nothing is expanded from here, keep only the key (and a sample of traces)
                                if seen.len() % 9973 == 7 { let mut t = trace(&parents, parent); t.push(format!("{:?} -> {}", op, label)); ctx.sample(t.join(" ; ")); }
                                continue;
                            }
                            parents.push((parent, format!("{:?} -> {}", op, label)));
                            let id = parents.len() - 1;
                            if parents.len() % 997 == 5 { let t = trace(&parents, id); ctx.sample(t.join(" ; ")); }
                            next.push((id, n.expect("a new state")));
                        }
                        Err((key, msg)) => {
                            let mut t = trace(&parents, parent);
                            t.push(format!("{:?} -> VIOLATION {}", op, msg));
                            ctx.fail(key, format!("{} after [{}]", msg, t.join(" ; ")), t);
                        }
                    }
                }
            }
        }
        if capped { ctx.exhaustive = false; ctx.bound(format!("state cap {} reached at depth {}: depth {} is fully covered", max_states, depth, depth - 1)); frontier = vec![]; break }
        frontier = next;
        ctx.max_depth = ctx.max_depth.max(depth as u64);
        if ctx.violations.len() >= 10 { break }
    }
    if frontier.is_empty() && depth < max_depth && ctx.exhaustive { ctx.bound(format!("fixpoint reached at depth {}", depth)); }
    if ctx.samples.is_empty() && parents.len() > 1 { let t = trace(&parents, parents.len() - 1); ctx.sample(t.join(" ; ")); }
    seen.len()
}

pub fn panic_site(p: &str) -> String {
    // "panic: panicked at 'msg', /repo/crates/x/src/lib.rs:12:3" -> crates/x/src/lib.rs + message, without line numbers
    let file = p.find("/repo/").map(|i| { let r = &p[i + 6..]; r.split(|c: char| c == ':' || c == ' ').next().unwrap_or("").to_string() }).unwrap_or_default();
    let msg = p.find('\'').and_then(|i| p[i + 1..].find('\'').map(|j| p[i + 1..i + 1 + j].to_string())).unwrap_or_default();
    let msg: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    format!("{}:{}", file, msg)
}

/// 128-bit FNV-1a over bytes: state fingerprints
pub fn fp(b: &[u8]) -> u128 {
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
    for x in b { h ^= *x as u128; h = h.wrapping_mul(0x0000000001000000000000000000013B); }
    h ^ (h >> 64)
}
