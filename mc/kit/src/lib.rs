//! Common machinery of the checks: exhaustive enumeration helpers, violation and evidence reporting.
//!
//! A check explores a finite space completely (within the bounds it states), drives the real code of /repo on every
//! element and compares with a reference model or invariant.  Counters are measured, never constants.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Once;
use std::time::{Duration, Instant};

pub mod explore;
pub mod q;
pub use explore::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub trace: Vec<String>,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    pub violations: Vec<Violation>,
    pub violation_count: u64,
    keys: HashSet<String>,
    pub exhaustive: bool,
    pub max_depth: u64,
    pub start: Instant,
}

const MAX_RECORDED: usize = 40;

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64) -> Self {
        Ctx {
            id: id.into(), tier, seed, states: 0, transitions: 0, traces: 0, outcomes: BTreeMap::new(), samples: vec![],
            bounds: vec![], assumptions: vec![], violations: vec![], violation_count: 0, keys: HashSet::new(),
            exhaustive: true, max_depth: 0, start: Instant::now(),
        }
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    /// pick a bound depending on the tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }
    pub fn fork(&self) -> Ctx { let mut c = Ctx::new(&self.id, self.tier, self.seed); c.start = self.start; c }
    pub fn merge(&mut self, o: Ctx) {
        self.states += o.states; self.transitions += o.transitions; self.traces += o.traces;
        for (k, v) in o.outcomes { *self.outcomes.entry(k).or_default() += v; }
        for s in o.samples { self.sample(s); }
        for b in o.bounds { if !self.bounds.contains(&b) { self.bounds.push(b); } }
        for a in o.assumptions { if !self.assumptions.contains(&a) { self.assumptions.push(a); } }
        self.violation_count += o.violation_count - o.violations.len() as u64;
        for v in o.violations { self.fail(v.key, v.msg, v.trace); }
        self.exhaustive &= o.exhaustive;
        self.max_depth = self.max_depth.max(o.max_depth);
    }
    /// Record a violation. `key` identifies the failing input, call site or history class.
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>, trace: Vec<String>) {
        self.violation_count += 1;
        let key = key.into();
        if self.violations.len() < MAX_RECORDED && self.keys.insert(key.clone()) {
            self.violations.push(Violation { key, msg: msg.into(), trace });
        }
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 12 { let mut s: String = s.into(); if s.len() > 700 { s.truncate(s.char_indices().take_while(|(i,_)| *i < 700).last().map(|x| x.0).unwrap_or(0)); s.push('…'); } self.samples.push(s); }
    }
    pub fn bound(&mut self, s: impl Into<String>) { let s = s.into(); if !self.bounds.contains(&s) { self.bounds.push(s); } }
    pub fn assume(&mut self, s: impl Into<String>) { let s = s.into(); if !self.assumptions.contains(&s) { self.assumptions.push(s); } }
    pub fn outcome(&mut self, s: &str) {
        if let Some(v) = self.outcomes.get_mut(s) { *v += 1; } else { self.outcomes.insert(s.to_string(), 1); }
    }
    /// one explored input/state on which `n` implementation operations were evaluated and compared with the model
    pub fn case(&mut self, n: u64) { self.states += 1; self.transitions += n; self.traces += 1; }
    /// compare impl with the model
    pub fn eq<T: PartialEq + Debug>(&mut self, key: &str, what: impl Fn() -> String, got: &T, want: &T) -> bool {
        if got != want {
            let w = what();
            self.fail(key, format!("{}: implementation {:?}, specification {:?}", w, got, want), vec![w]);
            false
        } else { true }
    }
    pub fn ensure(&mut self, key: &str, ok: bool, what: impl Fn() -> String) -> bool {
        if !ok { let w = what(); self.fail(key, w.clone(), vec![w]); }
        ok
    }
    pub fn stop(&self) -> bool { self.violations.len() >= MAX_RECORDED }
}

thread_local! { static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None); static QUIET: RefCell<u32> = RefCell::new(0); }
static HOOK: Once = Once::new();

/// Run the real code, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| *q.borrow() > 0) {
                LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {}", i.to_string().replace('\n', " "))));
            } else { old(i) }
        }));
    });
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Split `items` over the cores; every thread has its own Ctx, merged in order (deterministic result).
pub fn par<I: Send + Sync, F: Fn(&mut Ctx, &I) + Sync>(ctx: &mut Ctx, items: &[I], f: F) {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done: std::sync::Mutex<Vec<(usize, Ctx)>> = std::sync::Mutex::new(vec![]);
    let died = std::sync::Mutex::new(Vec::<(usize, String)>::new());
    std::thread::scope(|s| {
        for t in 0..n {
            let (next, done, died, f) = (&next, &done, &died, &f);
            let proto = ctx.fork();
            std::thread::Builder::new().stack_size(256 << 20).name(format!("w{}", t)).spawn_scoped(s, move || {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= items.len() { break }
                    let mut c = proto.fork();
                    // the thread's storage is in an unknown state after a panic: this worker takes no further item
                    let r = guard(|| f(&mut c, &items[i]));
                    done.lock().unwrap().push((i, c));
                    if let Err(e) = r { died.lock().unwrap().push((i, e)); break }
                }
            }).unwrap();
        }
    });
    let mut v = done.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (_, c) in v { ctx.merge(c); }
    // no item panics on a tree where the property holds: a panic is a failure of the code driven by the item
    let mut d = died.into_inner().unwrap();
    d.sort();
    for (i, e) in d { ctx.fail(format!("panic:{}", e.chars().take(120).collect::<String>()), format!("panic while exploring item {}: {}", i, e), vec![format!("item {}", i), e]); }
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 400 { format!("{}…({} bytes)", b[..200].iter().map(|x| format!("{:02x}", x)).collect::<String>(), b.len()) }
    else { b.iter().map(|x| format!("{:02x}", x)).collect() }
}

pub fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

fn known_findings() -> Vec<(String, String, String)> {
    let p = format!("{}/known_findings.json", verif_dir());
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let v: serde_json::Value = match serde_json::from_str(&s) { Ok(v) => v, Err(e) => { eprintln!("{}: {}", p, e); std::process::exit(3) } };
    v["findings"].as_array().cloned().unwrap_or_default().iter().map(|f| (
        f["property"].as_str().unwrap_or("").to_string(), f["key"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string())).collect()
}

pub type CheckFn = fn(&mut Ctx);

/// Entry point of every checker binary: `<binary> <property id> | all | list`
pub fn main_with(checks: &[(&str, CheckFn)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let want = args.get(1).cloned().unwrap_or_else(|| "list".into());
    if want == "list" { for (id, _) in checks { println!("{}", id); } std::process::exit(0) }
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") || args.iter().any(|a| a == "--thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut rc = 0;
    let mut found = false;
    for (id, f) in checks {
        if want != "all" && want != *id { continue }
        found = true;
        let f = *f;
        let id = id.to_string();
        // a big stack: the code under test recurses on some inputs
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || { let mut c = Ctx::new(&id, tier, seed);
            if let Err(e) = guard(|| f(&mut c)) { if c.states == 0 { c.states = 1; } c.fail(format!("panic:{}", e.chars().take(120).collect::<String>()), format!("panic during the check: {}", e), vec![e]); }
            finish(c) }).unwrap();
        match h.join() { Ok(r) => rc = rc.max(r), Err(_) => { eprintln!("check machinery failed"); std::process::exit(3) } }
    }
    if !found { eprintln!("unknown property {}", want); std::process::exit(2) }
    std::process::exit(rc)
}

fn finish(c: Ctx) -> i32 {
    let known = known_findings();
    let mut fresh = vec![];
    let mut listed = vec![];
    for v in &c.violations {
        if let Some(k) = known.iter().find(|k| k.0 == c.id && k.1 == v.key) { listed.push((v, k)); } else { fresh.push(v); }
    }
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    let wall = c.start.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": c.id, "tier": if c.tier == Tier::Quick { "quick" } else { "thorough" }, "seed": c.seed,
        "level": "model_checking",
        "coverage": {
            "states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
            "samples": if c.samples.is_empty() { vec!["(none)".to_string()] } else { c.samples.clone() },
            "outcomes": c.outcomes, "bounds": c.bounds, "max_depth": c.max_depth, "exhaustive": c.exhaustive,
        },
        "assumptions": c.assumptions, "wall_s": wall, "violations": fresh.len(),
    });
    std::fs::write(format!("{}/evidence/{}.json", dir, c.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for (_v, k) in &listed { println!("KNOWN-FINDING: property={} {}", c.id, k.2); }
    println!("{}: states={} transitions={} traces={} depth={} outcomes={} exhaustive={} wall={:.1}s", c.id, c.states, c.transitions, c.traces, c.max_depth, c.outcomes.len(), c.exhaustive, wall);
    if c.states == 0 && fresh.is_empty() { eprintln!("{}: nothing was explored", c.id); return 3 }
    if fresh.is_empty() { return 0 }
    let rd = format!("{}/replays", dir);
    let _ = std::fs::create_dir_all(&rd);
    let mut first = None;
    for (i, v) in fresh.iter().enumerate() {
        let p = format!("{}/{}-{}.txt", rd, c.id, i);
        if let Ok(mut f) = std::fs::File::create(&p) {
            let _ = writeln!(f, "property {}\nkey {}\n{}\n", c.id, v.key, v.msg);
            for (n, t) in v.trace.iter().enumerate() { let _ = writeln!(f, "{:3} {}", n, t); }
        }
        if first.is_none() { first = Some(p); }
        let mut m = v.msg.clone(); if m.len() > 600 { m = m.chars().take(600).collect(); }
        eprintln!("  [{}] {}", v.key, m);
    }
    println!("VIOLATION property={} replay={}", c.id, first.unwrap());
    1
}

pub fn deadline(c: &Ctx, secs: u64) -> bool { c.start.elapsed() > Duration::from_secs(secs) }

/// All products of `n` choices from `alphabet`, in lexicographic order, calling `f` with indices.
pub fn tuples(k: usize, n: usize, mut f: impl FnMut(&[usize])) {
    let mut v = vec![0usize; n];
    if n > 0 && k == 0 { return }
    loop {
        f(&v);
        let mut i = n;
        loop { if i == 0 { return } i -= 1; v[i] += 1; if v[i] < k { break } v[i] = 0; }
    }
}
#[allow(unused)] fn _u() -> (HashMap<u8, u8>, VecDeque<u8>) { (HashMap::new(), VecDeque::new()) }
#[allow(unused)] fn _h<T: Hash>(_: T) {}
