//! Exhaustive exploration engine.
//!
//! A *space* is a set of executions described by a function that asks a [`Chooser`] for every
//! choice. [`Run::space`] enumerates **every** sequence of choices (stateless depth first search
//! over the choice tree, distributed over worker threads), never a sample of them.
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value as Json};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Wall clock limit of a single execution. An execution takes well under a second.
const HANG: Duration = Duration::from_secs(150);
/// A quick check takes at most two minutes. Should a change of the code make its executions many
/// times longer, then it ends after this time; what was not explored is reported as such.
const DEADLINE: Duration = Duration::from_secs(600);
/// Limit for a single allocation; the largest legitimate ones are a few maximal packets.
const ALLOC_LIMIT: usize = 1 << 32;

// ---------------------------------------------------------------------------------------------
// Allocation tracking

pub struct Alloc;

thread_local! {
    static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    static IN_HANDLER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CURRENT: RefCell<Option<(Arc<Shared>, String, Vec<u32>)>> = const { RefCell::new(None) };
}

fn track(size: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + size;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

fn too_large(size: usize) {
    if IN_HANDLER.try_with(|x| x.replace(true)).unwrap_or(true) {
        return;
    }
    let cur = CURRENT.try_with(|c| c.borrow().clone()).ok().flatten();
    if let Some((shared, space, choices)) = cur {
        shared.fatal(&space, &choices, &format!("a single allocation of {size} bytes was requested"));
    }
}

unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT {
            too_large(l.size());
        }
        track(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT {
            too_large(l.size());
        }
        track(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        track(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > ALLOC_LIMIT {
            too_large(n);
        }
        track(n as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, n)
    }
}

/// Starts to measure the memory allocated by this thread.
pub fn alloc_mark() -> isize {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    live
}

/// Largest number of bytes allocated by this thread at the same time since `mark`.
pub fn alloc_peak(mark: isize) -> usize {
    (PEAK.with(|p| p.get()) - mark).max(0) as usize
}

// ---------------------------------------------------------------------------------------------

/// Answers the choices of one execution.
pub struct Chooser<'a> {
    prefix: &'a [u32],
    pub path: Vec<(u32, u32)>,
    rec: Rec,
}

impl Chooser<'_> {
    /// Any number below `n`.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize, "choice of {n} alternatives");
        let i = self.path.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            assert!((c as usize) < n, "divergence while replaying a prefix: {c} of {n}");
            c
        } else {
            0
        };
        self.path.push((c, n as u32));
        c as usize
    }

    pub fn pick<'t, T>(&mut self, list: &'t [T]) -> &'t T {
        &list[self.choose(list.len())]
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn trace(&self) -> Vec<u32> {
        self.path.iter().map(|x| x.0).collect()
    }

    /// Counts steps of the explored system.
    pub fn steps(&mut self, n: u64) {
        self.rec.steps += n;
    }

    /// Records a state of the explored system.
    pub fn state<T: Hash>(&mut self, x: &T) {
        self.rec.states.push(hash(x));
    }

    /// Records what was observed by this execution.
    pub fn outcome<T: Hash>(&mut self, x: &T) {
        self.rec.outcome = Some(hash(x));
    }

    /// The execution was compared with the reference model (the default).
    pub fn trivial(&mut self) {
        self.rec.trivial = true;
    }

    /// The violation that follows is a known one, identified by `signature`.
    pub fn note(&mut self, text: impl FnOnce() -> String) {
        if self.rec.want_note {
            self.rec.note = Some(text());
        }
    }

    pub fn known(&mut self, signature: &str) {
        self.rec.known.push(signature.to_owned());
    }
}

thread_local! {
    static CHOOSER: std::cell::Cell<*mut ()> = const { std::cell::Cell::new(std::ptr::null_mut()) };
}

/// Lets code called by `f` on this thread make choices with [`ask`].
pub fn scoped<T>(ch: &mut Chooser, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CHOOSER.with(|c| c.set(std::ptr::null_mut()));
        }
    }
    CHOOSER.with(|c| c.set(ch as *mut Chooser as *mut ()));
    let _reset = Reset;
    f()
}

/// Any number below `n`, only within [`scoped`].
pub fn ask(n: usize) -> usize {
    let ch = CHOOSER.with(|c| c.get()) as *mut Chooser;
    assert!(!ch.is_null());
    // Safety: `scoped` holds the only reference and is still running on this thread
    unsafe { (*ch).choose(n) }
}

#[derive(Default)]
struct Rec {
    steps: u64,
    states: Vec<u64>,
    outcome: Option<u64>,
    trivial: bool,
    known: Vec<String>,
    want_note: bool,
    note: Option<String>,
}

pub fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub struct Found {
    pub space: String,
    pub choices: Vec<u32>,
    pub message: String,
}

#[derive(Default)]
struct SpaceStats {
    executions: u64,
    trivial: u64,
    steps: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<Json>,
    known: BTreeMap<String, u64>,
    complete: bool,
    wall: f64,
    max_depth: usize,
}

pub struct Shared {
    pub property: String,
    pub tier: Tier,
    pub seed: i64,
    start: Instant,
    verif: String,
    fatal: AtomicBool,
    busy: Vec<Mutex<Option<(Instant, String, Vec<u32>)>>>,
}

impl Shared {
    fn replay_file(&self, found: &Found, reproduced: &str) -> String {
        let dir = format!("{}/replays", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.json", self.property);
        let j = json!({
            "property": self.property,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "space": found.space,
            "choices": found.choices,
            "message": found.message,
            "reproduced": reproduced,
            "how": format!("{}/check.sh replay {path}", self.verif),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        path
    }

    /// Reports a violation that the process cannot continue after.
    fn fatal(&self, space: &str, choices: &[u32], message: &str) -> ! {
        if self.fatal.swap(true, Ordering::SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        let found = Found {
            space: space.to_owned(),
            choices: choices.to_vec(),
            message: message.to_owned(),
        };
        let path = self.replay_file(&found, "not tried");
        println!("violation in space {space}: {message}");
        println!("VIOLATION property={} replay={path}", self.property);
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
}

pub struct Level {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// One run of the check of one property.
pub struct Run {
    pub shared: Arc<Shared>,
    level: Level,
    threads: usize,
    spaces: Vec<(String, String, SpaceStats)>,
    found: Option<Found>,
    replay: Option<(String, Vec<u32>)>,
    replayed: Option<Option<String>>,
    known: Vec<Json>,
    late: bool,
    pub extra: serde_json::Map<String, Json>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

struct Task {
    prefix: Vec<u32>,
    next: u32,
    n: u32,
}

struct Queue {
    tasks: Vec<Task>,
    active: usize,
}

fn panic_message(payload: Box<dyn Any + Send>) -> String {
    let text = if let Some(s) = payload.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_owned()
    };
    let at = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    format!("panic: {text} {at}")
}

impl Run {
    pub fn tier(&self) -> Tier {
        self.shared.tier
    }

    pub fn quick(&self) -> bool {
        self.shared.tier == Tier::Quick
    }

    /// `quick` or `thorough`, by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    fn once<F>(f: &F, prefix: &[u32], want_note: bool) -> (Vec<(u32, u32)>, Rec, Result<(), String>)
    where
        F: Fn(&mut Chooser) -> Result<(), String> + Sync,
    {
        let mut ch = Chooser {
            prefix,
            path: Vec::new(),
            rec: Rec {
                want_note,
                ..Rec::default()
            },
        };
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut ch)));
        let res = match res {
            Ok(x) => x,
            Err(p) => {
                crate::rt::reset();
                Err(panic_message(p))
            }
        };
        (ch.path, ch.rec, res)
    }

    /// Explores all executions of `f`.
    pub fn space<F>(&mut self, name: &str, what: &str, f: F)
    where
        F: Fn(&mut Chooser) -> Result<(), String> + Sync,
    {
        if let Some((space, choices)) = &self.replay {
            if space == name {
                let (_, rec, res) = Self::once(&f, choices, true);
                if let Some(note) = rec.note {
                    println!("{note}");
                }
                self.replayed = Some(res.err());
            }
            return;
        }
        if self.found.is_some() {
            return;
        }
        let start = Instant::now();
        let queue = Mutex::new(Queue {
            tasks: vec![Task {
                prefix: Vec::new(),
                next: 0,
                n: 1,
            }],
            active: 0,
        });
        let cond = Condvar::new();
        let stats = Mutex::new(SpaceStats::default());
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let counter = AtomicU64::new(0);
        let slots = AtomicUsize::new(0);
        let quick = self.quick();
        let late = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|scope| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, || {
                        let slot = slots.fetch_add(1, Ordering::Relaxed);
                        let mut local = SpaceStats::default();
                        loop {
                            let (prefix, root) = {
                                let mut q = queue.lock().unwrap();
                                loop {
                                    if let Some(t) = q.tasks.last_mut() {
                                        let mut prefix = t.prefix.clone();
                                        let root = t.n == 1 && t.prefix.is_empty();
                                        if !root {
                                            prefix.push(t.next);
                                        }
                                        t.next += 1;
                                        if t.next >= t.n {
                                            q.tasks.pop();
                                        }
                                        q.active += 1;
                                        break (prefix, root);
                                    }
                                    if q.active == 0 {
                                        cond.notify_all();
                                        let mut s = stats.lock().unwrap();
                                        s.executions += local.executions;
                                        s.trivial += local.trivial;
                                        s.steps += local.steps;
                                        s.max_depth = s.max_depth.max(local.max_depth);
                                        s.states.extend(local.states);
                                        s.outcomes.extend(local.outcomes);
                                        s.samples.extend(local.samples);
                                        for (k, v) in local.known {
                                            *s.known.entry(k).or_default() += v;
                                        }
                                        return;
                                    }
                                    q = cond.wait(q).unwrap();
                                }
                            };
                            let _ = root;
                            // after a violation only executions before it are of interest
                            let mut skip = match &*found.lock().unwrap() {
                                Some(x) => prefix.as_slice() > x.choices.as_slice(),
                                None => false,
                            };
                            if quick && self.shared.start.elapsed() > DEADLINE {
                                late.store(true, Ordering::Relaxed);
                                skip = true;
                            }
                            let mut new = Vec::new();
                            if !skip {
                                let n = counter.fetch_add(1, Ordering::Relaxed);
                                *self.shared.busy[slot].lock().unwrap() =
                                    Some((Instant::now(), name.to_owned(), prefix.clone()));
                                CURRENT.with(|c| {
                                    *c.borrow_mut() =
                                        Some((self.shared.clone(), name.to_owned(), prefix.clone()))
                                });
                                // a few evenly spread executions are written out as samples
                                let want = n.is_power_of_two() || n == 0;
                                let (path, mut rec, res) = Self::once(&f, &prefix, want);
                                if path.len() < prefix.len() {
                                    panic!("divergence while replaying a prefix");
                                }
                                local.executions += 1;
                                local.max_depth = local.max_depth.max(path.len());
                                local.trivial += rec.trivial as u64;
                                local.steps += rec.steps;
                                local.states.extend(rec.states.drain(..));
                                local.outcomes.extend(rec.outcome);
                                for k in rec.known.drain(..) {
                                    *local.known.entry(k).or_default() += 1;
                                }
                                let choices: Vec<u32> = path.iter().map(|x| x.0).collect();
                                if want && local.samples.len() < 4 {
                                    local.samples.push(match rec.note.take() {
                                        Some(n) => json!({"choices": choices, "case": n}),
                                        None => json!({"choices": choices}),
                                    });
                                }
                                if let Err(message) = res {
                                    let mut found = found.lock().unwrap();
                                    let better = match &*found {
                                        Some(x) => choices < x.choices,
                                        None => true,
                                    };
                                    if better {
                                        *found = Some(Found {
                                            space: name.to_owned(),
                                            choices: choices.clone(),
                                            message,
                                        });
                                    }
                                }
                                for i in (prefix.len()..path.len()).rev() {
                                    if path[i].1 > 1 {
                                        new.push((i, path[i].1));
                                    }
                                }
                                let mut q = queue.lock().unwrap();
                                // deepest alternatives last, so that they are explored first
                                for (i, n) in new.into_iter().rev() {
                                    q.tasks.push(Task {
                                        prefix: choices[..i].to_vec(),
                                        next: 1,
                                        n,
                                    });
                                }
                            }
                            *self.shared.busy[slot].lock().unwrap() = None;
                            let mut q = queue.lock().unwrap();
                            q.active -= 1;
                            drop(q);
                            cond.notify_all();
                        }
                    })
                    .unwrap();
            }
        });
        let mut stats = stats.into_inner().unwrap();
        self.found = found.into_inner().unwrap();
        let late = late.into_inner();
        stats.complete = self.found.is_none() && !late;
        self.late |= late;
        stats.wall = start.elapsed().as_secs_f64();
        stats.samples.sort_by_key(|x| x.to_string());
        stats.samples.truncate(3);
        eprintln!(
            "[{}] {name}: {} executions, {} steps, {} states, {} outcomes, {:.1} s",
            self.shared.property,
            stats.executions,
            stats.steps,
            stats.states.len(),
            stats.outcomes.len(),
            stats.wall
        );
        if late {
            eprintln!("[{}] {name}: not all of it was explored in {DEADLINE:?}", self.shared.property);
        }
        if let Some(x) = &self.found {
            // the same choices once more
            let mut again = 0;
            for _ in 0..3 {
                *self.shared.busy[0].lock().unwrap() =
                    Some((Instant::now(), name.to_owned(), x.choices.clone()));
                again += Self::once(&f, &x.choices, false).2.is_err() as u32;
            }
            *self.shared.busy[0].lock().unwrap() = None;
            let path = self.shared.replay_file(x, &format!("{again} of 3"));
            println!("violation in space {name}: {}", x.message);
            println!("choices: {:?} (reproduced {again} of 3)", x.choices);
            println!("VIOLATION property={} replay={path}", self.shared.property);
        }
        self.spaces.push((name.to_owned(), what.to_owned(), stats));
    }

    /// Explores `f` for every index below `n`.
    pub fn each<F>(&mut self, name: &str, what: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Chooser) -> Result<(), String> + Sync,
    {
        self.space(name, what, |ch| {
            let i = ch.choose(n);
            f(i, ch)
        })
    }
}

fn known_findings(verif: &str, property: &str) -> Vec<Json> {
    let text = std::fs::read_to_string(format!("{verif}/known_findings.json")).unwrap_or_default();
    let json: Json = serde_json::from_str(&text).unwrap_or(Json::Null);
    json["known"]
        .as_array()
        .map(|x| x.iter().filter(|x| x["property"] == property).cloned().collect())
        .unwrap_or_default()
}

/// Runs the check `f` of `property` and exits.
pub fn main(property: &str, level: Level, f: impl Fn(&mut Run)) -> ! {
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_owned());
    let args: Vec<String> = std::env::args().collect();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    if let Some(i) = args.iter().position(|x| x == "--replay") {
        let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let j: Json = serde_json::from_str(&text).expect("replay file");
        if j["tier"] == "thorough" {
            tier = Tier::Thorough;
        } else {
            tier = Tier::Quick;
        }
        replay = Some((
            j["space"].as_str().unwrap().to_owned(),
            j["choices"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_u64().unwrap() as u32)
                .collect(),
        ));
    }
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8));
    let shared = Arc::new(Shared {
        property: property.to_owned(),
        tier,
        seed,
        start: Instant::now(),
        verif: verif.clone(),
        fatal: AtomicBool::new(false),
        busy: (0..threads.max(1)).map(|_| Mutex::new(None)).collect(),
    });
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|x| format!("at {}:{}", x.file(), x.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(at));
        if std::env::var_os("MC_BACKTRACE").is_some() {
            eprintln!("{info}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    {
        let shared = shared.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            for b in &shared.busy {
                let cur = b.lock().unwrap().clone();
                if let Some((at, space, choices)) = cur {
                    if at.elapsed() > HANG {
                        shared.fatal(&space, &choices, "the execution does not end (endless loop)");
                    }
                }
            }
        });
    }
    let mut run = Run {
        shared: shared.clone(),
        level,
        threads: threads.max(1),
        spaces: Vec::new(),
        found: None,
        replay,
        replayed: None,
        known: known_findings(&verif, property),
        late: false,
        extra: Default::default(),
    };
    f(&mut run);
    if run.replay.is_some() {
        match run.replayed {
            Some(Some(message)) => {
                println!("violation: {message}");
                std::process::exit(1);
            }
            Some(None) => {
                println!("no violation");
                std::process::exit(0);
            }
            None => {
                println!("no such space");
                std::process::exit(2);
            }
        }
    }
    // known findings: every signature that was observed has to be listed
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    for (_, _, s) in &run.spaces {
        for (k, v) in &s.known {
            *seen.entry(k.clone()).or_default() += v;
        }
    }
    let mut violations = run.found.is_some() as u64;
    for k in &run.known {
        let sig = k["signature"].as_str().unwrap_or_default();
        if seen.contains_key(sig) || run.found.is_some() {
            println!(
                "KNOWN-FINDING: property={property} {}",
                k["what"].as_str().unwrap_or(sig)
            );
        }
    }
    for (k, n) in &seen {
        if !run.known.iter().any(|x| x["signature"] == k.as_str()) {
            let found = Found {
                space: "known".to_owned(),
                choices: Vec::new(),
                message: format!("{k} ({n} times)"),
            };
            let path = shared.replay_file(&found, "-");
            println!("violation: {k} ({n} executions)");
            println!("VIOLATION property={property} replay={path}");
            violations += 1;
        }
    }
    write_evidence(&run, violations, &seen);
    let _ = std::io::stdout().flush();
    std::process::exit((violations > 0) as i32)
}

fn write_evidence(run: &Run, violations: u64, seen: &BTreeMap<String, u64>) {
    let mut executions = 0;
    let mut trivial = 0;
    let mut steps = 0;
    let mut states = 0;
    let mut outcomes = 0;
    let mut samples = Vec::new();
    let mut spaces = Vec::new();
    for (name, what, s) in &run.spaces {
        executions += s.executions;
        trivial += s.trivial;
        steps += s.steps;
        states += s.states.len() as u64;
        outcomes += s.outcomes.len() as u64;
        for x in &s.samples {
            samples.push(json!({"space": name, "execution": x}));
        }
        spaces.push(json!({
            "name": name,
            "bounds": what,
            "executions": s.executions,
            "steps": s.steps,
            "distinct_states": s.states.len(),
            "distinct_outcomes": s.outcomes.len(),
            "longest_choice_sequence": s.max_depth,
            "exhausted": s.complete,
            "wall_s": (s.wall * 1000.0).round() / 1000.0,
        }));
    }
    let exhaustive = run.found.is_none() && !run.late;
    let mut coverage = serde_json::Map::new();
    match run.level.level {
        "model_checking" => {
            coverage.insert("states".into(), json!(states));
            coverage.insert("transitions".into(), json!(steps));
            coverage.insert("traces_validated_against_impl".into(), json!(executions - trivial));
            coverage.insert("executions".into(), json!(executions));
            coverage.insert("distinct_outcomes".into(), json!(outcomes));
        }
        _ => {
            coverage.insert("evaluations".into(), json!(executions));
            coverage.insert("distinct_nontrivial".into(), json!(executions - trivial));
            coverage.insert("steps".into(), json!(steps));
            coverage.insert("distinct_outcomes".into(), json!(outcomes));
            if states != 0 {
                coverage.insert("distinct_states".into(), json!(states));
            }
        }
    }
    coverage.insert("rule".into(), json!(run.level.rule));
    coverage.insert("exhaustive".into(), json!(exhaustive));
    coverage.insert("spaces".into(), json!(spaces));
    coverage.insert("samples".into(), json!(samples));
    if !seen.is_empty() {
        coverage.insert("known_findings_observed".into(), json!(seen));
    }
    for (k, v) in &run.extra {
        coverage.insert(k.clone(), v.clone());
    }
    let j = json!({
        "property": run.shared.property,
        "tier": if run.quick() { "quick" } else { "thorough" },
        "seed": run.shared.seed,
        "level": run.level.level,
        "coverage": coverage,
        "assumptions": run.level.assumptions,
        "wall_s": run.shared.start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = format!("{}/evidence", run.shared.verif);
    let _ = std::fs::create_dir_all(&dir);
    let suffix = std::env::var("MC_EVIDENCE_SUFFIX").unwrap_or_default();
    std::fs::write(
        format!("{dir}/{}{suffix}.json", run.shared.property),
        serde_json::to_string_pretty(&j).unwrap(),
    )
    .expect("evidence file");
}
