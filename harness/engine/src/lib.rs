//! A small stateless model checker.
//!
//! A *model* is a closed, deterministic function of a [`Ctx`]; every point at which the environment,
//! the input or the user code could behave in more than one way is a call to [`Ctx::choose`]. The
//! explorer enumerates the whole tree of choices depth first (every execution runs to completion on
//! the real implementation), so a completed run covers every behaviour within the model's bounds.

pub mod xmlt;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-1a with a final mix: deterministic across runs.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Identifies the specific failing input; matched against the known-findings file.
    pub key: String,
    pub what: String,
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail { key: String::new(), what: format!($($t)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { $crate::fail!($($t)*) } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    states: U64Set,
    state_salt: u64,
    outcomes: BTreeMap<&'static str, u64>,
    pub tier: Tier,
    pub verbose: bool,
    desc: String,
    /// checks made against the oracle within executions
    pub compared: u64,
}

const STATE_CAP: usize = 4_000_000;

impl Ctx {
    fn new(tier: Tier) -> Self {
        Ctx {
            prefix: Vec::new(),
            trace: Vec::new(),
            states: U64Set::default(),
            state_salt: 0,
            outcomes: BTreeMap::new(),
            tier,
            verbose: false,
            desc: String::new(),
            compared: 0,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn by_tier<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }

    /// One of `0..n`; the explorer tries all of them.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: choose(0)");
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("engine: divergence while replaying: choice {c} of {n} at {i}");
        }
        self.trace.push((c, n as u32));
        c as usize
    }
    #[inline]
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    #[inline]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.choose(hi_incl - lo + 1)
    }
    /// Every permutation of `0..n`.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut left: Vec<usize> = (0..n).collect();
        let mut out = Vec::with_capacity(n);
        while !left.is_empty() {
            let i = self.choose(left.len());
            out.push(left.remove(i));
        }
        out
    }

    /// Records a state of the reference model reached in this execution.
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < STATE_CAP {
            let mut h = Fnv::default();
            self.state_salt.hash(&mut h);
            t.hash(&mut h);
            self.states.insert(h.finish());
        }
    }
    /// Classifies what happened in this execution.
    pub fn outcome(&mut self, o: &'static str) {
        *self.outcomes.entry(o).or_insert(0) += 1;
    }
    /// Describes the case; only evaluated when it will be shown.
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            if !self.desc.is_empty() {
                self.desc.push_str("\n");
            }
            let s = f();
            self.desc.push_str(&s);
        }
    }
}

#[derive(Clone)]
pub struct Model {
    pub name: String,
    pub bounds: String,
    pub body: Arc<dyn Fn(&mut Ctx) -> R + Send + Sync>,
}
pub fn model<F>(name: &str, bounds: &str, f: F) -> Model
where
    F: Fn(&mut Ctx) -> R + Send + Sync + 'static,
{
    Model {
        name: name.to_owned(),
        bounds: bounds.to_owned(),
        body: Arc::new(f),
    }
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
    static EXPECT_PANIC: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string panic)".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("panic: {msg} at {loc}"));
            }
        });
    }));
}

/// Runs the code under test, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_owned())),
    }
}

fn run_once(m: &Model, ctx: &mut Ctx) -> R {
    ctx.trace.clear();
    ctx.desc.clear();
    match no_panic(|| (m.body)(ctx)) {
        Ok(r) => r,
        Err(p) => {
            if p.contains("engine: ") {
                eprintln!("ENGINE ERROR in model {}: {p}\nchoices {:?}", m.name, ctx.prefix);
                std::process::exit(3);
            }
            Err(Fail {
                key: String::new(),
                what: p,
            })
        }
    }
}

struct Job {
    path: Vec<(u32, u32)>,
    base: usize,
    fresh: bool,
}

struct Shared {
    q: Mutex<(VecDeque<Job>, usize)>, // queue, idle workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    done: AtomicBool,
    deadline: Instant,
    capped: AtomicBool,
    fails: Mutex<Vec<(Vec<u32>, Fail)>>,
    known: Mutex<BTreeMap<String, (u64, String)>>,
    samples: Mutex<Vec<Vec<u32>>>,
    execs: AtomicU64,
}

struct Slot {
    cur: Mutex<(Vec<u32>, Option<Instant>)>,
}

#[derive(Default)]
struct ModelResult {
    name: String,
    bounds: String,
    executions: u64,
    transitions: u64,
    states: u64,
    compared: u64,
    max_choices: usize,
    outcomes: BTreeMap<&'static str, u64>,
    exhaustive: bool,
    wall: f64,
    samples: Vec<String>,
}

fn describe_path(m: &Model, path: &[u32], tier: Tier) -> (R, String) {
    let mut ctx = Ctx::new(tier);
    ctx.verbose = true;
    ctx.prefix = path.to_vec();
    let r = run_once(m, &mut ctx);
    (r, ctx.desc)
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    tier: Tier,
    workers: usize,
    deadline: Instant,
    known: Vec<String>,
    traced: Option<String>,
    exec_limit: Duration,
}

fn explore(m: &Model, o: &Opts) -> (ModelResult, Option<(Vec<u32>, Fail, String)>, BTreeMap<String, (u64, String)>) {
    let t0 = Instant::now();
    let sh = Shared {
        q: Mutex::new((VecDeque::new(), 0)),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        done: AtomicBool::new(false),
        deadline: o.deadline,
        capped: AtomicBool::new(false),
        fails: Mutex::new(Vec::new()),
        known: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(Vec::new()),
        execs: AtomicU64::new(0),
    };
    sh.q.lock().unwrap().0.push_back(Job {
        path: Vec::new(),
        base: 0,
        fresh: true,
    });
    let slots: Vec<Slot> = (0..o.workers)
        .map(|_| Slot {
            cur: Mutex::new((Vec::new(), None)),
        })
        .collect();
    let mut res = ModelResult {
        name: m.name.clone(),
        bounds: m.bounds.clone(),
        ..Default::default()
    };
    let mut all_states = U64Set::default();
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for w in 0..o.workers {
            let sh = &sh;
            let slots = &slots;
            let salt = hash_of(m.name.as_str());
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || worker(m, o, sh, &slots[w], w, salt))
                    .unwrap(),
            );
        }
        // Watchdog.
        let sh2 = &sh;
        let slots2 = &slots;
        let name = m.name.clone();
        let wd = s.spawn(move || {
            while !sh2.done.load(Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(200));
                for sl in slots2 {
                    if let Ok(g) = sl.cur.try_lock() {
                        if let Some(t) = g.1 {
                            if t.elapsed() > o.exec_limit {
                                let p: Vec<String> = g.0.iter().map(|x| x.to_string()).collect();
                                println!("HANG\t{}\t{}", name, p.join(","));
                                std::process::exit(86);
                            }
                        }
                    }
                }
            }
        });
        for h in hs {
            let (ctx, execs, edges, maxlen) = h.join().expect("engine worker");
            res.executions += execs;
            res.transitions += edges;
            res.max_choices = res.max_choices.max(maxlen);
            res.compared += ctx.compared;
            for (k, v) in ctx.outcomes {
                *res.outcomes.entry(k).or_insert(0) += v;
            }
            if all_states.is_empty() {
                all_states = ctx.states;
            } else {
                all_states.extend(ctx.states);
            }
        }
        sh.done.store(true, Ordering::Relaxed);
        wd.thread().unpark();
    });
    res.states = all_states.len() as u64;
    res.exhaustive = !sh.capped.load(Ordering::Relaxed) && !sh.stop.load(Ordering::Relaxed);
    res.wall = t0.elapsed().as_secs_f64();
    for p in sh.samples.lock().unwrap().iter() {
        let (_, d) = describe_path(m, p, o.tier);
        res.samples.push(d);
    }
    let mut fails = sh.fails.into_inner().unwrap();
    fails.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    let f = fails.into_iter().next().map(|(p, f)| {
        // Replay before trusting it.
        let mut again = 0;
        let mut desc = String::new();
        for _ in 0..3 {
            let (r, d) = describe_path(m, &p, o.tier);
            desc = d;
            if r.is_err() {
                again += 1;
            }
        }
        let f = Fail {
            what: if again == 3 {
                f.what
            } else {
                format!("{} [reproduced in {again} of 3 replays]", f.what)
            },
            key: f.key,
        };
        (p, f, desc)
    });
    (res, f, sh.known.into_inner().unwrap())
}

fn worker(m: &Model, o: &Opts, sh: &Shared, slot: &Slot, w: usize, salt: u64) -> (Ctx, u64, u64, usize) {
    let mut ctx = Ctx::new(o.tier);
    ctx.state_salt = salt;
    let (mut execs, mut edges, mut maxlen) = (0u64, 0u64, 0usize);
    let tracefile = o
        .traced
        .as_ref()
        .map(|d| std::fs::File::create(format!("{d}/w{w}")).expect("trace file"));
    'outer: loop {
        let job = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    sh.cv.notify_all();
                    break 'outer;
                }
                if let Some(j) = g.0.pop_front() {
                    break j;
                }
                g.1 += 1;
                sh.hungry.store(g.1, Ordering::Relaxed);
                if g.1 == o.workers {
                    sh.stop_done();
                    sh.cv.notify_all();
                    break 'outer;
                }
                g = sh.cv.wait(g).unwrap();
                if sh.finished() {
                    break 'outer;
                }
                g.1 -= 1;
                sh.hungry.store(g.1, Ordering::Relaxed);
            }
        };
        let Job { mut path, mut base, fresh } = job;
        let mut first = fresh;
        loop {
            // Execute `path` (then zeros).
            ctx.prefix.clear();
            ctx.prefix.extend(path.iter().map(|x| x.0));
            {
                let mut g = slot.cur.lock().unwrap();
                g.0.clear();
                g.0.extend_from_slice(&ctx.prefix);
                g.1 = Some(Instant::now());
            }
            if let Some(f) = &tracefile {
                use std::os::unix::fs::FileExt;
                let p: Vec<String> = ctx.prefix.iter().map(|x| x.to_string()).collect();
                let line = format!("{}\t{}\n", m.name, p.join(","));
                let _ = f.set_len(0);
                let _ = f.write_all_at(line.as_bytes(), 0);
            }
            let r = run_once(m, &mut ctx);
            slot.cur.lock().unwrap().1 = None;
            execs += 1;
            let new_edges = ctx.trace.len().saturating_sub(path.len()) + if first { 0 } else { 1 };
            first = false;
            edges += new_edges as u64;
            maxlen = maxlen.max(ctx.trace.len());
            let n = sh.execs.fetch_add(1, Ordering::Relaxed);
            if n == 1 || n == 50 || n == 3000 {
                sh.samples.lock().unwrap().push(ctx.trace.iter().map(|x| x.0).collect());
            }
            if let Err(f) = r {
                if !f.key.is_empty() && o.known.iter().any(|k| *k == f.key) {
                    let mut g = sh.known.lock().unwrap();
                    let e = g.entry(f.key.clone()).or_insert((0, f.what.clone()));
                    e.0 += 1;
                } else {
                    sh.fails
                        .lock()
                        .unwrap()
                        .push((ctx.trace.iter().map(|x| x.0).collect(), f));
                    sh.stop.store(true, Ordering::Relaxed);
                    let _g = sh.q.lock().unwrap();
                    sh.cv.notify_all();
                    break 'outer;
                }
            }
            if sh.stop.load(Ordering::Relaxed) {
                break 'outer;
            }
            if execs % 64 == 0 && Instant::now() > sh.deadline {
                sh.capped.store(true, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
                let _g = sh.q.lock().unwrap();
                sh.cv.notify_all();
                break 'outer;
            }
            std::mem::swap(&mut path, &mut ctx.trace);
            // Donate the shallowest open branch to a hungry worker.
            if sh.hungry.load(Ordering::Relaxed) > 0 {
                if let Some(i) = (base..path.len()).find(|&i| path[i].0 + 1 < path[i].1) {
                    let mut g = sh.q.lock().unwrap();
                    if g.0.len() < o.workers {
                        let mut p = path[..=i].to_vec();
                        p[i].0 += 1;
                        g.0.push_back(Job {
                            path: p,
                            base: i,
                            fresh: false,
                        });
                        sh.cv.notify_one();
                        drop(g);
                        base = i + 1;
                    }
                }
            }
            // Next path.
            while path.len() > base && {
                let l = path[path.len() - 1];
                l.0 + 1 >= l.1
            } {
                path.pop();
            }
            if path.len() <= base {
                break;
            }
            path.last_mut().unwrap().0 += 1;
        }
    }
    (ctx, execs, edges, maxlen)
}

impl Shared {
    fn stop_done(&self) {
        self.done.store(true, Ordering::Relaxed);
    }
    fn finished(&self) -> bool {
        self.done.load(Ordering::Relaxed) || self.stop.load(Ordering::Relaxed)
    }
}

/// Entry point of every harness binary. `registry` maps a property id to its models.
pub fn main(registry: fn(&str, Tier) -> Vec<Model>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let mut tier = Tier::Quick;
    let mut out = None;
    let mut known = Vec::new();
    let mut traced = None;
    let mut one: Option<(String, Vec<u32>)> = None;
    let mut only: Option<String> = None;
    let mut cap = 600.0f64;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--out" => {
                i += 1;
                out = Some(args[i].clone());
            }
            "--known" => {
                i += 1;
                known.push(args[i].clone());
            }
            "--traced" => {
                i += 1;
                traced = Some(args[i].clone());
            }
            "--cap" => {
                i += 1;
                cap = args[i].parse().unwrap();
            }
            "--only" => {
                i += 1;
                only = Some(args[i].clone());
            }
            "--one" => {
                let m = args[i + 1].clone();
                let p = args[i + 2]
                    .split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| x.parse().unwrap())
                    .collect();
                one = Some((m, p));
                i += 2;
            }
            p => prop = p.to_owned(),
        }
        i += 1;
    }
    let models = registry(&prop, tier);
    if models.is_empty() {
        eprintln!("no models for {prop}");
        std::process::exit(2);
    }
    if let Some((name, path)) = one {
        let m = models.iter().find(|m| m.name == name).expect("engine: model");
        let m = m.clone();
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || describe_path(&m, &path, tier))
            .unwrap();
        let (r, d) = h.join().unwrap();
        println!("{d}");
        match r {
            Ok(()) => println!("OK"),
            Err(f) => {
                println!("FAIL {}", f.what);
                std::process::exit(1);
            }
        }
        return;
    }
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let t0 = Instant::now();
    let o = Opts {
        tier,
        workers,
        deadline: t0 + Duration::from_secs_f64(cap),
        known,
        traced,
        exec_limit: Duration::from_secs(30),
    };
    let mut results = Vec::new();
    let mut failure = None;
    let mut knowns: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for m in &models {
        if let Some(only) = &only {
            if !m.name.contains(only.as_str()) {
                continue;
            }
        }
        let (r, f, k) = explore(m, &o);
        eprintln!(
            "  {:32} execs={} states={} transitions={} outcomes={:?} {}{:.1}s",
            r.name,
            r.executions,
            r.states,
            r.transitions,
            r.outcomes,
            if r.exhaustive { "" } else { "NOT-EXHAUSTED " },
            r.wall
        );
        results.push(r);
        for (key, (n, what)) in k {
            let e = knowns.entry(key).or_insert((0, what));
            e.0 += n;
        }
        if let Some((p, f, d)) = f {
            failure = Some((m.name.clone(), p, f, d));
            break;
        }
    }
    let mut j = String::from("{\"models\":[");
    for (i, r) in results.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        j.push_str(&format!(
            "{{\"name\":{},\"bounds\":{},\"executions\":{},\"transitions\":{},\"states\":{},\"comparisons\":{},\"max_choices_per_execution\":{},\"exhaustive\":{},\"wall_s\":{:.3},\"outcomes\":{{{}}},\"samples\":[{}]}}",
            esc(&r.name), esc(&r.bounds), r.executions, r.transitions, r.states, r.compared, r.max_choices, r.exhaustive, r.wall,
            r.outcomes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
            r.samples.iter().map(|s| esc(&clip(s))).collect::<Vec<_>>().join(",")
        ));
    }
    j.push_str("],\"known\":{");
    j.push_str(
        &knowns
            .iter()
            .map(|(k, (n, w))| format!("{}:[{},{}]", esc(k), n, esc(w)))
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("},\"failure\":");
    match &failure {
        None => j.push_str("null"),
        Some((m, p, f, d)) => j.push_str(&format!(
            "{{\"model\":{},\"choices\":[{}],\"what\":{},\"key\":{},\"case\":{}}}",
            esc(m),
            p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            esc(&f.what),
            esc(&f.key),
            esc(d)
        )),
    }
    j.push('}');
    if let Some(out) = out {
        std::fs::write(out, j).expect("write out");
    }
    if let Some((m, p, f, d)) = failure {
        println!("FAIL model={m} choices={p:?}\n{d}\n=> {}", f.what);
        std::process::exit(1);
    }
}

fn clip(s: &str) -> String {
    if s.chars().count() > 600 {
        let mut t: String = s.chars().take(600).collect();
        t.push_str("…");
        t
    } else {
        s.to_owned()
    }
}
