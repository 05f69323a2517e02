//! Case engine: choice sequences, bounded-exhaustive and seeded-random drivers,
//! shrinking, watchdog, replay.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// Execution context handed to a suite: a source of bounded choices plus a trace.
pub struct Ctx {
    data: Vec<u32>,
    pos: usize,
    bounds: Vec<u32>,
    rng: Option<Rng>,
    pub exhaustive: bool,
    tracing: bool,
    pub trace: Vec<String>,
    /// Number of contract clauses evaluated.
    pub clauses: u64,
    /// When false the suite must stop (exhaustive prefix pruning).
    pub pruned: bool,
    /// Coverage labels
    pub labels: BTreeMap<&'static str, u64>,
}

impl Ctx {
    fn new(data: Vec<u32>, rng: Option<Rng>, exhaustive: bool, tracing: bool) -> Self {
        Ctx {
            data,
            pos: 0,
            bounds: vec![],
            rng,
            exhaustive,
            tracing,
            trace: vec![],
            clauses: 0,
            pruned: false,
            labels: BTreeMap::new(),
        }
    }
    /// A choice in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        let n = (n.max(1)) as u32;
        let v = if self.pos < self.data.len() {
            let v = self.data[self.pos] % n;
            self.data[self.pos] = v;
            v
        } else {
            let v = match &mut self.rng {
                Some(r) => (r.next() % n as u64) as u32,
                None => 0,
            };
            self.data.push(v);
            v
        };
        self.bounds.push(n);
        self.pos += 1;
        v as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability 1/n; false is the "simple" choice.
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == n - 1
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let tot: usize = w.iter().sum();
        let mut v = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.below(xs.len());
        xs[i].clone()
    }
    pub fn t(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    pub fn last(&self) -> &str {
        self.trace.last().map_or("", |s| s.as_str())
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn n(&mut self, k: u64) {
        self.clauses += k;
    }
}

pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    /// What the suite enumerates / bounds, for the evidence file.
    pub bound: &'static str,
    pub f: fn(&mut Ctx) -> R,
    pub random: u64,
    pub exhaustive: u64,
}

#[derive(Clone)]
enum Origin {
    Seed(u64),
    Data(Vec<u32>),
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

/// Runs code under contract "does not panic"; returns the panic message otherwise.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        format!(
            "panicked: {} at {}",
            panic_msg(e),
            LAST_PANIC.with(|p| p.borrow().clone())
        )
    })
}

fn exec(f: fn(&mut Ctx) -> R, ctx: &mut Ctx) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panicked: {} at {}",
            panic_msg(e),
            LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

pub struct SuiteReport {
    pub name: &'static str,
    pub bound: &'static str,
    pub random_cases: u64,
    pub exhaustive_cases: u64,
    pub exhausted: bool,
    pub clauses: u64,
    pub labels: BTreeMap<&'static str, u64>,
}

pub struct Failure {
    pub suite: &'static str,
    pub message: String,
    pub choices: Vec<u32>,
    pub exhaustive: bool,
    pub trace: Vec<String>,
}

fn shrink(f: fn(&mut Ctx) -> R, data: Vec<u32>, exh: bool, msg: String) -> (Vec<u32>, String) {
    let start = Instant::now();
    let mut best = data;
    let mut best_msg = msg;
    let try_one = |d: Vec<u32>| -> Option<(Vec<u32>, String)> {
        let mut c = Ctx::new(d, None, exh, false);
        match exec(f, &mut c) {
            Ok(()) => None,
            Err(m) => {
                c.data.truncate(c.pos);
                Some((c.data, m))
            }
        }
    };
    // hangs make shrinking impossible; the caller never shrinks those
    let mut improved = true;
    while improved && start.elapsed() < Duration::from_secs(6) {
        improved = false;
        let mut size = best.len().max(1);
        while size >= 1 && start.elapsed() < Duration::from_secs(6) {
            let mut i = 0;
            while i + size <= best.len() && start.elapsed() < Duration::from_secs(6) {
                let mut d = best.clone();
                d.drain(i..i + size);
                if let Some((d2, m)) = try_one(d) {
                    if d2.len() < best.len() {
                        best = d2;
                        best_msg = m;
                        improved = true;
                        continue;
                    }
                }
                i += size.max(1);
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() || start.elapsed() > Duration::from_secs(6) {
                break;
            }
            if best[i] == 0 {
                continue;
            }
            for v in [0, best[i] / 2, best[i] - 1] {
                if i >= best.len() || v >= best[i] {
                    continue;
                }
                let mut d = best.clone();
                d[i] = v;
                if let Some((d2, m)) = try_one(d) {
                    if d2.len() < best.len() || (d2.len() == best.len() && d2 < best) {
                        best = d2;
                        best_msg = m;
                        improved = true;
                        break;
                    }
                }
            }
        }
    }
    (best, best_msg)
}

/// Runs one case from explicit choices with tracing.
pub fn replay(s: &Suite, choices: Vec<u32>, exh: bool) -> (R, Vec<String>) {
    let mut c = Ctx::new(choices, None, exh, true);
    let r = exec(s.f, &mut c);
    (r, c.trace)
}

pub fn replay_seed(s: &Suite, seed: u64) -> (R, Vec<String>, Vec<u32>) {
    let mut c = Ctx::new(vec![], Some(Rng::new(seed)), false, true);
    let r = exec(s.f, &mut c);
    (r, c.trace, c.data)
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, name: &str, i: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hash(name));
    let a = r.next();
    a ^ i.wrapping_mul(0xD1342543DE82EF95)
}

struct Slot {
    cur: Mutex<Option<(Instant, Origin, bool)>>,
}

pub fn run_suite(
    s: &Suite,
    seed: u64,
    scale: f64,
    deadline: Instant,
    work: &str,
) -> (SuiteReport, Option<Failure>) {
    const T: usize = 8;
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    let total = (s.random as f64 * scale) as u64;
    let fail: Mutex<Option<(u8, Vec<u32>, bool, String)>> = Mutex::new(None);
    let slots: Vec<Slot> = (0..T).map(|_| Slot { cur: Mutex::new(None) }).collect();
    let clauses = AtomicU64::new(0);
    let rand_done = AtomicU64::new(0);
    let exh_done = AtomicU64::new(0);
    let exh_complete = AtomicU64::new(0);
    let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let live = AtomicU64::new(T as u64);
    let exh_limit = (s.exhaustive as f64 * scale) as u64;
    let hang: Mutex<Option<(Origin, bool)>> = Mutex::new(None);

    std::thread::scope(|scope| {
        for tid in 0..T {
            let (stop, next, fail, slots) = (&stop, &next, &fail, &slots);
            let (clauses, rand_done, exh_done, exh_complete) =
                (&clauses, &rand_done, &exh_done, &exh_complete);
            let labels = &labels;
            let live = &live;
            let path = format!("{work}/cur_{tid}");
            let builder = std::thread::Builder::new().stack_size(16 << 20);
            builder
                .spawn_scoped(scope, move || {
                    use std::os::unix::fs::FileExt;
                    let curf = std::fs::OpenOptions::new()
                        .create(true)
                        .truncate(true)
                        .write(true)
                        .open(&path)
                        .ok();
                    let note = |o: &Origin, exh: bool| {
                        if let Some(f) = &curf {
                            let line = match o {
                                Origin::Seed(s_) => format!("{} seed {}\n", s.name, s_),
                                Origin::Data(d) => format!("{} data {:?}\n", s.name, d),
                            };
                            let _ = f.write_at(line.as_bytes(), 0);
                            let _ = f.set_len(line.len() as u64);
                        }
                        *slots[tid].cur.lock().unwrap() = Some((Instant::now(), o.clone(), exh));
                    };
                    let mut my_labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut ncl = 0;
                    // Phase 1: bounded exhaustive, partitioned over threads by the first choices.
                    if exh_limit > 0 {
                        let mut data: Vec<u32> = vec![];
                        let mut count = 0u64;
                        loop {
                            if stop.load(Ordering::Relaxed)
                                || count >= exh_limit / T as u64
                                || Instant::now() > deadline
                            {
                                break;
                            }
                            let o = Origin::Data(data.clone());
                            note(&o, true);
                            let mut c = Ctx::new(data.clone(), None, true, false);
                            let r = exec(s.f, &mut c);
                            ncl += c.clauses;
                            for (k, v) in c.labels {
                                *my_labels.entry(k).or_insert(0) += v;
                            }
                            c.data.truncate(c.pos);
                            // partition: three-level prefix
                            let mut key = 0u64;
                            let lv = c.data.len().min(3);
                            for i in 0..lv {
                                key = key * c.bounds[i] as u64 + c.data[i] as u64;
                            }
                            let mine = key % T as u64 == tid as u64;
                            if mine || c.data.is_empty() {
                                count += 1;
                                exh_done.fetch_add(1, Ordering::Relaxed);
                                if let Err(m) = r {
                                    *fail.lock().unwrap() = Some((0, c.data.clone(), true, m));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                            let mut i = if mine { c.data.len() } else { lv };
                            let mut done = true;
                            while i > 0 {
                                i -= 1;
                                if c.data[i] + 1 < c.bounds[i] {
                                    c.data.truncate(i + 1);
                                    c.data[i] += 1;
                                    done = false;
                                    break;
                                }
                            }
                            if done {
                                exh_complete.fetch_add(1, Ordering::Relaxed);
                                break;
                            }
                            data = c.data;
                        }
                    }
                    // Phase 2: seeded random.
                    loop {
                        if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        let sd = case_seed(seed, s.name, i);
                        note(&Origin::Seed(sd), false);
                        let mut c = Ctx::new(vec![], Some(Rng::new(sd)), false, false);
                        let r = exec(s.f, &mut c);
                        ncl += c.clauses;
                        for (k, v) in c.labels {
                            *my_labels.entry(k).or_insert(0) += v;
                        }
                        rand_done.fetch_add(1, Ordering::Relaxed);
                        if let Err(m) = r {
                            c.data.truncate(c.pos);
                            *fail.lock().unwrap() = Some((1, c.data, false, m));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    *slots[tid].cur.lock().unwrap() = None;
                    clauses.fetch_add(ncl, Ordering::Relaxed);
                    let mut l = labels.lock().unwrap();
                    for (k, v) in my_labels {
                        *l.entry(k).or_insert(0) += v;
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for sl in &slots {
                let g = sl.cur.lock().unwrap();
                if let Some((t, o, exh)) = &*g {
                    if t.elapsed() > Duration::from_secs(20) {
                        let h = (o.clone(), *exh);
                        drop(g);
                        *hang.lock().unwrap() = Some(h);
                        // Cannot stop the thread: report and exit the process.
                        let (o, exh) = hang.lock().unwrap().clone().unwrap();
                        let (choices, seed_) = match o {
                            Origin::Data(d) => (d, None),
                            Origin::Seed(sd) => (vec![], Some(sd)),
                        };
                        let v = serde_json::json!({
                            "property": s.prop, "suite": s.name, "exhaustive": exh,
                            "choices": choices, "seed": seed_, "trace": [],
                            "message": "did not terminate within 20 s (termination clause of the contract)"
                        });
                        let _ = std::fs::write(format!("{work}/failure.json"), v.to_string());
                        println!("HANG {}", s.name);
                        std::process::exit(1);
                    }
                }
            }
        }
    });
    let rep = SuiteReport {
        name: s.name,
        bound: s.bound,
        random_cases: rand_done.into_inner(),
        exhaustive_cases: exh_done.into_inner(),
        exhausted: exh_complete.into_inner() == T as u64,
        clauses: clauses.into_inner(),
        labels: labels.into_inner().unwrap(),
    };
    let f = fail.into_inner().unwrap();
    let failure = f.map(|(_, data, exh, m)| {
        let (d, m) = shrink(s.f, data, exh, m);
        let (r, trace) = replay(s, d.clone(), exh);
        let message = match r {
            Err(m) => m,
            Ok(()) => m,
        };
        Failure {
            suite: s.name,
            message,
            choices: d,
            exhaustive: exh,
            trace,
        }
    });
    (rep, failure)
}
