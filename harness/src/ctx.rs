use rand::{ChaChaRng, SeedableRng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::env;
use std::fs::OpenOptions;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::thread;
use std::time::{Duration, Instant};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("HARNESS: hex")).collect()
}

/// Everything a monitor needs: where its randomness comes from, and where it records what it saw.
pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    out: Mutex<std::fs::File>,
    counters: Mutex<BTreeMap<String, u64>>,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<BTreeMap<String, Vec<String>>>,
    violations: AtomicUsize,
    findings: Mutex<BTreeMap<String, u64>>,
    harness_errors: AtomicUsize,
    stopped_early: AtomicBool,
    start: Instant,
    deadline: Instant,
    replay: Option<(String, u64)>,
}

thread_local! {
    static CASE: RefCell<(String, u64)> = RefCell::new((String::new(), 0));
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static LOCAL: RefCell<(BTreeMap<String, u64>, Vec<u64>)> = RefCell::new((BTreeMap::new(), Vec::new()));
}

fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h = DefaultHasher::new();
    for p in parts {
        p.hash(&mut h);
    }
    h.finish()
}

fn take_panic(e: &Box<dyn std::any::Any + Send>) -> String {
    let msg = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(msg)
}

impl Ctx {
    pub fn new(prop: &'static str) -> &'static Ctx {
        let path = env::var("VH_OUT").unwrap_or_else(|_| "/dev/stderr".to_string());
        let out = OpenOptions::new().append(true).create(true).open(path).expect("HARNESS: VH_OUT");
        let seed = env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
        let budget: u64 = env::var("VH_BUDGET").ok().and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 600 } else { 300 });
        let replay = env::var("VH_REPLAY").ok().and_then(|s| {
            let mut it = s.splitn(2, ':');
            let phase = it.next()?.to_string();
            Some((phase, it.next()?.parse().ok()?))
        });
        // The library prints about errors it finds; keep that away from the verdict.
        if env::var("VH_KEEP_STDOUT").is_err() {
            unsafe {
                let fd = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
                libc::dup2(fd, 1);
                libc::close(fd);
            }
        }
        panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        }));
        let start = Instant::now();
        Box::leak(Box::new(Ctx {
            prop, seed, thorough,
            out: Mutex::new(out),
            counters: Mutex::new(BTreeMap::new()),
            distinct: Mutex::new(HashSet::new()),
            samples: Mutex::new(BTreeMap::new()),
            violations: AtomicUsize::new(0),
            findings: Mutex::new(BTreeMap::new()),
            harness_errors: AtomicUsize::new(0),
            stopped_early: AtomicBool::new(false),
            start,
            deadline: start + Duration::from_secs(budget),
            replay,
        }))
    }

    pub fn wall(&self) -> f64 {
        let d = self.start.elapsed();
        d.as_secs() as f64 + f64::from(d.subsec_nanos()) * 1e-9
    }

    /// How many cases to run: `quick`, or many more in a thorough run.
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough { quick * 20 } else { quick }
    }

    fn line(&self, v: Value) {
        let mut f = self.out.lock().unwrap_or_else(|e| e.into_inner());
        let s = format!("{}\n", v);
        let _ = f.write_all(s.as_bytes());
        let _ = f.flush();
    }

    /// One thing the monitor evaluated.
    pub fn eval(&self, class: &str) {
        self.evals(class, 1);
    }

    pub fn evals(&self, class: &str, n: u64) {
        LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            if let Some(x) = l.0.get_mut(class) {
                *x += n;
                return;
            }
            l.0.insert(class.to_string(), n);
        });
    }

    /// Something distinct and not trivial which was exercised (an input, a state, an event).
    pub fn seen(&self, class: &str, key: &[u8]) {
        let h = hash64(&[class.as_bytes(), key]);
        LOCAL.with(|l| l.borrow_mut().1.push(h));
        LOCAL.with(|l| {
            if l.borrow().1.len() > 4096 {
                self.flush_distinct(&mut l.borrow_mut().1);
            }
        });
    }

    fn flush_distinct(&self, v: &mut Vec<u64>) {
        let mut d = self.distinct.lock().unwrap_or_else(|e| e.into_inner());
        d.extend(v.drain(..));
    }

    /// Give what this thread counted to the whole.  `par` does so for its threads.
    pub fn flush(&self) {
        LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            let mut c = self.counters.lock().unwrap_or_else(|e| e.into_inner());
            for (k, v) in l.0.iter() {
                *c.entry(k.clone()).or_insert(0) += v;
            }
            l.0.clear();
            self.flush_distinct(&mut l.1);
        });
    }

    pub fn sample<F: FnOnce() -> String>(&self, class: &str, f: F) {
        let mut s = self.samples.lock().unwrap_or_else(|e| e.into_inner());
        let e = s.entry(class.to_string()).or_insert_with(Vec::new);
        if e.len() < 2 {
            e.push(f());
        }
    }

    pub fn violation(&self, sig: &str, detail: String) {
        let n = self.violations.fetch_add(1, Ordering::SeqCst);
        let (phase, case) = CASE.with(|c| c.borrow().clone());
        // Known findings are recognised by their signature, so that each of them needs a line.
        if n < 2000 {
            let mut detail = detail;
            if detail.len() > 4000 {
                let mut n = 4000;
                while !detail.is_char_boundary(n) { n -= 1; }
                detail.truncate(n);
            }
            self.line(json!({"t": "viol", "sig": sig, "detail": detail, "phase": phase, "case": case}));
        }
    }

    /// Record a violation which may be a recorded finding, of which there can be very many: a few of them are enough,
    /// and they do not end the run.
    pub fn finding(&self, sig: &str, detail: String) {
        self.eval("occurrences of what may be a recorded finding");
        let n = {
            let mut f = self.findings.lock().unwrap_or_else(|e| e.into_inner());
            let n = f.entry(sig.to_string()).or_insert(0u64);
            *n += 1;
            *n
        };
        if n <= 20 {
            let (phase, case) = CASE.with(|c| c.borrow().clone());
            self.line(json!({"t": "viol", "sig": sig, "detail": detail, "phase": phase, "case": case}));
        }
    }

    /// Record a violation unless `ok`.
    pub fn check<F: FnOnce() -> String>(&self, ok: bool, sig: &str, detail: F) -> bool {
        if !ok {
            self.violation(sig, detail());
        }
        ok
    }

    pub fn harness_error(&self, msg: String) {
        self.harness_errors.fetch_add(1, Ordering::SeqCst);
        self.line(json!({"t": "error", "detail": msg}));
    }

    /// The verdict cannot be reached; say why, and stop.
    pub fn inconclusive(&self, msg: String) -> ! {
        self.harness_error(msg);
        unsafe { libc::_exit(2) }
    }

    pub fn rng(&self, phase: &str, case: u64) -> ChaChaRng {
        let mut s = [0u8; 32];
        for i in 0..4u8 {
            let h = hash64(&[self.prop.as_bytes(), phase.as_bytes(), &self.seed.to_le_bytes()[..],
                             &case.to_le_bytes()[..], &[i]]);
            s[8 * i as usize..8 * i as usize + 8].copy_from_slice(&h.to_le_bytes());
        }
        ChaChaRng::from_seed(s)
    }

    /// Run `f`; a panic in it is a violation, as nothing the monitors do may make the library panic.
    pub fn guarded<T, F: FnOnce() -> T>(&self, what: &str, f: F) -> Option<T> {
        match panic::catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(e) => {
                let msg = take_panic(&e);
                if msg.contains("HARNESS") {
                    self.harness_error(format!("{}: {}", what, msg));
                } else {
                    self.violation("panic", format!("{}: panicked: {}", what, msg));
                }
                None
            }
        }
    }

    /// Run `f` and give back whether it panicked, without judging it.
    pub fn panics<T, F: FnOnce() -> T>(&self, f: F) -> Result<T, String> {
        panic::catch_unwind(AssertUnwindSafe(f)).map_err(|e| take_panic(&e))
    }

    pub fn set_case(&self, phase: &str, case: u64) {
        CASE.with(|c| *c.borrow_mut() = (phase.to_string(), case));
    }

    pub fn wants(&self, phase: &str, case: u64) -> bool {
        match self.replay {
            None => true,
            Some((ref p, c)) => p == phase && c == case,
        }
    }

    /// Run `n` cases on all cores, each with a generator of its own which depends on the seed, the phase and the case.
    pub fn par<F>(&'static self, phase: &'static str, n: usize, f: F)
    where
        F: Fn(u64, &mut ChaChaRng) + Sync + Send + 'static,
    {
        self.par_on(phase, n, 8, f)
    }

    pub fn par_on<F>(&'static self, phase: &'static str, n: usize, threads: usize, f: F)
    where
        F: Fn(u64, &mut ChaChaRng) + Sync + Send + 'static,
    {
        let f: &'static F = Box::leak(Box::new(f));
        let next: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
        let mut handles = Vec::new();
        for _ in 0..threads.min(n).max(1) {
            handles.push(thread::Builder::new().stack_size(4 << 20).spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    if Instant::now() > self.deadline {
                        self.stopped_early.store(true, Ordering::SeqCst);
                        break;
                    }
                    if self.violations.load(Ordering::SeqCst) > 2000 {
                        break;
                    }
                    if !self.wants(phase, i as u64) {
                        continue;
                    }
                    self.set_case(phase, i as u64);
                    let mut rng = self.rng(phase, i as u64);
                    self.guarded(phase, || f(i as u64, &mut rng));
                }
                self.flush();
            }).expect("HARNESS: spawn"));
        }
        for h in handles {
            if h.join().is_err() {
                self.harness_error("a worker thread died".to_string());
            }
        }
    }

    /// Run `f` on this thread as one case.
    pub fn single<F>(&'static self, phase: &'static str, f: F)
    where
        F: FnOnce(&mut ChaChaRng),
    {
        if self.wants(phase, 0) {
            self.set_case(phase, 0);
            let mut rng = self.rng(phase, 0);
            self.guarded(phase, || f(&mut rng));
        }
        self.flush();
    }

    pub fn counter(&self, class: &str) -> u64 {
        self.flush();
        *self.counters.lock().unwrap_or_else(|e| e.into_inner()).get(class).unwrap_or(&0)
    }

    /// Write the summary and end the process.  `rule` says how cases are made and what makes one count as distinct.
    pub fn finish(&self, rule: &str) -> ! {
        self.flush();
        let counters = self.counters.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let distinct = self.distinct.lock().unwrap_or_else(|e| e.into_inner()).len();
        let samples = self.samples.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let evaluations: u64 = counters.values().sum();
        let mut flat = Vec::new();
        for (k, v) in samples {
            for s in v {
                flat.push(format!("{}: {}", k, s));
            }
        }
        if self.replay.is_none() && (evaluations == 0 || distinct == 0) {
            self.harness_error("the monitor observed nothing".to_string());
        }
        self.line(json!({
            "t": "done", "evaluations": evaluations, "distinct": distinct, "rule": rule, "samples": flat,
            "observed": counters, "wall": self.wall(), "stopped_early": self.stopped_early.load(Ordering::SeqCst),
            "violations": self.violations.load(Ordering::SeqCst),
        }));
        let code = if self.violations.load(Ordering::SeqCst) > 0 { 1 }
            else if self.harness_errors.load(Ordering::SeqCst) > 0 { 2 } else { 0 };
        unsafe { libc::_exit(code) }
    }
}
