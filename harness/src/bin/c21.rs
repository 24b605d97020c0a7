//! C21: concurrent use of one issuer or user behaves like sequential use.
//!
//! Threads run scripts of operations on shared objects; what each returned is compared afterwards with the same operation
//! (and generator state) run alone.  The same program is also built with the thread sanitizer; clocks are relaxed atomics,
//! so that they do not order what they time.
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use std::thread;
use vh::capi;
use vh::proto::*;
use vh::*;

static CLOCK: AtomicUsize = AtomicUsize::new(0);
static PROGRESS: AtomicUsize = AtomicUsize::new(0);

/// Holds threads in the middle of operations: a timer sends each a signal some time after it began, and its handler waits until
/// all of them are held (or a while has passed), so that they are inside at the same time, each stopped at some instruction.
mod hold {
    use std::sync::atomic::{AtomicUsize, Ordering};
    pub static WANTED: AtomicUsize = AtomicUsize::new(0);
    static HELD: AtomicUsize = AtomicUsize::new(0);
    pub static MOST: AtomicUsize = AtomicUsize::new(0);
    static OPENED: AtomicUsize = AtomicUsize::new(0);
    #[repr(C)]
    struct SigEvent { value: usize, signo: i32, notify: i32, tid: i32, pad: [i32; 11] }
    #[repr(C)]
    struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
    #[repr(C)]
    struct Times { interval: [i64; 2], value: [i64; 2] }
    extern "C" {
        fn sigaction(sig: i32, act: *const SigAction, old: *mut u8) -> i32;
        fn timer_create(clock: i32, ev: *const SigEvent, id: *mut usize) -> i32;
        fn timer_settime(id: usize, flags: i32, t: *const Times, old: *mut u8) -> i32;
        fn timer_delete(id: usize) -> i32;
        fn syscall(n: i64, ...) -> i64;
        fn nanosleep(t: *const [i64; 2], rem: *mut u8) -> i32;
    }
    const SIG: i32 = 40;
    extern "C" fn held(_: i32) {
        let wanted = WANTED.load(Ordering::Relaxed);
        let n = HELD.fetch_add(1, Ordering::Relaxed) + 1;
        MOST.fetch_max_(n);
        let opened = OPENED.load(Ordering::Relaxed);
        if n >= wanted { OPENED.fetch_add(1, Ordering::Relaxed); }
        for _ in 0..60 {
            if OPENED.load(Ordering::Relaxed) != opened { break; }
            unsafe { nanosleep(&[0, 500_000], 0 as *mut u8); }
        }
        HELD.fetch_sub(1, Ordering::Relaxed);
    }
    trait Max { fn fetch_max_(&self, n: usize); }
    impl Max for AtomicUsize {
        fn fetch_max_(&self, n: usize) {
            let mut m = self.load(Ordering::Relaxed);
            while m < n {
                match self.compare_exchange_weak(m, n, Ordering::Relaxed, Ordering::Relaxed) { Ok(_) => break, Err(x) => m = x }
            }
        }
    }
    pub struct Timer(usize);
    impl Timer {
        pub fn new() -> Timer {
            unsafe {
                let act = SigAction { handler: held as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x1000_0000, restorer: 0 };
                assert!(sigaction(SIG, &act, 0 as *mut u8) == 0, "HARNESS: sigaction");
                let mut id = 0usize;
                let ev = SigEvent { value: 0, signo: SIG, notify: 4, tid: syscall(186) as i32, pad: [0; 11] };
                assert!(timer_create(1, &ev, &mut id) == 0, "HARNESS: timer_create");
                Timer(id)
            }
        }
        pub fn set(&self, ns: i64) {
            unsafe { timer_settime(self.0, 0, &Times { interval: [0, 0], value: [0, ns] }, 0 as *mut u8); }
        }
    }
    impl Drop for Timer { fn drop(&mut self) { unsafe { timer_delete(self.0); } } }
}

/// Everything that is shared in a round.
struct Shared {
    w: Vec<World>,
    numbers: Vec<Vec<u8>>,
    users: Vec<Vec<SignalUser>>,
    entries: Vec<Vec<RosterEntryCommitment>>,
    issuances: Vec<Vec<SignalCredentialIssuance>>,
    shown: Vec<Vec<SignalCredentialPresentation>>,
    verified: Vec<Vec<VerifiedSignalCredential>>,
    key: elgamal::Keypair,
    api: Option<capi::Api>,
}

fn shared(rng: &mut ChaChaRng, api: Option<capi::Api>) -> Shared {
    let params = SystemParameters::hunt_and_peck(rng);
    let mut w = vec![World::with(params, rng), World::with(params, rng)];
    if rng.next_u32() % 2 == 0 { w[1] = World::new(rng); }
    let n0 = number(rng);
    let n1 = other_number(rng, &n0);
    let numbers = vec![n0, n1];
    let mut s = Shared { w, numbers, users: vec![], entries: vec![], issuances: vec![], shown: vec![], verified: vec![],
        key: elgamal::Keypair::generate(rng), api };
    for w in &s.w {
        let mut us = vec![];
        let mut es = vec![];
        let mut is = vec![];
        let mut ps = vec![];
        let mut vs = vec![];
        for n in &s.numbers {
            let i = w.issuer.issue(n, rng).expect("issue");
            let mut u = w.user(n);
            u.obtain_finish(Some(&i)).expect("obtain");
            let e = w.entry(n, rng);
            let p = u.show(rng, &e).expect("show");
            vs.push(w.issuer.verify(p.clone()).expect("verify"));
            us.push(u);
            es.push(e);
            is.push(i);
            ps.push(p);
        }
        s.users.push(us);
        s.entries.push(es);
        s.issuances.push(is);
        s.shown.push(ps);
        s.verified.push(vs);
    }
    s
}

fn bytes_of(s: &Shared) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for w in &s.w { v.push(w.issuer.to_bytes()); v.push(w.params.to_bytes()); v.push(w.ip.to_bytes()); }
    for u in s.users.iter().flat_map(|x| x) { v.push(u.to_bytes()); }
    for e in s.entries.iter().flat_map(|x| x) { v.push(e.to_bytes()); }
    for i in s.issuances.iter().flat_map(|x| x) { v.push(i.to_bytes()); }
    for p in s.shown.iter().flat_map(|x| x) { v.push(p.to_bytes()); }
    for p in s.verified.iter().flat_map(|x| x) { v.push(p.to_bytes()); }
    v.push(s.key.to_bytes());
    v
}

const OPS: [&str; 14] = ["issue", "show", "verify", "verify an altered presentation", "verify with the other issuer",
    "roster membership", "roster membership of a mixed presentation", "obtain_finish", "obtain_finish of another's issuance",
    "roster entry", "issuer parameters and encodings", "MACs", "ElGamal", "C interface"];

/// Run one operation.  What it does is a function of the shared objects, `op` and `seed`, but for what the library draws itself.
/// The results are the bytes returned (or none, for an error), and whether the operation was one that should have succeeded.
fn run(s: &Shared, op: usize, seed: &[u8; 32]) -> (Option<Vec<u8>>, Option<bool>) {
    let mut rng = ChaChaRng::from_seed(*seed);
    let a = rng.next_u32() as usize % 2;
    let b = rng.next_u32() as usize % 2;
    let w = &s.w[a];
    match op {
        0 => (w.issuer.issue(&s.numbers[b], &mut rng).ok().map(|x| x.to_bytes()), Some(true)),
        1 => (s.users[a][b].show(&mut rng, &s.entries[a][b]).ok().map(|x| x.to_bytes()), Some(true)),
        2 => (w.issuer.verify(s.shown[a][b].clone()).ok().map(|x| x.to_bytes()), Some(true)),
        3 => {
            let mut x = s.shown[a][b].to_bytes();
            // Not the roster entry and its proof, which this operation does not check.
            let i = 256 + rng.next_u32() as usize % (256 * 8);
            x[i / 8] ^= 1 << (i % 8);
            (SignalCredentialPresentation::from_bytes(&x).ok().and_then(|p| w.issuer.verify(p).ok()).map(|x| x.to_bytes()), Some(false))
        }
        4 => (w.issuer.verify(s.shown[1 - a][b].clone()).ok().map(|x| x.to_bytes()), Some(false)),
        5 => (w.issuer.verify_roster_membership(&s.verified[a][b]).ok().map(|x| x.to_bytes()), Some(true)),
        6 => {
            let mut x = s.verified[a][b].to_bytes();
            let o = s.verified[if rng.next_u32() % 2 == 0 { a } else { 1 - a }][1 - b].to_bytes();
            if rng.next_u32() % 2 == 0 { x[..32].copy_from_slice(&o[..32]); } else { x[288..].copy_from_slice(&o[288..]); }
            let v = match VerifiedSignalCredential::from_bytes(&x) { Ok(v) => v, Err(_) => return (None, Some(false)) };
            (w.issuer.verify_roster_membership(&v).ok().map(|x| x.to_bytes()), Some(false))
        }
        7 => {
            let mut u = w.user(&s.numbers[b]);
            (u.obtain_finish(Some(&s.issuances[a][b])).ok().map(|_| u.to_bytes()), Some(true))
        }
        8 => {
            let mut u = w.user(&s.numbers[b]);
            let i = if rng.next_u32() % 2 == 0 { &s.issuances[a][1 - b] } else { &s.issuances[1 - a][b] };
            (u.obtain_finish(Some(i)).ok().map(|_| u.to_bytes()), Some(false))
        }
        9 => {
            let e = match RosterEntryCommitment::create(&s.numbers[b], &w.params, &mut rng) { Ok(e) => e, Err(_) => return (None, Some(true)) };
            let p = PhoneNumber::try_from_bytes(&s.numbers[b]).unwrap();
            let q = PhoneNumber::try_from_bytes(&s.numbers[1 - b]).unwrap();
            let old = &s.entries[a][b];
            let mut v = e.to_bytes();
            v.push(e.commitment.open(&p, &e.opening, &w.params.g, &w.params.h).is_ok() as u8);
            v.push(e.commitment.open(&q, &e.opening, &w.params.g, &w.params.h).is_ok() as u8);
            v.push(old.commitment.open(&p, &old.opening, &w.params.g, &w.params.h).is_ok() as u8);
            v.push(old.commitment.open(&q, &old.opening, &w.params.g, &w.params.h).is_ok() as u8);
            let good = v[v.len() - 4..] == [1, 0, 1, 0];
            (if good { Some(v) } else { None }, Some(true))
        }
        10 => {
            let mut v = w.issuer.get_issuer_parameters().to_bytes();
            v.extend(w.issuer.to_bytes());
            v.extend(bincode::serialize(&s.users[a][b]).unwrap());
            v.extend(serde_json::to_vec(&s.shown[a][b]).unwrap());
            let u: SignalUser = bincode::deserialize(&bincode::serialize(&s.users[a][b]).unwrap()).unwrap();
            v.push((u == s.users[a][b]) as u8);
            v.extend(String::from(s.users[a][b].phone_number.clone()).into_bytes());
            (Some(v), Some(true))
        }
        11 => {
            let k = &w.issuer.issuer.keypair.secret;
            let m = amacs::Message::from(PhoneNumber::try_from_bytes(&s.numbers[b]).unwrap());
            let o = amacs::Message::from(PhoneNumber::try_from_bytes(&s.numbers[1 - b]).unwrap());
            let t = k.mac(&m, &mut rng).unwrap();
            let r = amacs::Rerandomization::new(&mut rng).apply_to_tag(&t);
            let mut v = t.to_bytes();
            v.extend(r.to_bytes());
            let good = k.verify(&t, &m).is_ok() && k.verify(&r, &m).is_ok() && k.verify(&r, &o).is_err();
            v.extend(k.get_public_key(&w.params.h).to_bytes());
            (if good { Some(v) } else { None }, Some(true))
        }
        12 => {
            let p = PhoneNumber::try_from_bytes(&s.numbers[b]).unwrap();
            let c = p.encrypt(&s.key, &Ephemeral::new(&mut rng));
            let good = s.key.secret.decrypt(&c.0) == encode(&s.numbers[b]) * G;
            let mut v = enc(&c.0.commitment).to_vec();
            v.extend_from_slice(&enc(&c.0.encryption));
            (if good { Some(v) } else { None }, Some(true))
        }
        _ => {
            let api = match s.api { Some(ref a) => a, None => return (Some(vec![]), Some(true)) };
            let seed: [u8; 32] = rng.gen();
            let f = [1usize, 3, 4, 5, 6, 7, 8, 9, 10, 11][rng.next_u32() as usize % 10];
            let i = w.issuer.to_bytes();
            let args = match f {
                1 => vec![w.params.to_bytes(), seed.to_vec()],
                3 => vec![i],
                4 => vec![i, s.numbers[b].clone(), seed.to_vec()],
                5 => vec![i, s.shown[a][b].to_bytes()],
                6 => vec![i, s.verified[a][b].to_bytes()],
                7 => vec![s.numbers[b].clone(), w.params.to_bytes(), w.ip.to_bytes(), s.issuances[a][b].to_bytes()],
                8 => vec![s.users[a][b].to_bytes(), s.entries[a][b].to_bytes(), seed.to_vec()],
                9 => vec![s.numbers[b].clone(), w.params.to_bytes(), seed.to_vec()],
                10 => vec![s.entries[a][b].to_bytes()],
                _ => vec![s.entries[a][b].to_bytes(), s.numbers[b].clone(), w.params.to_bytes()],
            };
            match capi::c_call(api, f, &args) {
                Ok(Some(v)) => (if f != 11 || v[0] == 1 { Some(v) } else { None }, Some(true)),
                _ => (None, Some(true)),
            }
        }
    }
}

/// The proof scalars in a result, which are fresh every time.
fn fresh(op: usize, r: &[u8]) -> Vec<[u8; 32]> {
    let proofs: Vec<&[u8]> = match (op, r.len()) {
        (0, 328) => vec![&r[128..]],
        (1, 448) => vec![&r[128..]],
        (13, 328) => vec![&r[128..]],
        (13, 448) => vec![],
        _ => vec![],
    };
    proofs.iter().flat_map(|p| p.chunks(40)).map(|c| { let mut a = [0u8; 32]; a.copy_from_slice(&c[8..]); a }).collect()
}

#[derive(Clone)]
struct Event { thread: usize, op: usize, seed: [u8; 32], start: usize, end: usize, result: Option<Vec<u8>>, panicked: Option<String> }

fn main() {
    let ctx = Ctx::new("C21");
    let tsan = std::env::var("VH_TSAN").is_ok();
    let api = if std::env::var("VH_CDYLIB").is_ok() { Some(capi::open_api()) } else { None };

    // Nothing here takes long: if no operation ends for a long time, they wait for each other.
    thread::spawn(move || {
        let mut last = 0;
        let mut still = 0;
        loop {
            thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            still = if p == last { still + 1 } else { 0 };
            last = p;
            if still >= 90 {
                ctx.violation("no-progress", "no operation ended within 90 s of wall-clock time".to_string());
                ctx.finish("operations on shared objects");
            }
        }
    });

    let rounds = if tsan { if ctx.thorough { 60 } else { 6 } } else { ctx.n(24) };
    let holding = if tsan { 0 } else { ctx.n(4) };
    for round in 0..rounds + holding {
        let hold = round >= rounds;
        if !ctx.wants("round", round as u64) { continue; }
        if ctx.wall() > 500.0 { break; }
        ctx.set_case("round", round as u64);
        let mut rng = ctx.rng("round", round as u64);
        let storm = hold || round % 3 == 0; // all threads the same operation on the same objects
        let threads = if tsan { 6 } else if hold { [64usize, 200, 100, 300][(round - rounds) % 4] } else { [4usize, 8, 16, 32][round % 4] };
        let length = if tsan { 12 } else if hold { OPS.len() } else { 24 };
        hold::WANTED.store(threads, Ordering::Relaxed);
        hold::MOST.store(0, Ordering::Relaxed);
        let s = match ctx.guarded("setting up", || shared(&mut rng, api)) { Some(s) => Arc::new(s), None => continue };
        let before = bytes_of(&s);
        let barrier = Arc::new(Barrier::new(threads));
        let base: [u8; 32] = rng.gen();
        let first_op = rng.next_u32() as usize;
        let handles: Vec<_> = (0..threads).map(|t| {
            let s = s.clone();
            let barrier = barrier.clone();
            let mut trng = ChaChaRng::from_seed(rng.gen());
            let mut common = ChaChaRng::from_seed(base);
            thread::spawn(move || {
                let mut log = Vec::with_capacity(length);
                let timer = if hold { Some(hold::Timer::new()) } else { None };
                for k in 0..length {
                    let (op, seed): (usize, [u8; 32]) = if storm {
                        let mut seed: [u8; 32] = common.gen();
                        // The same objects; in half of the steps, the same generator state too.
                        if k % 2 == 0 { seed = trng.gen(); }
                        ((first_op + k) % OPS.len(), seed)
                    } else {
                        (trng.next_u32() as usize % OPS.len(), trng.gen())
                    };
                    if storm || k == 0 { barrier.wait(); }
                    match if hold { 9 } else { trng.next_u32() % 4 } {
                        0 => thread::yield_now(),
                        1 => for _ in 0..trng.next_u32() % 2000 { std::sync::atomic::spin_loop_hint() },
                        _ => {}
                    }
                    let start = CLOCK.fetch_add(1, Ordering::Relaxed);
                    if let Some(ref t) = timer { t.set(20_000 + trng.next_u32() as i64 % 600_000); }
                    let r = ctx.panics(|| run(&s, op, &seed));
                    if let Some(ref t) = timer { t.set(0); }
                    let end = CLOCK.fetch_add(1, Ordering::Relaxed);
                    PROGRESS.fetch_add(1, Ordering::Relaxed);
                    let (result, panicked) = match r { Ok((x, _)) => (x, None), Err(e) => (None, Some(e)) };
                    // A panic must not leave others at the barrier: carry on.
                    log.push(Event { thread: t, op, seed, start, end, result, panicked });
                }
                log
            })
        }).collect();
        let mut events: Vec<Event> = Vec::new();
        for h in handles {
            match h.join() { Ok(l) => events.extend(l), Err(_) => ctx.violation("panic", "a thread died".to_string()) }
        }
        events.sort_by_key(|e| e.start);
        if hold {
            ctx.evals("operations held in the middle at one time, at most (summed over rounds)", hold::MOST.load(Ordering::Relaxed) as u64);
        }

        // What was going on at the same time.
        let mut overlaps = 0u64;
        for (i, e) in events.iter().enumerate() {
            let mut set: Vec<usize> = vec![];
            for f in &events[i + 1..] {
                if f.start > e.end { break; }
                if f.thread != e.thread { overlaps += 1; set.push(f.op); }
            }
            ctx.eval(&format!("operations: {}", OPS[e.op]));
            let mut key = vec![e.op as u8];
            key.extend(set.iter().map(|x| *x as u8));
            ctx.seen("interleaving", &key);
        }
        ctx.evals("pairs of operations that overlapped in time", overlaps);
        ctx.sample("order of operations", || events.iter().take(20).map(|e| format!("{}:{}@{}-{}", e.thread, OPS[e.op], e.start, e.end)).collect::<Vec<_>>().join(" "));

        ctx.check(bytes_of(&s) == before, "shared-objects-changed", || "an issuer, user or message is not what it was".to_string());
        ctx.evals("shared objects compared", before.len() as u64);

        // The same operations alone.
        let mut scalars: HashSet<[u8; 32]> = HashSet::new();
        for e in &events {
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            let about = || format!("{} in thread {} (of {}), seed {}", OPS[e.op], e.thread, threads, hex(&e.seed));
            if let Some(ref p) = e.panicked {
                if p.contains("HARNESS") { ctx.harness_error(p.clone()); } else { ctx.violation("panic", format!("{}: {}", about(), p)); }
                continue;
            }
            let (x, should) = match ctx.panics(|| run(&s, e.op, &e.seed)) {
                Ok(x) => x,
                Err(p) => { ctx.violation("panic", format!("{} (alone): {}", about(), p)); continue; }
            };
            let y = if tsan { x.clone() } else { run(&s, e.op, &e.seed).0 };
            ctx.eval("results compared with those of the operation alone");
            ctx.check(Some(e.result.is_some()) == should, "wrong-outcome", || format!("{}: {}", about(), if e.result.is_some() { "success" } else { "failure" }));
            ctx.check(e.result.is_some() == x.is_some(), "differs-from-alone", || format!("{}: success {} and alone {}", about(), e.result.is_some(), x.is_some()));
            if let (&Some(ref a), &Some(ref b), &Some(ref c)) = (&e.result, &x, &y) {
                ctx.check(a.len() == b.len() && b.len() == c.len(), "differs-from-alone", || format!("{}: length", about()));
                if tsan || a.len() != b.len() || b.len() != c.len() { continue; }
                // Wherever two runs alone agree, this one does.
                let ok = (0..a.len()).all(|i| b[i] != c[i] || a[i] == b[i] || fresh_at(e.op, a.len(), i));
                ctx.check(ok, "differs-from-alone", || format!("{}: {} and alone {}", about(), hex(a), hex(b)));
            }
            for (k, r) in [&e.result, &x].iter().enumerate() {
                if k == 1 && tsan { continue; }
                if let Some(ref r) = r {
                    for f in fresh(e.op, r) {
                        ctx.eval("proof scalars");
                        ctx.check(scalars.insert(f), "randomness-shared", || format!("{}: {} was in another proof", about(), hex(&f)));
                    }
                }
            }
        }
        ctx.flush();
    }
    ctx.finish("4 to 32 threads (and 64 to 300, each stopped by a signal in the middle of each operation) run scripts of operations on two shared issuers and four users; distinct: sets of operations which \
                overlapped in time with an operation")
}

/// Is this byte of a result one of those that are random every time?  (Two runs alone may agree in single bytes by chance.)
fn fresh_at(op: usize, len: usize, i: usize) -> bool {
    match (op, len) {
        (0, 328) | (13, 328) => i >= 128,
        (1, 448) => i >= 128,
        (13, 448) => i >= 128,
        _ => false,
    }
}
