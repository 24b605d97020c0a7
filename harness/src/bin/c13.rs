//! C13: no input makes a decoder or verifier panic, hang or exhaust memory.
#![feature(thread_local)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;
use vh::proto::*;
use vh::types::*;
use vh::*;

/// Counts what the current thread has allocated.
struct Counting;

#[thread_local]
static mut CURRENT: isize = 0;
#[thread_local]
static mut PEAK: isize = 0;

unsafe fn note(d: isize) {
    CURRENT += d;
    if CURRENT > PEAK { PEAK = CURRENT; }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as isize); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as isize); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both may exist at once
        note(n as isize);
        let q = System.realloc(p, l, n);
        note(-(l.size() as isize));
        q
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

/// When each thread started what it is doing, in milliseconds since the start (0: nothing), and what that is.
const SLOTS: usize = 16;
const Z: AtomicUsize = AtomicUsize::new(0);
static BUSY: [AtomicUsize; SLOTS] = [Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z, Z];
static NEXT: AtomicUsize = AtomicUsize::new(0);
#[thread_local]
static mut SLOT: usize = usize::max_value();

struct Doing { what: &'static str, input: Vec<u8> }
struct Watch { start: Instant, doing: Vec<Mutex<Doing>>, max_ratio: Mutex<(f64, String)>, max_cpu: Mutex<(f64, String)>, growth: Mutex<(f64, String)> }

fn slot() -> usize {
    unsafe {
        if SLOT == usize::max_value() { SLOT = NEXT.fetch_add(1, Ordering::SeqCst) % SLOTS; }
        SLOT
    }
}

/// How long one operation may take on any machine, in seconds of real time.
const HANG: usize = 60;

/// Run one operation of the library under observation.
fn watched<T>(ctx: &Ctx, w: &Watch, what: &'static str, input: &[u8], size: usize, f: &Fn() -> T) -> Option<T> {
    let s = slot();
    {
        let mut d = w.doing[s].lock().unwrap();
        d.what = what;
        d.input.clear();
        d.input.extend_from_slice(&input[..input.len().min(2000)]);
    }
    ctx.eval(what);
    // A slow run may be the machine's fault, the quickest of a few is not.
    let mut seconds = 1e9;
    let mut result = None;
    let mut peak = 0;
    for turn in 0..3 {
        BUSY[s].store(1 + w.start.elapsed().as_secs() as usize * 1000, Ordering::SeqCst);
        let t = cpu();
        let before = unsafe { PEAK = CURRENT; CURRENT };
        let r = ctx.panics(|| f());
        peak = unsafe { PEAK - before };
        let t = cpu() - t;
        BUSY[s].store(0, Ordering::SeqCst);
        if t < seconds { seconds = t; }
        result = match r {
            Err(e) => {
                ctx.violation("panic", format!("{} of {} bytes {}: {}", what, input.len(), hex(&input[..input.len().min(800)]), e));
                return None;
            }
            Ok(x) => Some(x),
        };
        if seconds < 0.2 + 20e-6 * size as f64 || turn == 2 { break; }
    }
    let allowed = 16384 + 40 * size as isize;
    ctx.check(peak <= allowed, "memory-out-of-proportion", || format!(
        "{} of {} bytes {} allocated {} bytes at once", what, size, hex(&input[..input.len().min(800)]), peak));
    ctx.check(seconds < 0.5 + 25e-6 * size as f64, "time-out-of-proportion", || format!(
        "{} of {} bytes {} took {} s", what, size, hex(&input[..input.len().min(800)]), seconds));
    let ratio = peak as f64 / (1000.0 + size as f64);
    let mut m = w.max_ratio.lock().unwrap();
    if ratio > m.0 { *m = (ratio, format!("{} of {} bytes allocated {}", what, size, peak)); }
    drop(m);
    let mut m = w.max_cpu.lock().unwrap();
    if seconds > m.0 { *m = (seconds, format!("{} of {} bytes took {} s", what, size, seconds)); }
    result
}

/// Change some bytes, by blocks, lengths, bits and splices.
fn mutate(rng: &mut ChaChaRng, b: &mut Vec<u8>, pool: &[(&'static str, Vec<u8>)]) {
    for _ in 0..1 + rng.next_u32() % 4 {
        let n = b.len();
        match rng.next_u32() % 14 {
            0 if n > 0 => { let i = rng.next_u32() as usize % n; b[i] ^= 1 << (rng.next_u32() % 8); }
            1 => b.truncate(rng.next_u32() as usize % (n + 1)),
            2 => { let e = rng.next_u32() as usize % 100; b.resize(n + e, 0); }
            3 | 4 if n >= 32 => {
                let o = if rng.next_u32() % 4 == 0 { rng.next_u32() as usize % (n - 31) } else { 32 * (rng.next_u32() as usize % (n / 32)) };
                let v = match rng.next_u32() % 6 { 0 => [0u8; 32], 1 => enc(&rpoint(rng)), 2 => special(rng).to_bytes(), 3 => [0xff; 32], 4 => enc(&G), _ => Scalar::random(rng).to_bytes() };
                b[o..o + 32].copy_from_slice(&v);
            }
            5 if n >= 8 => {
                let o = 8 * (rng.next_u32() as usize % (n / 8));
                let v: u64 = match rng.next_u32() % 6 { 0 => 0, 1 => 31, 2 => 33, 3 => 1 << (rng.next_u32() % 64), 4 => u64::max_value(), _ => rng.next_u64() };
                b[o..o + 8].copy_from_slice(&v.to_le_bytes());
            }
            6 => { let o = &pool[rng.next_u32() as usize % pool.len()].1; b.extend_from_slice(o); }
            7 => { let o = &pool[rng.next_u32() as usize % pool.len()].1; let c = 32 * (rng.next_u32() as usize % (n / 32 + 1)); b.truncate(c); b.extend_from_slice(&o[c.min(o.len())..]); }
            8 => { let l = rng.next_u32() as usize % 600; b.resize(l, 0); rng.fill_bytes(b); }
            9 if n >= 32 => { let o = 32 * (rng.next_u32() as usize % (n / 32)); b.drain(o..o + 32); }
            10 if n >= 32 => { let o = 32 * (rng.next_u32() as usize % (n / 32)); let t = b[o..o + 32].to_vec(); for (i, x) in t.into_iter().enumerate() { b.insert(o + i, x); } }
            11 => b.clear(),
            12 if n >= 64 => { let (x, y) = (32 * (rng.next_u32() as usize % (n / 32)), 32 * (rng.next_u32() as usize % (n / 32))); let t = b[x..x + 32].to_vec(); b[y..y + 32].copy_from_slice(&t); }
            _ => {}
        }
    }
}

/// A deserializer for a sequence which claims to be of another length than it is.
struct Lying(Vec<u8>, usize);
impl Iterator for Lying {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { self.0.pop() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, Some(self.1)) }
}

/// Values some step may be given.
struct Junk {
    params: Vec<SystemParameters>,
    ips: Vec<IssuerParameters>,
    issuers: Vec<SignalIssuer>,
    issuances: Vec<CredentialIssuance>,
    presentations: Vec<SignalCredentialPresentation>,
    verified: Vec<VerifiedSignalCredential>,
    users: Vec<SignalUser>,
    entries: Vec<RosterEntryCommitment>,
    keypairs: Vec<amacs::Keypair>,
    tags: Vec<amacs::Tag>,
    requests: Vec<CredentialRequest>,
    elgamal: Vec<elgamal::Keypair>,
    numbers: Vec<PhoneNumber>,
}

fn gather<T>(pool: &[(&'static str, Vec<u8>)], name: &str, rng: &mut ChaChaRng, f: fn(&[u8]) -> Option<T>) -> Vec<T> {
    let mut out = Vec::new();
    let mine: Vec<&Vec<u8>> = pool.iter().filter(|(n, _)| *n == name).map(|(_, b)| b).collect();
    for b in &mine { out.extend(f(b)); }
    // changed ones which still decode
    for _ in 0..40 {
        if out.len() > 8 { break; }
        let mut b = mine[rng.next_u32() as usize % mine.len()].clone();
        for _ in 0..1 + rng.next_u32() % 3 {
            let n = b.len();
            if n < 32 { continue; }
            let mut o = 32 * (rng.next_u32() as usize % (n / 32));
            if (name == "CredentialIssuance" && o >= 128) || (name.ends_with("Presentation") && o >= 96) { o = n - 32; }
            let v = match rng.next_u32() % 4 { 0 => [0u8; 32], 1 => enc(&rpoint(rng)), 2 => special(rng).to_bytes(), _ => enc(&G) };
            b[o..o + 32].copy_from_slice(&v);
        }
        out.extend(f(&b));
    }
    if name.starts_with("amacs::") && !name.ends_with("Tag") || name == "CredentialRequest" {
        for k in &[0usize, 1, 2, 5, 40] { for z in &[0u8, 1] {
            let mut b = Vec::new();
            for _ in 0..*k { b.extend_from_slice(&if *z == 0 { [0u8; 32] } else if name == "amacs::PublicKey" { enc(&rpoint(rng)) } else { Scalar::random(rng).to_bytes() }); }
            out.extend(f(&b));
        } }
    }
    out
}

/// Every way to put a value made of the others in place of one of the points of an encoding.
fn relatives(b: &[u8], extra: &[RistrettoPoint]) -> Vec<Vec<u8>> {
    let points: Vec<(usize, RistrettoPoint)> = (0..b.len() / 32).filter_map(|i| {
        let mut x = [0u8; 32];
        x.copy_from_slice(&b[32 * i..32 * i + 32]);
        CompressedRistretto(x).decompress().map(|p| (32 * i, p))
    }).collect();
    let mut out = Vec::new();
    for (o, p) in &points {
        let mut with = vec![RistrettoPoint::identity(), -p, p + p, -(p + p)];
        for q in points.iter().filter(|(x, _)| x != o).map(|(_, q)| q).chain(extra) {
            with.extend_from_slice(&[*q, -q, p + q, p - q, q - p]);
        }
        for q in with {
            let mut c = b.to_vec();
            c[*o..*o + 32].copy_from_slice(&enc(&q));
            out.push(c);
        }
    }
    out
}

fn pick<'a, T>(v: &'a [T], rng: &mut ChaChaRng) -> &'a T {
    &v[rng.next_u32() as usize % v.len()]
}

fn main() {
    let ctx = Ctx::new("C13");
    let w: &'static Watch = Box::leak(Box::new(Watch {
        start: Instant::now(),
        doing: (0..SLOTS).map(|_| Mutex::new(Doing { what: "", input: Vec::with_capacity(2000) })).collect(),
        max_ratio: Mutex::new((0.0, String::new())),
        max_cpu: Mutex::new((0.0, String::new())),
        growth: Mutex::new((0.0, String::new())),
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = w.start.elapsed().as_secs() as usize * 1000;
        for s in 0..SLOTS {
            let t = BUSY[s].load(Ordering::SeqCst);
            if t != 0 && now > t + HANG * 1000 {
                let d = w.doing[s].lock().unwrap();
                ctx.violation("hang", format!("{} did not end within {} s, of {}", d.what, HANG, hex(&d.input)));
                unsafe { libc::_exit(1) }
            }
        }
    });

    // Decoders.
    ctx.par("decoders", ctx.n(350), move |_, rng| {
        let pool = values(rng);
        let kinds = kinds();
        for k in &kinds {
            for j in 0..12 {
                let mine: Vec<&Vec<u8>> = pool.iter().filter(|(n, _)| *n == k.name).map(|(_, b)| b).collect();
                let mut b = mine[rng.next_u32() as usize % mine.len()].clone();
                if j > 0 { mutate(rng, &mut b, &pool); }
                ctx.seen(k.name, &b);
                ctx.sample(k.name, || hex(&b));
                let r = watched(ctx, w, "from_bytes", &b, b.len(), &|| (k.decode)(&b));
                if let Some(Some(_)) = r { ctx.eval("decoded"); }
                // through serde
                let mut framed = (b.len() as u64).to_le_bytes().to_vec();
                framed.extend(&b);
                if k.name.ends_with("Proof") { framed = b.clone(); }
                match rng.next_u32() % 6 {
                    0 => { let l = rng.next_u64() >> (rng.next_u32() % 64); framed[..].iter_mut().zip(l.to_le_bytes().iter()).for_each(|(x, y)| *x = *y); }
                    1 => { framed.truncate(rng.next_u32() as usize % (framed.len() + 1)); }
                    2 => framed.extend(b.clone()),
                    3 => mutate(rng, &mut framed, &pool),
                    _ => {}
                }
                watched(ctx, w, "bincode", &framed, framed.len(), &|| (k.from_bincode)(&framed));
                let mut json: Vec<u8> = serde_json::to_vec(&b).expect("HARNESS: json");
                match rng.next_u32() % 8 {
                    0 => { let i = rng.next_u32() as usize % json.len(); json[i] = [b'[', b']', b'{', b'"', b'-', b'.', b'e', 0xff, b'9', b' ', b'n'][rng.next_u32() as usize % 11]; }
                    1 => json.truncate(rng.next_u32() as usize % json.len()),
                    2 => json = b"{\"x\":[1,2]}".to_vec(),
                    3 => json = serde_json::to_vec(&hex(&b)).unwrap(),
                    4 => json = [b"[".to_vec(), b"256,".to_vec(), b"-1,1.5,null]".to_vec()].concat(),
                    5 => json = [&b"[[[[[[1]]]]]]"[..], &b"null"[..], &b"true"[..], &b"1e999"[..], &b"\"\\u0000\""[..], &b""[..], &b"[300]"[..]][rng.next_u32() as usize % 7].to_vec(),
                    _ => {}
                }
                let text = String::from_utf8_lossy(&json).to_string();
                watched(ctx, w, "JSON", &json, text.len(), &|| (k.from_json)(&text));
                watched(ctx, w, "JSON reader", &json, json.len(), &|| (k.from_json_reader)(&json));
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(&text) {
                    watched(ctx, w, "JSON value", &json, json.len(), &|| (k.from_value)(v.clone()));
                }
            }
        }
    });

    // Sequences which lie about their length.
    ctx.par("lying", ctx.n(60), move |_, rng| {
        use serde::Deserialize;
        let pool = values(rng);
        for (name, b) in &pool {
            for hint in &[0usize, 1 << 20, 1 << 40, usize::max_value(), b.len() + 1] {
                let mut r = b.clone();
                r.reverse();
                macro_rules! one { ($t:ty) => {{
                    watched(ctx, w, "sequence", b, b.len(), &|| {
                        let d = serde::de::value::SeqDeserializer::<_, serde::de::value::Error>::new(Lying(r.clone(), *hint));
                        <$t>::deserialize(d).is_ok()
                    });
                }} }
                ctx.seen("lying", &[name.as_bytes(), &hint.to_le_bytes(), b].concat());
                match *name {
                    "SignalUser" => one!(SignalUser), "User" => one!(User), "CredentialIssuance" => one!(CredentialIssuance), "Credential" => one!(Credential),
                    "amacs::Tag" => one!(amacs::Tag), "SignalCredentialPresentation" => one!(SignalCredentialPresentation), "SignalIssuer" => one!(SignalIssuer),
                    "SystemParameters" => one!(SystemParameters), "amacs::PublicKey" => one!(amacs::PublicKey), "RosterEntryCommitment" => one!(RosterEntryCommitment),
                    "PhoneNumber" => one!(PhoneNumber), "CredentialRequest" => one!(CredentialRequest), "CommittedPhoneNumber" => one!(CommittedPhoneNumber),
                    "elgamal::Keypair" => one!(elgamal::Keypair), "VerifiedSignalCredential" => one!(VerifiedSignalCredential), _ => {}
                }
            }
        }
    });

    // Large inputs, for what they cost.
    ctx.par("large", if ctx.thorough { 28 * 12 } else { 28 * 4 }, move |case, rng| {
        let kinds = kinds();
        let k = &kinds[case as usize % 28];
        let pool = values(rng);
        let mine = &pool.iter().find(|(n, _)| *n == k.name).unwrap().1;
        let size = [65536usize, 65536 + 32, 20011, 131072, 1 << 20, 1 << 18, 1 << 18, 1 << 18, 1 << 19, 1 << 20, 77777, 1 << 21][case as usize / 28];
        for style in 0..4 {
            let mut b = vec![0u8; size];
            match style {
                0 => {}
                1 => { let p = enc(&G); b.chunks_mut(32).for_each(|c| { let n = c.len(); c.copy_from_slice(&p[..n]) }); }
                2 => { let s = Scalar::random(rng).to_bytes(); b.chunks_mut(32).for_each(|c| { let n = c.len(); c.copy_from_slice(&s[..n]) }); }
                _ => { if mine.is_empty() { continue; } let n = mine.len(); for (i, x) in b.iter_mut().enumerate() { *x = mine[i % n]; } }
            }
            ctx.seen("large", &[k.name.as_bytes(), &size.to_le_bytes(), &[style]].concat());
            watched(ctx, w, "large from_bytes", &b, size, &|| (k.decode)(&b).is_some());
            let mut framed = (b.len() as u64).to_le_bytes().to_vec();
            framed.extend(&b);
            watched(ctx, w, "large bincode", &framed, size, &|| (k.from_bincode)(&framed).is_some());
            if style == 1 && size < 100_000 {
                let json = serde_json::to_string(&b).unwrap();
                watched(ctx, w, "large JSON", json.as_bytes(), json.len(), &|| (k.from_json)(&json).is_some());
            }
        }
        // deeply nested
        let deep: String = std::iter::repeat('[').take(100_000).collect();
        watched(ctx, w, "large JSON", deep.as_bytes(), deep.len(), &|| (k.from_json)(&deep).is_some());
    });

    // Values in a relation to each other or to those they are used with, as equal, opposite or cancelling ones.
    ctx.par("related", ctx.n(60), move |_, rng| {
        let params = SystemParameters { g: G, h: rpoint(rng) };
        let issuer = SignalIssuer::create(params, rng);
        let ip = issuer.get_issuer_parameters();
        let n = number(rng);
        let r0 = rng.clone();
        // entries
        let number = PhoneNumber::try_from_bytes(&n).expect("HARNESS: number");
        let m = number.0;
        let mut openings = vec![Scalar::zero(), Scalar::one(), m, -m, m + m, m.invert(), Scalar::random(rng)];
        openings.push(-Scalar::one());
        let mut user = SignalUser::new(params, ip.clone(), None, &n).expect("HARNESS: user");
        let issuance = issuer.issue(&n, rng).expect("HARNESS: issue");
        user.obtain_finish(Some(&issuance)).expect("HARNESS: finish");
        for o in &openings {
            for a in -2..3i64 { for b in -2..3i64 {
                let times = |x: i64| if x < 0 { -Scalar::from(-x as u64) } else { Scalar::from(x as u64) };
                let c = params.h * (times(a) * m) + params.g * (times(b) * o);
                let e = [&enc(&c)[..], o.as_bytes()].concat();
                ctx.seen("related entry", &e);
                let entry = match watched(ctx, w, "from_bytes", &e, 64, &|| RosterEntryCommitment::from_bytes(&e).ok()) { Some(Some(x)) => x, _ => continue };
                if let Some(true) = watched(ctx, w, "open", &e, 64, &|| entry.open(&n, &params).is_ok()) { ctx.eval("related entries which open"); }
                if rng.next_u32() % 8 == 0 {
                    let p = watched(ctx, w, "show", &e, 700, &|| user.show(&mut r0.clone(), &entry).ok());
                    if let Some(Some(p)) = p {
                        if let Some(Some(v)) = watched(ctx, w, "verify", &p.to_bytes(), 700, &|| issuer.verify(p.clone()).ok()) {
                            watched(ctx, w, "membership", &v.to_bytes(), 448, &|| issuer.verify_roster_membership(&v).is_ok());
                        }
                    }
                }
            } }
        }
        // presentations
        let entry = RosterEntryCommitment::create(&n, &params, rng).expect("HARNESS: entry");
        let p = user.show(rng, &entry).expect("HARNESS: show");
        let other = user.show(rng, &entry).expect("HARNESS: show");
        let extra = [params.g, params.h, ip.Xn[0], other.presentation.rerandomized_nonce, issuance.credential.mac.nonce, issuance.credential.mac.mac];
        for b in relatives(&p.to_bytes(), &extra) {
            ctx.seen("related presentation", &b);
            if let Some(Some(x)) = watched(ctx, w, "from_bytes", &b, b.len(), &|| SignalCredentialPresentation::from_bytes(&b).ok()) {
                watched(ctx, w, "aeonflux verify", &b, b.len(), &|| issuer.issuer.verify(&x.presentation).is_ok());
                if let Some(Some(v)) = watched(ctx, w, "verify", &b, b.len(), &|| issuer.verify(x.clone()).ok()) {
                    watched(ctx, w, "membership", &b, b.len(), &|| issuer.verify_roster_membership(&v).is_ok());
                }
            }
        }
        // issuances and tags
        for b in relatives(&issuance.to_bytes(), &[params.g, params.h, ip.Xn[0]]) {
            ctx.seen("related issuance", &b);
            if let Some(Some(i)) = watched(ctx, w, "from_bytes", &b, b.len(), &|| CredentialIssuance::from_bytes(&b).ok()) {
                watched(ctx, w, "obtain_finish", &b, 700, &|| {
                    let mut u = SignalUser::new(params, ip.clone(), None, &n).expect("reread");
                    let _ = u.user.obtain_finish(Some(&i));
                    u.obtain_finish(Some(&i)).is_ok() && u.show(&mut r0.clone(), &entry).is_ok()
                });
                let message = amacs::Message(i.credential.attributes.clone());
                watched(ctx, w, "MAC", &b, 700, &|| {
                    amacs::Rerandomization::new(&mut r0.clone()).apply_to_tag(&i.credential.mac);
                    issuer.issuer.keypair.secret.verify(&i.credential.mac, &message).is_ok()
                });
            }
        }
    });

    // What reading costs grows with the size of the input, not with its square.
    ctx.par("growth", 28, move |case, _| {
        let kinds = kinds();
        let k = &kinds[case as usize];
        const SMALL: usize = 1 << 16;
        const LARGE: usize = 1 << 20;
        let mut p = G;
        let points: Vec<u8> = if k.name == "amacs::PublicKey" { (0..LARGE / 32).flat_map(|_| { p = p + G; enc(&p).to_vec() }).collect() } else { Vec::new() };
        let scalars: Vec<u8> = (0..LARGE / 32).flat_map(|i| Scalar::from(i as u64 + 1).to_bytes().to_vec()).collect();
        let ones: Vec<u8> = (0..LARGE / 32).flat_map(|_| Scalar::one().to_bytes().to_vec()).collect();
        for b in [points, scalars, ones, vec![0u8; LARGE]].iter().filter(|b| !b.is_empty()) {
            let run = |size: usize, how: usize| -> (f64, bool) {
                let body = &b[..size];
                let framed = [&(size as u64).to_le_bytes()[..], body].concat();
                let json = if how == 2 { serde_json::to_string(body).expect("HARNESS: json") } else { String::new() };
                let t = cpu();
                let r = ctx.panics(|| match how { 0 => (k.decode)(body).is_some(), 1 => (k.from_bincode)(&framed).is_some(), _ => (k.from_json)(&json).is_some() });
                (cpu() - t, r.unwrap_or(false))
            };
            for how in 0..3 {
                // The quickest of some runs, for what else the machine does only adds to it.
                let (mut small, mut large, mut read) = (1e9f64, 1e9f64, false);
                for turn in 0..8 {
                    for _ in 0..4 { small = small.min(run(SMALL, how).0); }
                    let (t, r) = run(LARGE, how);
                    large = large.min(t);
                    read = r;
                    if large < 0.02 || large < 40.0 * small || (turn > 0 && large > 2.0) { break; }
                }
                ctx.eval("growth");
                if read { ctx.eval("growth of what was read"); }
                ctx.seen("growth", &[k.name.as_bytes(), &[how as u8], &b[..64]].concat());
                if !ctx.check(large < 0.05 || large < 80.0 * small, "time-out-of-proportion", || format!(
                    "{}: {} bytes took {} s and {} bytes took {} s", k.name, SMALL, small, LARGE, large)) { return; }
                let mut m = w.growth.lock().unwrap();
                if read && large / small > m.0 { *m = (large / small, format!("{} took {} s for {} and {} s for {} bytes", k.name, small, SMALL, large, LARGE)); }
            }
        }
    });

    // Every step of the protocol, on whatever decodes.
    ctx.par("steps", ctx.n(600), move |_, rng| {
        let mut pool = values(rng);
        pool.extend(values(rng));
        let j = Junk {
            params: gather(&pool, "SystemParameters", rng, |b| SystemParameters::from_bytes(b).ok()),
            ips: gather(&pool, "amacs::PublicKey", rng, |b| amacs::PublicKey::from_bytes(b).ok()),
            issuers: gather(&pool, "SignalIssuer", rng, |b| SignalIssuer::from_bytes(b).ok()),
            issuances: gather(&pool, "CredentialIssuance", rng, |b| CredentialIssuance::from_bytes(b).ok()),
            presentations: gather(&pool, "SignalCredentialPresentation", rng, |b| SignalCredentialPresentation::from_bytes(b).ok()),
            verified: gather(&pool, "VerifiedSignalCredential", rng, |b| VerifiedSignalCredential::from_bytes(b).ok()),
            users: gather(&pool, "SignalUser", rng, |b| SignalUser::from_bytes(b).ok()),
            entries: gather(&pool, "RosterEntryCommitment", rng, |b| RosterEntryCommitment::from_bytes(b).ok()),
            keypairs: gather(&pool, "amacs::Keypair", rng, |b| amacs::Keypair::from_bytes(b).ok()),
            tags: gather(&pool, "amacs::Tag", rng, |b| amacs::Tag::from_bytes(b).ok()),
            requests: gather(&pool, "CredentialRequest", rng, |b| CredentialRequest::from_bytes(b).ok()),
            elgamal: gather(&pool, "elgamal::Keypair", rng, |b| elgamal::Keypair::from_bytes(b).ok()),
            numbers: gather(&pool, "PhoneNumber", rng, |b| PhoneNumber::from_bytes(b).ok()),
        };
        for _ in 0..12 {
            let mut n = number(rng);
            match rng.next_u32() % 5 { 0 => n.clear(), 1 => n.resize(27 + rng.next_u32() as usize % 500, 7), 2 => rng.fill_bytes(&mut n), _ => {} }
            let r0 = rng.clone();
            let kp = pick(&j.keypairs, rng);
            let params = *pick(&j.params, rng);
            let issuer = if rng.next_u32() % 3 == 0 { SignalIssuer::new(params, kp.clone()) } else { SignalIssuer::from_bytes(&pick(&j.issuers, rng).to_bytes()).expect("reread") };
            let ib = issuer.to_bytes();
            ctx.seen("issuer", &ib);
            watched(ctx, w, "issue", &ib, ib.len() + n.len(), &|| issuer.issue(&n, &mut r0.clone()).is_ok());
            let req = pick(&j.requests, rng);
            watched(ctx, w, "aeonflux issue", &ib, ib.len() + 32 * req.attributes_revealed.len(), &|| issuer.issuer.issue(req, &mut r0.clone()).is_ok());
            let p = pick(&j.presentations, rng);
            ctx.seen("presentation", &p.to_bytes());
            if let Some(Some(v)) = watched(ctx, w, "verify", &p.to_bytes(), 448 + ib.len(), &|| issuer.verify(p.clone()).ok()) {
                ctx.eval("presentations accepted");
                watched(ctx, w, "membership", &v.to_bytes(), 448, &|| issuer.verify_roster_membership(&v).is_ok());
            }
            watched(ctx, w, "aeonflux verify", &p.presentation.to_bytes(), 256 + ib.len(), &|| issuer.issuer.verify(&p.presentation).is_ok());
            let mut odd = p.presentation.clone();
            match rng.next_u32() % 5 {
                0 => odd.attributes_blinded.clear(),
                1 => odd.attributes_blinded.resize(300, p.presentation.rerandomized_mac_commitment),
                2 => odd.attributes_revealed.push(Scalar::one()),
                3 => { odd.attributes_revealed = vec![Scalar::one(); 200]; odd.attributes_blinded.clear(); }
                _ => odd.attributes_blinded = vec![odd.rerandomized_mac_commitment; 2],
            }
            watched(ctx, w, "aeonflux verify", &[], 20_000, &|| issuer.issuer.verify(&odd).is_ok());
            let v = pick(&j.verified, rng);
            watched(ctx, w, "membership", &v.to_bytes(), 448, &|| issuer.verify_roster_membership(v).is_ok());
            watched(ctx, w, "issuer parameters", &ib, ib.len(), &|| issuer.get_issuer_parameters());

            let i = pick(&j.issuances, rng);
            let ip = pick(&j.ips, rng).clone();
            let user = pick(&j.users, rng);
            let ub = user.to_bytes();
            ctx.seen("user", &ub);
            watched(ctx, w, "obtain_finish", &[&ub[..], &i.to_bytes()].concat(), 700, &|| {
                let mut u = SignalUser::from_bytes(&ub).expect("reread");
                let _ = u.obtain_finish(None);
                let _ = u.obtain_finish(Some(i));
                let _ = u.user.obtain_finish(None);
                u.user.obtain_finish(Some(i)).is_ok()
            });
            watched(ctx, w, "new user", &ip.to_bytes(), 700 + ip.to_bytes().len(), &|| {
                let mut u = match SignalUser::new(params, ip.clone(), None, &n) { Ok(u) => u, Err(_) => return false };
                let _ = u.obtain_finish(Some(i));
                u.user.obtain_finish(Some(i)).is_ok()
            });
            let entry = pick(&j.entries, rng);
            watched(ctx, w, "show", &[&ub[..], &entry.to_bytes()].concat(), 700, &|| user.show(&mut r0.clone(), entry).is_ok());
            watched(ctx, w, "aeonflux show", &ub, 700, &|| user.user.show(&Nonces::new(&mut r0.clone(), 1), &mut r0.clone()).is_ok());
            watched(ctx, w, "open", &entry.to_bytes(), 64 + n.len(), &|| entry.open(&n, &params).is_ok());
            watched(ctx, w, "entry", &n, n.len(), &|| RosterEntryCommitment::create(&n, &params, &mut r0.clone()).is_ok());
            let number = pick(&j.numbers, rng);
            let eg = pick(&j.elgamal, rng);
            watched(ctx, w, "number", &number.to_bytes(), 100, &|| {
                let e = number.encrypt(eg, &Ephemeral::new(&mut r0.clone()));
                eg.secret.decrypt(&e.0);
                String::from(number.clone())
            });
            let text: String = n.iter().map(|x| *x as char).collect();
            watched(ctx, w, "number", text.as_bytes(), text.len(), &|| PhoneNumber::try_from_string(&text).is_ok());
            let tag = pick(&j.tags, rng);
            let m = amacs::Message(pick(&j.requests, rng).attributes_revealed.clone());
            watched(ctx, w, "MAC", &[&kp.to_bytes()[..], &tag.to_bytes()].concat(), kp.to_bytes().len() + 100 + 32 * m.0.len(), &|| {
                let a = kp.secret.mac(&m, &mut r0.clone()).is_ok();
                let b = kp.secret.verify(tag, &m).is_ok();
                amacs::Rerandomization::new(&mut r0.clone()).apply_to_tag(tag);
                kp.secret.get_public_key(&params.h);
                (a, b)
            });
            // proofs on any public values
            for (kind, s) in nizk::specs().iter().enumerate() {
                let publics: Vec<RistrettoPoint> = s.publics.iter().map(|_| match rng.next_u32() % 4 { 0 => RistrettoPoint::identity(), 1 => G, _ => rpoint(rng) }).collect();
                let mut b = Vec::new();
                for _ in 0..s.secrets.len() + 1 { b.extend_from_slice(&32u64.to_le_bytes()); b.extend_from_slice(special(rng).as_bytes()); }
                watched(ctx, w, "proof", &b, b.len(), &|| nizk::lib_verify(kind, s.context, &publics, &b));
            }
        }
    });
    ctx.single("extremes", |_| {
        let m = w.max_ratio.lock().unwrap();
        ctx.sample("most memory for its size", || m.1.clone());
        let m = w.max_cpu.lock().unwrap();
        ctx.sample("most time", || m.1.clone());
        let m = w.growth.lock().unwrap();
        ctx.sample("most growth", || m.1.clone());
    });
    ctx.finish("valid encodings changed at random, large, growing and lying ones, for all decoders and formats, and what decodes, points in a relation to others among it, given to every step; distinct by kind and bytes");
}
