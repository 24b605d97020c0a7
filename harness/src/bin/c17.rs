//! C17: secrets are erased from memory when dropped.
//!
//! The allocator inspects every block which is given back while an object is dropped; storage which is not on the heap is
//! read where it was after the drop.
#![feature(thread_local)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::mem::{self, ManuallyDrop};
use std::ptr;
use vh::proto::*;
use vh::*;

struct Inspecting;

const MAX: usize = 24;

/// What the current thread is looking for, and what it found in blocks given back.
#[thread_local]
static mut LOOKING: bool = false;
#[thread_local]
static mut SECRETS: [[u8; 32]; MAX] = [[0; 32]; MAX];
/// Which halves of them cannot be in memory by chance.
#[thread_local]
static mut TELLING: [[bool; 2]; MAX] = [[false; 2]; MAX];
#[thread_local]
static mut N_SECRETS: usize = 0;
#[thread_local]
static mut FOUND: usize = 0;
/// Whether some half of a secret begins with this byte.
#[thread_local]
static mut BEGINS: [bool; 256] = [false; 256];
#[thread_local]
static mut FOUND_AT: (usize, usize, usize) = (0, 0, 0);
#[thread_local]
static mut BLOCKS: usize = 0;
#[thread_local]
static mut BYTES: usize = 0;

/// Find either half of a secret in memory: its index and the offset.
unsafe fn find(p: *const u8, n: usize) -> Option<(usize, usize)> {
    if n < 16 { return None; }
    for i in 0..=n - 16 {
        let first = ptr::read_volatile(p.add(i));
        if !BEGINS[first as usize] { continue; }
        for s in 0..N_SECRETS {
            for h in 0..2 {
                if TELLING[s][h] && SECRETS[s][16 * h] == first {
                    let mut k = 1;
                    while k < 16 && ptr::read_volatile(p.add(i + k)) == SECRETS[s][16 * h + k] { k += 1; }
                    if k == 16 { return Some((s, i)); }
                }
            }
        }
    }
    None
}

unsafe fn inspect(p: *mut u8, n: usize) {
    if LOOKING {
        BLOCKS += 1;
        BYTES += n;
        if let Some((s, o)) = find(p, n) {
            FOUND += 1;
            FOUND_AT = (s, o, n);
        }
    }
}

unsafe impl GlobalAlloc for Inspecting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { inspect(p, l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !LOOKING { return System.realloc(p, l, n); }
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            ptr::copy_nonoverlapping(p, q, if n < l.size() { n } else { l.size() });
            inspect(p, l.size());
            System.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static ALLOCATOR: Inspecting = Inspecting;

fn set_secrets(s: &[Scalar]) {
    unsafe {
        N_SECRETS = 0;
        BEGINS = [false; 256];
        // Of many, some of each part, the last always.
        let step = (s.len() + MAX - 1) / MAX;
        for x in s.iter().rev().step_by(if step == 0 { 1 } else { step }).take(MAX) {
            SECRETS[N_SECRETS] = x.to_bytes();
            for h in 0..2 {
                let half = &SECRETS[N_SECRETS][16 * h..16 * h + 16];
                let mut values = half.to_vec();
                values.sort();
                values.dedup();
                TELLING[N_SECRETS][h] = values.len() >= 8;
                if TELLING[N_SECRETS][h] { BEGINS[half[0] as usize] = true; }
            }
            N_SECRETS += 1;
        }
    }
}

/// Run `f`, looking at every block of memory it gives back.
fn looking<T, F: FnOnce() -> T>(f: F) -> T {
    unsafe {
        FOUND = 0; BLOCKS = 0; BYTES = 0; LOOKING = true;
        let r = f();
        LOOKING = false;
        r
    }
}

fn judge(ctx: &'static Ctx, what: &str, how: &str) {
    unsafe {
        LOOKING = false;
        ctx.evals("blocks of memory inspected as they were given back", BLOCKS as u64);
        ctx.evals("bytes inspected", BYTES as u64);
        ctx.seen("dropped", format!("{} {} {}", what, how, hex(&SECRETS[0])).as_bytes());
        let (s, o, n) = FOUND_AT;
        ctx.check(FOUND == 0, "not-erased", || format!("{}, {}: secret {} is at byte {} of a block of {} bytes given back", what, how, s, o, n));
        FOUND = 0;
    }
}

fn judge_at(ctx: &'static Ctx, what: &str, how: &str, p: *const u8, n: usize) {
    let f = unsafe { find(p, n) };
    ctx.evals("bytes inspected", n as u64);
    ctx.eval("storage read where it was");
    if let Some((s, o)) = f {
        ctx.violation("not-erased", format!("{}, {}: secret {} is at byte {} of the {} bytes where it was", what, how, s, o, n));
    }
}

struct Panicking;

#[inline(never)]
fn on_the_stack<T, F: FnOnce() -> T>(make: F) -> (usize, usize) {
    let x = make();
    // What making it gave back is not what dropping it gives back.
    unsafe { LOOKING = true; }
    let r = (&x as *const T as usize, mem::size_of::<T>());
    unsafe { ptr::read_volatile(&r); }
    r
}

/// Copy what is in memory at `p` without calling anything, into a place of our own.
#[inline(never)]
fn after_scope<T, F: FnOnce() -> T>(make: F, into: &mut [u8; 4096]) -> usize {
    unsafe { LOOKING = false; }
    let (p, n) = on_the_stack(make);
    let n = if n > 4096 { 4096 } else { n };
    let mut i = 0;
    while i < n {
        unsafe { *into.as_mut_ptr().add(i) = ptr::read_volatile((p + i) as *const u8); }
        i += 1;
    }
    n
}

/// All the ways to drop a value which `make` makes.  `make` gives the same value every time.
fn drops<T: 'static, F: Fn() -> T>(ctx: &'static Ctx, what: &'static str, secrets: &[Scalar], other: &dyn Fn() -> T, make: F) {
    set_secrets(secrets);

    // A control: the same bytes in something which is not erased are found.
    if let Some(i) = (0..unsafe { N_SECRETS }).find(|i| unsafe { TELLING[*i][0] || TELLING[*i][1] }) {
        let control = unsafe { SECRETS[i] }.to_vec().into_boxed_slice();
        looking(|| drop(control));
        if unsafe { FOUND } == 0 { ctx.harness_error("HARNESS: the control was not found".to_string()); }
        ctx.eval("controls found");
    } else {
        ctx.eval("objects of nothing that could be told");
        return;
    }

    let b = Box::new(make());
    looking(|| drop(b));
    judge(ctx, what, "a box");

    let mut storage = ManuallyDrop::new(make());
    let p = &mut *storage as *mut T;
    let n = mem::size_of::<T>();
    if unsafe { find(p as *const u8, n) }.is_some() { ctx.eval("objects with secrets in line"); }
    looking(|| unsafe { ptr::drop_in_place(p) });
    judge(ctx, what, "what it owned");
    judge_at(ctx, what, "in line", p as *const u8, n);

    let mut into = [0u8; 4096];
    let n = looking(|| after_scope(|| make(), &mut into));
    judge(ctx, what, "at the end of a scope");
    judge_at(ctx, what, "on the stack at the end of a scope", into.as_ptr(), n);

    let mut v = vec![other(), make(), other()];
    looking(|| { v.remove(1); });
    // what was removed is dropped on the stack; the vector's storage is used again
    let mut w: Vec<T> = Vec::with_capacity(4);
    w.push(other());
    w.push(make());
    w.push(make());
    let at = w.as_ptr() as usize;
    looking(|| w.truncate(1));
    judge(ctx, what, "truncating a vector");
    judge_at(ctx, what, "in a truncated vector", unsafe { (at as *const u8).add(mem::size_of::<T>()) }, 2 * mem::size_of::<T>());
    looking(|| drop(v));
    let mut w = vec![make(), make()];
    let at = w.as_ptr() as usize;
    looking(|| w.clear());
    judge_at(ctx, what, "in a cleared vector", at as *const u8, 2 * mem::size_of::<T>());
    looking(|| drop(w));
    judge(ctx, what, "a vector");

    // (What is written over an option set to none may be anything, so that only what it owned is judged.)
    let mut o = Box::new(Some(make()));
    looking(|| *o = None);
    judge(ctx, what, "an option set to none");
    let mut o = ManuallyDrop::new(Box::new(Some(make())));
    looking(|| unsafe { ptr::drop_in_place(&mut **o as *mut Option<T>) });
    judge_at(ctx, what, "in an option", &**o as *const Option<T> as *const u8, mem::size_of::<Option<T>>());
    let mut r = Box::new(make());
    let o = other();
    looking(|| *r = o);
    judge(ctx, what, "replaced by another");
    judge_at(ctx, what, "where another replaced it", &*r as *const T as *const u8, mem::size_of::<T>());
    let rc = std::rc::Rc::new((1u8, make(), [other()]));
    let rc2 = rc.clone();
    looking(|| drop(rc));
    looking(|| drop(rc2));
    judge(ctx, what, "shared");

    // while unwinding
    let b = Box::new(make());
    let r = looking(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _b = b;
        std::panic::resume_unwind(Box::new(Panicking));
    })));
    judge(ctx, what, "while unwinding");
    if r.is_ok() { ctx.harness_error("HARNESS: no panic".to_string()); }
}

fn sc<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> Scalar { Scalar::random(rng) }

/// Scalars of all sorts: erasing may not depend on what they are.
fn content<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> Scalar {
    let mut b = sc(rng).to_bytes();
    match rng.next_u32() % 8 {
        0 => special(rng),
        1 => Scalar::zero(),
        2 => { for x in &mut b[16..] { *x = 0 } Scalar::from_canonical_bytes(b).unwrap() }
        3 => { for x in &mut b[..16] { *x = 0 } Scalar::from_bytes_mod_order(b) }
        4 => { for x in &mut b[15..] { *x = 0 } b[31] = 0x10; Scalar::from_canonical_bytes(b).unwrap() }
        5 => { let n = 1 + rng.next_u32() as usize % 8; for x in &mut b[..n] { *x = 0 } Scalar::from_bytes_mod_order(b) }
        _ => sc(rng),
    }
}

/// A generator whose wide values are the given scalars.
struct Giving(Vec<u8>, usize);

impl Giving {
    fn new(s: &[Scalar]) -> Giving {
        let mut v = Vec::new();
        for x in s { v.extend(x.as_bytes()); v.extend(&[0u8; 32]); }
        Giving(v, 0)
    }
}

impl RngCore for Giving {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for x in dest { *x = self.0[self.1 % self.0.len()]; self.1 += 1; }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(dest); Ok(()) }
}

impl rand_core::CryptoRng for Giving {}

fn eph(x: &Scalar) -> Ephemeral { Ephemeral::from(*x) }

fn main() {
    let ctx = Ctx::new("C17");
    ctx.par("drops", ctx.n(120), move |case, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let k = if case % 40 == 7 { 700 } else if case % 10 == 3 { [17usize, 33, 70, 140][case as usize / 10 % 4] } else { [0usize, 1, 2, 5, 9][case as usize % 5] };
        let xs: Vec<Scalar> = (0..=k).map(|_| sc(rng)).collect();
        let other: Vec<Scalar> = (0..=k).map(|_| sc(rng)).collect();
        let mac = |x: &[Scalar]| amacs::SecretKey { x0: x[0], xn: x[1..].to_vec() };
        let pair = |x: &[Scalar]| { let s = mac(x); amacs::Keypair { public: s.get_public_key(&w.params.h), secret: s } };
        drops(ctx, "amacs::SecretKey", &xs, &|| mac(&other), || mac(&xs));
        drops(ctx, "amacs::Keypair", &xs, &|| pair(&other), || pair(&xs));
        let bytes = mac(&xs).to_bytes();
        drops(ctx, "a decoded amacs::SecretKey", &xs, &|| mac(&other), || amacs::SecretKey::from_bytes(&bytes).unwrap());
        let seed: [u8; 32] = rng.gen();
        let s = amacs::SecretKey::new(k, &mut ChaChaRng::from_seed(seed));
        let made: Vec<Scalar> = Some(s.x0).into_iter().chain(s.xn.iter().cloned()).collect();
        drops(ctx, "a generated amacs::SecretKey", &made, &|| mac(&other), || amacs::SecretKey::new(k, &mut ChaChaRng::from_seed(seed)));
        drops(ctx, "a cloned amacs::SecretKey", &made, &|| mac(&other), || { let c = s.clone(); c });
        ctx.check(s.x0 == made[0] && s.xn[..] == made[1..], "original-erased", || "dropping a clone changed the original".to_string());

        let one = [sc(rng), sc(rng)];
        let two = [sc(rng), sc(rng)];
        let issuer = |x: &[Scalar]| Issuer::new(w.params, pair(x));
        drops(ctx, "Issuer", &one, &|| issuer(&two), || issuer(&one));
        drops(ctx, "SignalIssuer", &one, &|| SignalIssuer { issuer: issuer(&two) }, || SignalIssuer { issuer: issuer(&one) });
        let ib = SignalIssuer { issuer: issuer(&one) }.to_bytes();
        drops(ctx, "a decoded SignalIssuer", &one, &|| SignalIssuer { issuer: issuer(&two) }, || SignalIssuer::from_bytes(&ib).unwrap());
        let si = SignalIssuer::create(w.params, &mut ChaChaRng::from_seed(seed));
        let made = [si.issuer.keypair.secret.x0, si.issuer.keypair.secret.xn[0]];
        drops(ctx, "a created SignalIssuer", &made, &|| SignalIssuer { issuer: issuer(&two) },
              || SignalIssuer::create(w.params, &mut ChaChaRng::from_seed(seed)));

        let (x, y) = (sc(rng), sc(rng));
        let ek = |x: &Scalar| elgamal::SecretKey::from_bytes(x.as_bytes()).unwrap();
        let gk = |seed: [u8; 32]| elgamal::Keypair::generate(&mut ChaChaRng::from_seed(seed));
        let gx = scalar(&gk(seed).secret.to_bytes()).unwrap();
        let seed2: [u8; 32] = rng.gen();
        drops(ctx, "elgamal::SecretKey", &[x], &|| ek(&y), || ek(&x));
        drops(ctx, "a cloned elgamal::SecretKey", &[x], &|| ek(&y), || { let a = ek(&x); let b = a.clone(); drop(a); b });
        drops(ctx, "elgamal::Keypair", &[gx], &|| gk(seed2), || gk(seed));
        let kb = gk(seed).to_bytes();
        drops(ctx, "a decoded elgamal::Keypair", &[gx], &|| gk(seed2), || elgamal::Keypair::from_bytes(&kb).unwrap());
        // (With a credential: what lies in the place of one which is not there may be anything.)
        let credential = w.issuer.issue(&n, rng).unwrap().credential;
        let user = |seed| { let mut u = User::new(w.params, w.ip.clone(), Some(gk(seed))); u.credential = Some(credential.clone()); u };
        drops(ctx, "User", &[gx], &|| user(seed2), || user(seed));
        let suser = |seed| { let mut u = SignalUser::new(w.params, w.ip.clone(), Some(gk(seed)), &n).unwrap(); u.user.credential = Some(credential.clone()); u };
        drops(ctx, "SignalUser", &[gx], &|| suser(seed2), || suser(seed));
        let ub = suser(seed).to_bytes();
        drops(ctx, "a decoded SignalUser", &[gx], &|| suser(seed2), || SignalUser::from_bytes(&ub).unwrap());

        drops(ctx, "Ephemeral", &[x], &|| eph(&y), || eph(&x));
        drops(ctx, "a cloned Ephemeral", &[x], &|| eph(&y), || { let a = eph(&x); let b = a.clone(); drop(a); b });
        drops(ctx, "a negated Ephemeral", &[-x], &|| eph(&y), || -eph(&x));
        let fresh = scalar(&Ephemeral::new(&mut ChaChaRng::from_seed(seed)).to_bytes()).unwrap();
        drops(ctx, "a new Ephemeral", &[fresh], &|| eph(&y), || Ephemeral::new(&mut ChaChaRng::from_seed(seed)));
        let entry = |x: &Scalar| RosterEntryCommitment { commitment: w.entry(&n, &mut ChaChaRng::from_seed(seed)).commitment, opening: eph(x) };
        drops(ctx, "RosterEntryCommitment", &[x], &|| entry(&y), || entry(&x));
        let eb = entry(&x).to_bytes();
        drops(ctx, "a decoded RosterEntryCommitment", &[x], &|| entry(&y), || RosterEntryCommitment::from_bytes(&eb).unwrap());
        let made = scalar(&w.entry(&n, &mut ChaChaRng::from_seed(seed)).opening.to_bytes()).unwrap();
        drops(ctx, "a created RosterEntryCommitment", &[made], &|| entry(&y), || w.entry(&n, &mut ChaChaRng::from_seed(seed)));

        let list = |seed, k| Nonces::new(&mut ChaChaRng::from_seed(seed), k);
        let l = k + 1;
        let made: Vec<Scalar> = list(seed, l).iter().map(|x| scalar(&x.to_bytes()).unwrap()).collect();
        drops(ctx, "Nonces", &made, &|| list(seed2, 2), || list(seed, l));
        drops(ctx, "cloned Nonces", &made, &|| list(seed2, 2), || { let a = list(seed, l); let b = a.clone(); drop(a); b });

        // A rerandomisation factor does not show itself; what it does to a tag does.
        let t = Scalar::random(&mut ChaChaRng::from_seed(seed));
        let g = amacs::Tag { nonce: G, mac: G };
        let tag = amacs::Rerandomization::new(&mut ChaChaRng::from_seed(seed)).apply_to_tag(&g);
        if tag.nonce == t * G {
            drops(ctx, "Rerandomization", &[t], &|| amacs::Rerandomization::new(&mut ChaChaRng::from_seed(seed2)),
                  || amacs::Rerandomization::new(&mut ChaChaRng::from_seed(seed)));
            drops(ctx, "a cloned Rerandomization", &[t], &|| amacs::Rerandomization::new(&mut ChaChaRng::from_seed(seed2)),
                  || { let a = amacs::Rerandomization::new(&mut ChaChaRng::from_seed(seed)); let b = a.clone(); drop(a); b });
        } else {
            // It is derived in another way, so that its bytes are looked for where they are.
            let r = ManuallyDrop::new(amacs::Rerandomization::new(&mut ChaChaRng::from_seed(seed)));
            let mut b = [0u8; 32];
            let size = mem::size_of::<amacs::Rerandomization>().min(32);
            unsafe { ptr::copy_nonoverlapping(&*r as *const _ as *const u8, b.as_mut_ptr(), size); }
            match Scalar::from_canonical_bytes(b) {
                Some(t) if t * G == tag.nonce =>
                    drops(ctx, "Rerandomization", &[t], &|| amacs::Rerandomization::new(&mut ChaChaRng::from_seed(seed2)),
                          || amacs::Rerandomization::new(&mut ChaChaRng::from_seed(seed))),
                _ => ctx.eval("rerandomisation factors whose bytes are not known"),
            }
        }

        // Structures of structures.
        let mix = |a: &Scalar, x: &[Scalar]| (Some(eph(a)), vec![mac(x)], [ek(a), ek(a)], Box::new(eph(a)));
        drops(ctx, "a tuple", &[x, xs[0]], &|| mix(&y, &other), || mix(&x, &xs));
        let map = |a: &Scalar, x: &[Scalar]| { let mut m = std::collections::HashMap::new(); m.insert(1, pair(x)); m.insert(2, pair(&[*a, *a])); m };
        drops(ctx, "a map", &[x, xs[0]], &|| map(&y, &other), || map(&x, &xs));
        ctx.sample("secrets", || format!("a key of {} scalars, x0 = {}", xs.len(), hex(xs[0].as_bytes())));
    });

    // Contents of every sort, zeros and repetitions among them.
    ctx.par("contents", ctx.n(300), move |case, rng| {
        let k = [1usize, 2, 4, 8, 20][case as usize % 5];
        let mut xs: Vec<Scalar> = (0..=k).map(|_| content(rng)).collect();
        if rng.next_u32() % 3 == 0 { xs[0] = Scalar::zero(); }
        if rng.next_u32() % 3 == 0 { let (i, j) = (rng.next_u32() as usize % xs.len(), rng.next_u32() as usize % xs.len()); xs[i] = xs[j]; }
        let other = vec![sc(rng); k + 1];
        let mac = |x: &[Scalar]| amacs::SecretKey { x0: x[0], xn: x[1..].to_vec() };
        let pair = |x: &[Scalar]| { let s = mac(x); amacs::Keypair { public: amacs::PublicKey { Xn: vec![G; k] }, secret: s } };
        drops(ctx, "amacs::SecretKey", &xs, &|| mac(&other), || mac(&xs));
        drops(ctx, "amacs::Keypair", &xs, &|| pair(&other), || pair(&xs));
        let (x, y) = (content(rng), sc(rng));
        let ek = |x: &Scalar| elgamal::SecretKey::from_bytes(x.as_bytes()).unwrap();
        drops(ctx, "elgamal::SecretKey", &[x], &|| ek(&y), || ek(&x));
        let ekp = |x: &Scalar| elgamal::Keypair { secret: ek(x), public: elgamal::PublicKey::from(&ek(&y)) };
        drops(ctx, "elgamal::Keypair", &[x], &|| ekp(&y), || ekp(&x));
        drops(ctx, "Ephemeral", &[x], &|| eph(&y), || eph(&x));
        drops(ctx, "several Ephemerals", &xs, &|| other.iter().map(eph).collect::<Vec<_>>(), || xs.iter().map(eph).collect::<Vec<_>>());
        let list = |x: &[Scalar]| Nonces::new(&mut Giving::new(x), x.len());
        if list(&xs).iter().map(|e| e.to_bytes()).eq(xs.iter().map(|x| x.as_bytes().to_vec())) {
            drops(ctx, "Nonces", &xs, &|| list(&other), || list(&xs));
        } else {
            ctx.eval("lists drawn in another way");
        }
        let re = |x: &Scalar| amacs::Rerandomization::new(&mut Giving::new(&[*x]));
        if re(&x).apply_to_tag(&amacs::Tag { nonce: G, mac: G }).nonce == x * G {
            drops(ctx, "Rerandomization", &[x], &|| re(&y), || re(&x));
        } else {
            ctx.eval("factors drawn in another way");
        }
    });

    // The protocol: what is dropped inside it, where it can be told what that is.
    ctx.par("protocol", ctx.n(100), move |_, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let u = w.enrolled(&n, rng);
        let e = w.entry(&n, rng);
        let seed: [u8; 32] = rng.gen();
        let s = &w.issuer.issuer.keypair.secret;
        // The first nonces which a presentation draws, if it draws them as a list.
        let first: Vec<Scalar> = Nonces::new(&mut ChaChaRng::from_seed(seed), 1).iter().map(|x| scalar(&x.to_bytes()).unwrap()).collect();
        let mut all = first.clone();
        all.push(s.x0);
        all.push(s.xn[0]);
        all.push(scalar(&e.opening.to_bytes()).unwrap());
        set_secrets(&all);
        let p = looking(|| u.show(&mut ChaChaRng::from_seed(seed), &e)).expect("show");
        judge(ctx, "a presentation", "the list of nonces made in it");
        let v = looking(|| w.issuer.verify(p.clone())).expect("verify");
        judge(ctx, "verifying", "what it gave back");
        looking(|| w.issuer.verify_roster_membership(&v)).expect("membership");
        judge(ctx, "checking membership", "what it gave back");
        let i = looking(|| w.issuer.issue(&n, &mut ChaChaRng::from_seed(seed))).expect("issue");
        judge(ctx, "issuing", "what it gave back");
        let mut u2 = w.user(&n);
        looking(|| u2.obtain_finish(Some(&i))).expect("finish");
        judge(ctx, "accepting an issuance", "what it gave back");
        looking(|| { let _ = RosterEntryCommitment::create(&n, &w.params, &mut ChaChaRng::from_seed(seed)); });
        judge(ctx, "making an entry", "what it gave back");
        looking(|| { let _ = e.open(&n, &w.params); });
        judge(ctx, "opening an entry", "what it gave back");
        looking(|| { let _ = SignalIssuer::create(w.params, &mut ChaChaRng::from_seed(seed)); });
        judge(ctx, "creating an issuer", "what it gave back");
        // Replacing the key of a user.
        let k = elgamal::Keypair::generate(rng);
        set_secrets(&[scalar(&k.secret.to_bytes()).unwrap()]);
        let mut u = Box::new(SignalUser::new(w.params, w.ip.clone(), Some(k), &n).unwrap());
        let key = &mut u.user.key as *mut Option<elgamal::Keypair>;
        looking(|| unsafe { ptr::drop_in_place(key) });
        judge(ctx, "the key of a user", "dropped alone");
        judge_at(ctx, "the key of a user", "dropped alone", key as *const u8, mem::size_of::<Option<elgamal::Keypair>>());
        unsafe { ptr::write(key, None); }
    });
    ctx.finish("every type with secrets, generated, decoded, cloned and inside others, dropped in twelve ways; distinct by type, way and secret");
}
