//! C07: proof nonces are never reused, predictable or shared.
//!
//! With the secrets known, a proof's nonces are `k = r - c s`.  Every nonce of every proof made, in any thread or
//! process, goes through one table.
#![allow(non_snake_case)]

use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use vh::nizk::*;
use vh::proto::*;
use vh::*;

// In child processes of the "entropy" phase, the system's random numbers and clocks are what the monitor says.
static mut ENTROPY: Option<ChaChaRng> = None;

fn real_syscall() -> unsafe extern "C" fn(libc::c_long, usize, usize, usize, usize, usize, usize) -> libc::c_long {
    static mut REAL: usize = 0;
    unsafe {
        if REAL == 0 {
            REAL = libc::dlsym(libc::RTLD_NEXT, b"syscall\0".as_ptr() as *const libc::c_char) as usize;
        }
        std::mem::transmute(REAL)
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_getrandom {
        if let Some(r) = ENTROPY.as_mut() {
            r.fill_bytes(std::slice::from_raw_parts_mut(a as *mut u8, b));
            return b as libc::c_long;
        }
    }
    real_syscall()(n, a, b, c, d, e, f)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    if ENTROPY.is_some() {
        (*tp).tv_sec = 1_546_300_800;
        (*tp).tv_nsec = 0;
        return 0;
    }
    real_syscall()(libc::SYS_clock_gettime, clk as usize, tp as usize, 0, 0, 0, 0) as libc::c_int
}

const CONTEXT: &'static [u8] = b"C07";

thread_local!(static BEFORE: RefCell<HashMap<usize, Vec<Scalar>>> = RefCell::new(HashMap::new()));

/// The nonces of a proof.
fn nonces(proof: &[u8], secrets: &[Scalar]) -> (Scalar, Vec<Scalar>) {
    let p = RefProof::from_bytes(proof).expect("HARNESS: proof");
    if p.r.len() != secrets.len() {
        panic!("HARNESS: number of responses");
    }
    (p.c, p.r.iter().zip(secrets).map(|(r, s)| r - p.c * s).collect())
}

/// A nonce or its negation, whichever is smaller: either is as bad.
fn norm(k: &Scalar) -> [u8; 32] {
    let (a, b) = (k.to_bytes(), (-k).to_bytes());
    if a < b { a } else { b }
}

struct Seen {
    ks: Mutex<HashMap<[u8; 32], String>>,
    diffs: Mutex<HashSet<[u8; 32]>>,
    bits: Mutex<HashMap<(usize, usize), (u64, Vec<u64>)>>,
}

impl Seen {
    fn note(&self, ctx: &'static Ctx, kind: usize, what: &str, ks: &[Scalar], secrets: &[Scalar], c: &Scalar) {
        {
            let mut m = self.ks.lock().unwrap();
            for (i, k) in ks.iter().enumerate() {
                ctx.eval("nonces");
                ctx.seen("nonce", k.as_bytes());
                ctx.check(*k != Scalar::zero(), "zero-nonce", || format!("{} proof of kind {}, secret {}", what, kind, i));
                let here = format!("{} proof of kind {}, secret {}", what, kind, i);
                if let Some(old) = m.insert(norm(k), here.clone()) {
                    ctx.violation("nonce-repeated", format!("{} and {}: {}", old, here, hex(k.as_bytes())));
                }
                for s in secrets {
                    ctx.check(*s == Scalar::zero() || (k != s && *k != -s), "nonce-is-secret", || here.clone());
                }
                ctx.check(k != c, "nonce-is-challenge", || here.clone());
            }
        }
        {
            // What two nonces of a proof have in common must not be the same in another.
            let mut d = self.diffs.lock().unwrap();
            for i in 0..ks.len() {
                for j in 0..i {
                    ctx.eval("pairs of nonces of one proof");
                    let key = norm(&(ks[i] - ks[j]));
                    ctx.check(d.insert(key), "nonces-related", || format!("{} proof of kind {}: nonces {} and {} differ by the same as others: {}", what, kind, i, j, hex(&key)));
                    let key = norm(&(ks[i] + ks[j]));
                    ctx.check(d.insert(key), "nonces-related", || format!("{} proof of kind {}: nonces {} and {} have the same sum as others: {}", what, kind, i, j, hex(&key)));
                    if ks[j] != Scalar::zero() {
                        let q = ks[i] * ks[j].invert();
                        ctx.check(d.insert(norm(&q)), "nonces-related", || format!("{} proof of kind {}: nonces {} and {} have the same ratio as others: {}", what, kind, i, j, hex(q.as_bytes())));
                    }
                }
            }
        }
        // No nonce is the sum or difference of two others, or of one and a value which is known or a secret.
        let one = Scalar::one();
        for i in 0..ks.len() {
            let mut with: Vec<&Scalar> = ks.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, k)| k).collect();
            with.extend(secrets);
            with.push(c);
            with.push(&one);
            for x in 0..with.len() {
                for y in 0..=x {
                    let (p, m) = (with[x] + with[y], with[x] - with[y]);
                    ctx.check(ks[i] != p && ks[i] != -p && ks[i] != m && ks[i] != -m || ks[i] == Scalar::zero(), "nonces-related",
                              || format!("{} proof of kind {}: nonce {} is a sum or difference of values {} and {} of {} others", what, kind, i, x, y, with.len()));
                }
            }
            ctx.evals("sums of values of one proof", (with.len() * (with.len() + 1) * 2) as u64);
        }
        // Nor does one step from the proof before to this one repeat.
        BEFORE.with(|b| {
            if let Some(old) = b.borrow_mut().insert(kind, ks.to_vec()) {
                let mut d = self.diffs.lock().unwrap();
                for (i, (k, o)) in ks.iter().zip(&old).enumerate() {
                    ctx.eval("steps from one proof to the next");
                    let (key, small) = (norm(&(k - o)), norm(&(k - o))[16..].iter().all(|x| *x == 0));
                    ctx.check(d.insert(key) && !small, "nonces-related", || format!("{} proof of kind {}: nonce {} is a repeated or small step from the one before: {}", what, kind, i, hex(&key)));
                }
            }
        });
        let mut b = self.bits.lock().unwrap();
        for (i, k) in ks.iter().enumerate() {
            let e = b.entry((kind, i)).or_insert_with(|| (0, vec![0; 256]));
            e.0 += 1;
            let t = k.to_bytes();
            for bit in 0..252 {
                e.1[bit] += u64::from(t[bit / 8] >> (bit % 8) & 1);
            }
        }
    }
}

/// The statement and secrets every process and thread uses.
fn fixed(kind: usize) -> (Vec<RistrettoPoint>, Vec<Scalar>) {
    let all = specs();
    let mut rng = ChaChaRng::from_seed([kind as u8; 32]);
    let secrets: Vec<Scalar> = all[kind].secrets.iter().map(|_| Scalar::random(&mut rng)).collect();
    let d = all[kind].statement(&mut rng, &secrets, &[], None);
    (points(&d), secrets)
}

/// Statements which differ from the fixed one in as little as possible.
fn variants(kind: usize) -> Vec<(String, &'static [u8], Vec<RistrettoPoint>, Vec<Scalar>)> {
    let (p, s) = fixed(kind);
    let names = &specs()[kind];
    let mut rng = ChaChaRng::from_seed([100 + kind as u8; 32]);
    let mut v = vec![("the statement itself".to_string(), CONTEXT, p.clone(), s.clone())];
    for i in 0..p.len() {
        for (what, q) in vec![("random", rpoint(&mut rng)), ("negated", -p[i])] {
            let mut x = p.clone();
            x[i] = q;
            v.push((format!("{} {}", names.publics[i], what), CONTEXT, x, s.clone()));
        }
    }
    for i in 0..s.len() {
        let mut high = s[i].to_bytes();
        high[31] ^= 1;
        for (what, t) in vec![("random", Scalar::random(&mut rng)), ("one more", s[i] + Scalar::one()), ("negated", -s[i]),
                              ("another top byte", Scalar::from_bytes_mod_order(high)), ("zero", Scalar::zero())] {
            let mut x = s.clone();
            x[i] = t;
            v.push((format!("{} {}", names.secrets[i], what), CONTEXT, p.clone(), x));
        }
        for j in 0..i {
            let mut x = s.clone();
            x.swap(i, j);
            v.push((format!("{} and {} exchanged", names.secrets[i], names.secrets[j]), CONTEXT, p.clone(), x));
        }
    }
    for c in &[&b"C08"[..], b"", b"C07 "] {
        v.push((format!("context {:?}", c), *c, p.clone(), s.clone()));
    }
    v
}

/// Run `f` in a forked copy of this process, and give back what it wrote.
fn forked<F: FnOnce() -> Vec<u8>>(f: F) -> Vec<u8> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("HARNESS: pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("HARNESS: fork");
        }
        if pid == 0 {
            let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_default();
            let mut at = 0;
            while at < out.len() {
                let n = libc::write(fds[1], out[at..].as_ptr() as *const libc::c_void, out.len() - at);
                if n <= 0 { break; }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 { break; }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        out
    }
}

/// A child process: print `n` proofs of each fixed statement.
fn child(n: usize) {
    for kind in 0..5 {
        let (p, s) = fixed(kind);
        for _ in 0..n {
            println!("{} {}", kind, hex(&lib_prove(kind, CONTEXT, &p, &s)));
        }
    }
}

fn run_child(n: usize, entropy: Option<&[u8; 32]>) -> Vec<(usize, Vec<u8>)> {
    let mut c = Command::new(std::env::current_exe().expect("HARNESS: exe"));
    c.env("VH_C07", n.to_string()).stdout(Stdio::piped()).stderr(Stdio::null());
    if let Some(e) = entropy {
        c.env("VH_C07_ENTROPY", hex(e));
    }
    let out = c.output().expect("HARNESS: child");
    if !out.status.success() {
        panic!("HARNESS: child ended with {}", out.status);
    }
    String::from_utf8(out.stdout).expect("HARNESS: utf-8").lines().map(|l| {
        let mut w = l.split(' ');
        (w.next().unwrap().parse().expect("HARNESS: kind"), unhex(w.next().unwrap()))
    }).collect()
}

fn main() {
    if let Ok(n) = std::env::var("VH_C07") {
        if let Ok(e) = std::env::var("VH_C07_ENTROPY") {
            let mut s = [0u8; 32];
            s.copy_from_slice(&unhex(&e));
            unsafe { ENTROPY = Some(ChaChaRng::from_seed(s)); }
        }
        return child(n.parse().expect("HARNESS: VH_C07"));
    }
    let ctx = Ctx::new("C07");
    let seen: &'static Seen = Box::leak(Box::new(Seen {
        ks: Mutex::new(HashMap::new()), diffs: Mutex::new(HashSet::new()), bits: Mutex::new(HashMap::new()),
    }));

    // The state of the generator of this thread, duplicated.  Must come first: no other thread exists yet.
    ctx.single("fork", |_| {
        for kind in 0..5 {
            let (p, s) = fixed(kind);
            lib_prove(kind, CONTEXT, &p, &s); // so that there is a state to duplicate
            let vs = variants(kind);
            let mut ks: Vec<(String, Vec<Scalar>)> = Vec::new();
            for (what, context, p, s) in &vs {
                let out = forked(|| lib_prove(kind, context, p, s));
                if out.is_empty() {
                    panic!("HARNESS: a forked process gave no proof");
                }
                ctx.eval("forked processes");
                ks.push((what.clone(), nonces(&out, s).1));
            }
            // Is the state shared at all?
            let again = forked(|| lib_prove(kind, CONTEXT, &p, &s));
            if nonces(&again, &s).1 == ks[0].1 {
                ctx.eval("forked processes which shared the generator's state");
            }
            for i in 0..ks.len() {
                for j in 0..i {
                    ctx.eval("pairs of forked processes");
                    ctx.seen("fork", format!("{} {} {}", kind, i, j).as_bytes());
                    for a in 0..ks[i].1.len() {
                        for b in 0..ks[j].1.len() {
                            ctx.check(norm(&ks[i].1[a]) != norm(&ks[j].1[b]), "fork-shares-nonce", || format!(
                                "kind {}: nonce {} of {} is nonce {} of {}", kind, a, ks[i].0, b, ks[j].0));
                        }
                    }
                }
                ctx.check(ks[i].1.iter().all(|k| *k != Scalar::zero()), "zero-nonce", || ks[i].0.clone());
            }
            ctx.sample("fork", || format!("kind {}: {} variants, such as {}", kind, vs.len(), vs[vs.len() / 2].0));
        }
    });

    // Repetition of one statement.
    ctx.par("repeat", ctx.n(240), move |i, _| {
        let kind = i as usize % 5;
        let (p, s) = fixed(kind);
        for _ in 0..50 {
            let (c, k) = nonces(&lib_prove(kind, CONTEXT, &p, &s), &s);
            ctx.eval("proofs of one statement");
            seen.note(ctx, kind, "repeated", &k, &s, &c);
        }
    });
    // Threads which have just begun, each with a generator of its own.
    ctx.single("threads", |_| {
        let hs: Vec<_> = (0..ctx.n(160)).map(|i| std::thread::spawn(move || {
            let kind = i % 5;
            let (p, s) = fixed(kind);
            let (c, k) = nonces(&lib_prove(kind, CONTEXT, &p, &s), &s);
            ctx.eval("first proofs of threads");
            seen.note(ctx, kind, "new thread's", &k, &s, &c);
            ctx.flush();
        })).collect();
        for h in hs { h.join().expect("HARNESS: join"); }
    });
    // Other processes.
    ctx.par("processes", ctx.n(40), move |_, _| {
        for (kind, b) in run_child(2, None) {
            let s = fixed(kind).1;
            let (c, k) = nonces(&b, &s);
            ctx.eval("proofs of other processes");
            seen.note(ctx, kind, "other process's", &k, &s, &c);
        }
    });
    // The same statement, with system entropy which differs in one bit.
    ctx.par("entropy", 1, move |_, rng| {
        let mut e = [0u8; 32];
        rng.fill_bytes(&mut e);
        let ks = |e: &[u8; 32]| -> Vec<Vec<Scalar>> {
            run_child(1, Some(e)).iter().map(|(kind, b)| nonces(b, &fixed(*kind).1).1).collect()
        };
        let (x, y) = (ks(&e), ks(&e));
        for i in 0..8 {
            let mut f = e;
            f[4 * i] ^= 1 << i;
            let z = ks(&f);
            for kind in 0..5 {
                if x[kind] != y[kind] {
                    // It depends on something else as well; what, this cannot tell.
                    ctx.eval("proofs which do not depend on entropy alone");
                    continue;
                }
                for a in 0..x[kind].len() {
                    ctx.eval("nonces with other entropy");
                    ctx.check(x[kind][a] != z[kind][a], "nonce-without-entropy", || format!("kind {}, nonce {}", kind, a));
                }
            }
        }
    });
    // Random and special secrets and statements.
    ctx.par("statements", ctx.n(1500), move |i, rng| {
        let all = specs();
        let kind = i as usize % 5;
        let special_too = rng.next_u32() % 2 == 0;
        let s: Vec<Scalar> = all[kind].secrets.iter().map(|_| if special_too { special(rng) } else { Scalar::random(rng) }).collect();
        let d = all[kind].statement(rng, &s, &[], None);
        let (c, k) = nonces(&lib_prove(kind, all[kind].context, &points(&d), &s), &s);
        ctx.eval("proofs of other statements");
        seen.note(ctx, kind, "other", &k, &s, &c);
    });
    // Those of the protocol, as far as the secrets are known to the monitor.
    ctx.par("protocol", ctx.n(300), move |_, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let m = encode(&n);
        let key = &w.issuer.issuer.keypair.secret;
        let mut u = w.user(&n);
        let seed: [u8; 32] = rng.gen();
        for _ in 0..3 {
            // The caller's generator may well be in the same state again.
            let i = w.issuer.issue(&n, &mut ChaChaRng::from_seed(seed)).expect("issue");
            let p = RefProof::from_bytes(&bincode::serialize(&i.proof).unwrap()).expect("HARNESS: proof");
            let s = [key.x0, key.xn[0], m * key.xn[0]];
            let k: Vec<Scalar> = [0usize, 1, 3].iter().zip(&s).map(|(j, s)| p.r[*j] - p.c * s).collect();
            ctx.eval("issuances");
            seen.note(ctx, 5, "issuance", &k, &s, &p.c);
            u.obtain_finish(Some(&i)).expect("obtain_finish");
            let e = w.entry(&n, rng);
            for _ in 0..2 {
                let mut r = ChaChaRng::from_seed(seed);
                let x = u.show(&mut r, &e).expect("show");
                let a = RefProof::from_bytes(&bincode::serialize(&x.presentation.proof).unwrap()).expect("HARNESS: proof");
                let b = RefProof::from_bytes(&bincode::serialize(&x.roster_membership_proof).unwrap()).expect("HARNESS: proof");
                let o = scalar(&e.opening.to_bytes()).unwrap();
                ctx.eval("presentations");
                // Both know m0; only the second has the opening of the entry.
                seen.note(ctx, 6, "presentation", &[a.r[0] - a.c * m, b.r[0] - b.c * m, b.r[2] - b.c * o], &[m, o], &a.c);
                ctx.check(a.c != b.c, "challenges-equal", || hex(a.c.as_bytes()));
                // z0 is shared by both proofs as well: with one nonce for it, it could be computed, and would explain the commitment.
                if a.c != b.c {
                    let z = (a.r[1] - b.r[1]) * (a.c - b.c).invert();
                    let cm: RistrettoPoint = x.presentation.attributes_blinded[0].into();
                    ctx.check(m * x.presentation.rerandomized_nonce + z * w.params.h != cm, "nonce-repeated",
                              || format!("the two proofs of a presentation hide the blinding of the attribute with one nonce: {}", hex(&x.to_bytes())));
                }
            }
        }
    });
    ctx.single("bias", |_| {
        let b = seen.bits.lock().unwrap();
        let mut ks: Vec<_> = b.iter().collect();
        ks.sort();
        for ((kind, i), (n, bits)) in ks {
            // 7 sigma, for some 7000 of these
            let (n, dev) = (*n as f64, 7.0 * 0.5 * (*n as f64).sqrt());
            if n < 200.0 {
                continue;
            }
            for bit in 0..252 {
                ctx.eval("bits of nonces weighed");
                ctx.check((bits[bit] as f64 - n / 2.0).abs() <= dev, "nonce-biased", || format!(
                    "kind {}, nonce {}: bit {} is set in {} of {}", kind, i, bit, bits[bit], n));
            }
        }
        ctx.sample("nonces", || format!("{} different nonces in one table", seen.ks.lock().unwrap().len()));
    });
    ctx.finish("nonces k = r - c s of proofs with known secrets; distinct by value, and by pair of variants proved in forked processes");
}
