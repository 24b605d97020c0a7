//! C08, with the blindings themselves.
//!
//! The curve's arithmetic is a copy with one hook: it hands over each scalar that a point is multiplied with.  The
//! blindings, as multiples of G, are taken out of presentations and issuances by known logarithms; the scalars among those
//! handed over which fit are the blindings.  With them (and the nonces of the proofs, which follow), what c08 can tell of
//! sums and differences can be told of any algebra, of bits, and of bytes.
#![allow(non_snake_case)]

use curve25519_dalek::ristretto::WATCH;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use vh::blind::*;
use vh::nizk::*;
use vh::proto::*;
use vh::*;

thread_local!(static LOG: RefCell<Option<Vec<Scalar>>> = RefCell::new(None));

fn watched(s: &Scalar) {
    LOG.with(|l| if let Some(v) = l.borrow_mut().as_mut() { v.push(*s) });
}

fn watching<T, F: FnOnce() -> T>(f: F) -> (T, Vec<Scalar>) {
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
    let x = f();
    (x, LOG.with(|l| l.borrow_mut().take().unwrap()))
}

fn norm(k: &Scalar) -> [u8; 32] {
    let (a, b) = (k.to_bytes(), (-k).to_bytes());
    if a < b { a } else { b }
}

/// Those of some multiples of G whose factors are known.
fn find(ctx: &'static Ctx, points: &[(&'static str, RistrettoPoint)], log: &[Scalar]) -> Vec<(&'static str, Scalar)> {
    let mut by: HashMap<[u8; 32], Scalar> = HashMap::new();
    for s in log {
        let p = s * &curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
        by.insert(enc(&p), *s);
        by.insert(enc(&-p), -s);
    }
    let mut out = Vec::new();
    for (name, p) in points {
        match by.get(&enc(p)) {
            Some(s) => { ctx.eval("blindings seen"); out.push((*name, *s)); }
            None => ctx.eval("blindings not seen"),
        }
    }
    out
}

#[derive(Default)]
struct All {
    /// By name: how many, and how often each bit was set; by two names, how often it was the same in both.
    bits: Mutex<HashMap<(String, String), (u64, Vec<u64>)>>,
    relations: Mutex<HashMap<[u8; 32], String>>,
    pieces: Mutex<HashMap<[u8; 8], String>>,
}

impl All {
    /// `new` are random values of one object, `old` those of the one before it made by the same, `known` others beside them.
    fn note(&self, ctx: &'static Ctx, here: &str, new: &[(&'static str, Scalar)], old: &[(&'static str, Scalar)],
            older: &[(&'static str, Scalar)], known: &[(&'static str, Scalar)]) {
        // Bits, and bits in common.
        {
            let mut bits = self.bits.lock().unwrap();
            let mut add = |a: String, b: String, x: [u8; 32]| {
                let e = bits.entry((a, b)).or_insert((0, vec![0; 252]));
                e.0 += 1;
                for i in 0..252 { e.1[i] += u64::from(x[i / 8] >> (i % 8) & 1); }
            };
            for (i, (name, s)) in new.iter().enumerate() {
                add(name.to_string(), String::new(), s.to_bytes());
                let with = new[..i].iter().map(|(n, t)| (n.to_string(), t))
                    .chain(old.iter().map(|(n, t)| (format!("{} before", n), t)));
                for (other, t) in with {
                    let (x, y) = (s.to_bytes(), t.to_bytes());
                    let mut z = [0u8; 32];
                    for j in 0..32 { z[j] = x[j] ^ y[j]; }
                    add(name.to_string(), other, z);
                }
                ctx.eval("values whose bits are counted");
                ctx.seen("value", s.as_bytes());
            }
        }
        // Pieces of 8 bytes.
        for (name, s) in new {
            for x in &[s.to_bytes(), (-s).to_bytes()] {
                for i in 0..4 {
                    let w = &x[8 * i..8 * i + 8];
                    let short = if i == 3 { w[..7].iter().all(|c| *c == 0) && w[7] < 16 } else { w.iter().all(|c| *c == 0) };
                    ctx.check(!short && !(i == 3 && w == [255, 255, 255, 255, 255, 255, 255, 15]), "short", || format!("{} of {} is {}", name, here, hex(s.as_bytes())));
                }
            }
            let x = s.to_bytes();
            let mut pieces = self.pieces.lock().unwrap();
            for i in 0..25 {
                let mut w = [0u8; 8];
                w.copy_from_slice(&x[i..i + 8]);
                ctx.eval("pieces of values");
                if let Some(o) = pieces.insert(w, format!("{} of {}", name, here)) {
                    ctx.violation("piece-repeated", format!("8 bytes of {} of {} are also in {}: {}", name, here, o, hex(&w)));
                }
            }
        }
        // Algebra: none is made from two or three others.
        let one = [("one", Scalar::one())];
        for (i, (name, s)) in new.iter().enumerate() {
            let mut from: Vec<(String, Scalar)> = Vec::new();
            let others = new.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| (x.0.to_string(), x.1))
                .chain(old.iter().map(|(n, t)| (format!("{} before", n), *t)))
                .chain(known.iter().chain(&one).map(|(n, t)| (n.to_string(), *t))).collect::<Vec<_>>();
            for (n, x) in &others {
                if *x == Scalar::zero() { continue; }
                let b = x.to_bytes();
                let (mut low, mut high, mut back) = ([0u8; 32], [0u8; 32], b);
                low[..16].copy_from_slice(&b[..16]);
                high[..16].copy_from_slice(&b[16..]);
                back.reverse();
                from.push((n.clone(), *x));
                if n == "one" { continue; }
                from.push((format!("the square of {}", n), x * x));
                from.push((format!("the cube of {}", n), x * x * x));
                from.push((format!("the inverse of {}", n), x.invert()));
                from.push((format!("the hash of {}", n), Scalar::hash_from_bytes::<sha2::Sha512>(&b)));
                from.push((format!("twice {}", n), x + x));
                from.push((format!("half of {}", n), x * Scalar::from(2u64).invert()));
                from.push((format!("the first half of {}", n), Scalar::from_bytes_mod_order(low)));
                from.push((format!("the second half of {}", n), Scalar::from_bytes_mod_order(high)));
                from.push((format!("{} reversed", n), Scalar::from_bytes_mod_order(back)));
            }
            let table: HashMap<[u8; 32], usize> = from.iter().enumerate().map(|(j, x)| (norm(&x.1), j)).collect();
            let inverses: Vec<Scalar> = from.iter().map(|x| if x.1 == Scalar::zero() { Scalar::zero() } else { x.1.invert() }).collect();
            // Hashes of two values, one after the other.
            for (a, x) in &others {
                for (b, y) in &others {
                    let h = Scalar::hash_from_bytes::<sha2::Sha512>(&[x.to_bytes(), y.to_bytes()].concat());
                    ctx.check(norm(&h) != norm(s), "related", || format!("{} of {} is the hash of {} and {}", name, here, a, b));
                }
            }
            let mut tried = 0;
            let mut look = |t: Scalar, how: &Fn(&str) -> String| {
                tried += 1;
                if let Some(j) = table.get(&norm(&t)) {
                    ctx.violation("related", format!("{} of {} is {}", name, here, how(&from[*j].0)));
                }
            };
            look(*s, &|x| format!("{} or its negation", x));
            for (a, u) in &from {
                look(s - u, &|x| format!("a sum of {} and {}", a, x));
                look(s + u, &|x| format!("a difference of {} and {}", a, x));
            }
            for ((a, _), v) in from.iter().zip(&inverses) {
                if *v == Scalar::zero() { continue; }
                look(s * v, &|x| format!("a product of {} and {}", a, x));
                // The sum of a product and something; the plainest only.
                for (b, w) in &others {
                    look((s - w) * v, &|x| format!("a product of {} and {}, and {}", a, x, b));
                    look((s + w) * v, &|x| format!("a product of {} and {}, less {}", a, x, b));
                }
            }
            ctx.evals("ways to make a value from others beside it", tried);
        }
        // Nothing made from two of them comes again: the same constant somewhere would show.
        let mut again = |x: Scalar, what: String| {
            ctx.eval("values made from two, which may not repeat");
            if x == Scalar::zero() { return; }
            if let Some(o) = self.relations.lock().unwrap().insert(norm(&x), format!("{} of {}", what, here)) {
                ctx.violation("related", format!("{} of {} is also {}", what, here, o));
            }
        };
        let earlier: Vec<(String, Scalar)> = old.iter().map(|(n, t)| (format!("{} before", n), *t)).collect();
        for (i, (name, s)) in new.iter().enumerate() {
            for (n, t) in new[..i].iter().map(|(n, t)| (n.to_string(), *t)).chain(earlier.iter().cloned()) {
                if t == Scalar::zero() || *s == Scalar::zero() { continue; }
                let v = t.invert();
                again(s * v, format!("the ratio of {} and {}", name, n));
                again(s * t, format!("the product of {} and {}", name, n));
                again(s - t, format!("the difference of {} and {}", name, n));
                again(s + t, format!("the sum of {} and {}", name, n));
                again(s * v * v, format!("the ratio of {} and the square of {}", name, n));
                again(s * s * v, format!("the ratio of the square of {} and {}", name, n));
                again(s - t * t, format!("the difference of {} and the square of {}", name, n));
                again(s * s - t, format!("the difference of the square of {} and {}", name, n));
            }
            let (a, b) = (old.iter().find(|x| x.0 == *name), older.iter().find(|x| x.0 == *name));
            if let (Some((_, a)), Some((_, b))) = (a, b) {
                if a != b { again((s - a) * (a - b).invert(), format!("the ratio of the last two steps of {}", name)); }
            }
        }
    }

    fn weigh(&self, ctx: &'static Ctx) {
        for ((a, b), (n, ones)) in self.bits.lock().unwrap().iter() {
            if *n < 300 { continue; }
            for (i, k) in ones.iter().enumerate() {
                ctx.eval("bits weighed");
                let z = (*k as f64 - *n as f64 / 2.0) / (*n as f64 / 4.0).sqrt();
                ctx.check(z.abs() < 7.0, "biased", || if b.is_empty() { format!("bit {} of {} is set in {} of {}", i, a, k, n) }
                          else { format!("bit {} of {} differs from that of {} in {} of {}", i, a, b, k, n) });
            }
        }
    }
}

/// The nonces of a proof, of which some secrets are known.
fn nonces(b: &[u8], secrets: &[(&'static str, Option<Scalar>)]) -> Vec<(&'static str, Scalar)> {
    let p = RefProof::from_bytes(b).expect("HARNESS: proof");
    if p.r.len() != secrets.len() { panic!("HARNESS: responses"); }
    p.r.iter().zip(secrets).filter_map(|(r, (n, s))| s.map(|s| (*n, r - p.c * s))).collect()
}

fn get(v: &[(&'static str, Scalar)], name: &str) -> Option<Scalar> {
    v.iter().find(|x| x.0 == name).map(|x| x.1)
}

fn main() {
    let ctx = Ctx::new("C08");
    WATCH.store(watched as fn(&Scalar) as usize, Ordering::SeqCst);
    let all: &'static All = Box::leak(Box::new(All::default()));

    ctx.par("watched-presentations", ctx.n(250), move |case, rng| {
        let (params, a) = known_params(rng);
        let w = World::with(params, rng);
        let n = number(rng);
        let m = encode(&n);
        let t = Scalar::random(rng);
        let u = known_user(&w, &n, &t);
        let one = w.entry(&n, rng);
        let mut steady = ChaChaRng::from_seed(rng.gen());
        let mut system = rand::thread_rng();
        let (mut old, mut older) = (Vec::new(), Vec::new());
        for i in 0..10 {
            let here = format!("presentation {} of case {}", i, case);
            let another = if i % 5 == 4 { Some(w.entry(&n, rng)) } else { None };
            let e = another.as_ref().unwrap_or(&one);
            let (x, log) = watching(|| match (case + i) % 3 {
                0 => u.show(&mut ChaChaRng::from_seed(rng.gen()), e),
                1 => u.show(&mut system, e),
                _ => u.show(&mut steady, e),
            });
            let x = x.expect("show");
            ctx.eval("presentations");
            let p = &x.presentation;
            if p.attributes_blinded.len() != 1 { ctx.violation("shape", here.clone()); continue; }
            let mut new = find(ctx, &factors(&w, &n, p, &t, &a), &log);
            let z0 = get(&new, "the blinding of the attribute");
            let zQ = get(&new, "the blinding of the MAC");
            let o = scalar(&e.opening.to_bytes()).expect("HARNESS: opening");
            new.extend(nonces(&bincode::serialize(&p.proof).unwrap(),
                              &[("the credential proof's nonce for m0", Some(m)), ("the credential proof's nonce for z0", z0), ("the credential proof's nonce for zQ", zQ.map(|z| -z))]));
            new.extend(nonces(&bincode::serialize(&x.roster_membership_proof).unwrap(),
                              &[("the membership proof's nonce for m0", Some(m)), ("the membership proof's nonce for z0", z0), ("the membership proof's nonce for the opening", Some(o))]));
            all.note(ctx, &here, &new, &old, &older, &[("the nonce of the credential", t), ("the number", m), ("the opening of the entry", o)]);
            ctx.sample("presentation", || format!("{}: {} scalars handed over; {}", here, log.len(), new.iter().map(|x| format!("{} {}", x.0, hex(x.1.as_bytes()))).collect::<Vec<_>>().join(", ")));
            older = old;
            old = new;
        }
    });

    ctx.par("watched-issuances", ctx.n(150), move |case, rng| {
        let (params, a) = known_params(rng);
        let w = World::with(params, rng);
        let key = w.issuer.issuer.keypair.secret.clone();
        let n = number(rng);
        let m = encode(&n);
        let mut steady = ChaChaRng::from_seed(rng.gen());
        let mut system = rand::thread_rng();
        let (mut old, mut older) = (Vec::new(), Vec::new());
        for i in 0..8 {
            let here = format!("issuance {} of case {}", i, case);
            let (x, log) = watching(|| match (case + i) % 3 {
                0 => w.issuer.issue(&n, &mut ChaChaRng::from_seed(rng.gen())),
                1 => w.issuer.issue(&n, &mut system),
                _ => w.issuer.issue(&n, &mut steady),
            });
            let x = x.expect("issue");
            ctx.eval("issuances");
            let cx: RistrettoPoint = x.secret_key_commitment.into();
            let points = [("the nonce", x.credential.mac.nonce), ("the blinding of the key", a.invert() * (cx - key.x0 * params.g))];
            // A nonce may be made without its logarithm.
            let mut new = find(ctx, &points, &log);
            let blinding = get(&new, "the blinding of the key");
            new.extend(nonces(&bincode::serialize(&x.proof).unwrap(), &[("the proof's nonce for x0", Some(key.x0)), ("the proof's nonce for x1", Some(key.xn[0])),
                              ("the proof's nonce for the blinding", blinding), ("the proof's nonce for m1x1", Some(m * key.xn[0]))]));
            all.note(ctx, &here, &new, &old, &older, &[("x0", key.x0), ("x1", key.xn[0]), ("the number", m)]);
            older = old;
            old = new;
        }
        let (mut old, mut older) = (Vec::new(), Vec::new());
        for i in 0..8 {
            let here = format!("roster entry {} of case {}", i, case);
            let e = match (case + i) % 3 {
                0 => RosterEntryCommitment::create(&n, &params, &mut ChaChaRng::from_seed(rng.gen())),
                1 => RosterEntryCommitment::create(&n, &params, &mut system),
                _ => RosterEntryCommitment::create(&n, &params, &mut steady),
            }.expect("entry");
            let new = vec![("the opening", scalar(&e.opening.to_bytes()).expect("HARNESS: opening"))];
            all.note(ctx, &here, &new, &old, &older, &[("the number", m)]);
            older = old;
            old = new;
        }
    });
    all.weigh(ctx);
    ctx.finish("presentations, issuances and roster entries whose blindings and proof nonces were learnt from the arithmetic; distinct by each value");
}
