//! C08: presentations are unlinkable, because all their randomness is fresh.
//!
//! The monitor knows the issuer's key, the discrete logarithm of `h`, and that of the nonce on the credential's MAC.
//! That lets it take the rerandomisation factor, and the blindings of both commitments, out of a presentation, as
//! multiples of the basepoint, whatever the library did to make them.
#![allow(non_snake_case)]

use std::collections::HashSet;
use vh::blind::*;
use vh::nizk::*;
use vh::proto::*;
use vh::*;

struct All {
    elements: Table,
    scalars: Table,
    blindings: Table,
    relations: Table,
    small: HashSet<[u8; 32]>,
}

impl All {
    /// Three or fewer blinding factors of one object, as multiples of G, and those which went before them.
    fn blind(&self, ctx: &'static Ctx, here: &str, b: &[(&str, RistrettoPoint)], before: &mut Vec<RistrettoPoint>) {
        for (name, p) in b {
            self.blindings.point(ctx, p, &format!("{} of {}", name, here));
            ctx.eval("blindings looked up among small numbers");
            ctx.check(!self.small.contains(&enc(p)), "small", || format!("{} of {} is a small number", name, here));
        }
        for i in 0..b.len() {
            for j in 0..i {
                for q in &[b[i].1 - b[j].1, b[i].1 + b[j].1] {
                    self.relations.point(ctx, q, &format!("the difference or sum of {} and {} of {}", b[i].0, b[j].0, here));
                    ctx.check(!self.small.contains(&enc(q)), "small", || format!("the difference of {} and {} of {} is small", b[i].0, b[j].0, here));
                }
                for k in 2..9u64 {
                    ctx.eval("multiples");
                    ctx.check(Scalar::from(k) * b[i].1 != b[j].1 && Scalar::from(k) * b[j].1 != b[i].1, "multiple",
                              || format!("{} and {} of {}", b[i].0, b[j].0, here));
                }
            }
        }
        if before.len() == b.len() {
            for (i, (name, p)) in b.iter().enumerate() {
                let q = p - before[i];
                self.relations.point(ctx, &q, &format!("the step of {} to {}", name, here));
                ctx.check(!self.small.contains(&enc(&q)), "small", || format!("{} of {} is a small step from the one before", name, here));
                for k in 2..5u64 {
                    ctx.check(Scalar::from(k) * before[i] != *p && Scalar::from(k) * p != before[i], "multiple", || format!("{} of {} and the one before", name, here));
                }
            }
        }
        *before = b.iter().map(|x| x.1).collect();
    }

    /// None of the blindings is what anyone can compute who sees the rest, in any of the ways one would do that.
    fn derived(&self, ctx: &'static Ctx, here: &str, b: &[(&str, RistrettoPoint)], publics: &[(&str, Vec<u8>)]) {
        let mut guesses: Vec<(String, Scalar)> = Vec::new();
        for (x, p) in publics {
            guesses.push((format!("the hash of {}", x), Scalar::hash_from_bytes::<sha2::Sha512>(p)));
            if p.len() == 32 {
                let mut t = [0u8; 32];
                t.copy_from_slice(p);
                guesses.push((format!("the number written as {}", x), Scalar::from_bytes_mod_order(t)));
            }
            for (y, q) in publics {
                if x != y {
                    guesses.push((format!("the hash of {} and {}", x, y), Scalar::hash_from_bytes::<sha2::Sha512>(&[&p[..], &q[..]].concat())));
                }
            }
        }
        for (what, s) in &guesses {
            let g = enc(&(s * &curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE));
            let n = enc(&-dec(&g).unwrap());
            for (name, p) in b {
                let p = enc(p);
                ctx.check(p != g && p != n, "guessable", || format!("{} of {} is {}", name, here, what));
            }
        }
        ctx.evals("ways to compute a blinding from what is public", (guesses.len() * b.len()) as u64);
    }

    fn proof(&self, ctx: &'static Ctx, here: &str, b: &[u8]) {
        let p = RefProof::from_bytes(b).expect("HARNESS: proof");
        self.scalars.scalar(ctx, &p.c, &format!("the challenge of {}", here));
        for (i, r) in p.r.iter().enumerate() {
            self.scalars.scalar(ctx, r, &format!("response {} of {}", i, here));
        }
    }
}

/// A generator which gives a fixed stream of bytes, however it is asked.
#[derive(Clone)]
struct Stream { b: Vec<u8>, at: usize }

impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 { let mut x = [0u8; 4]; self.fill_bytes(&mut x); u32::from_le_bytes(x) }
    fn next_u64(&mut self) -> u64 { let mut x = [0u8; 8]; self.fill_bytes(&mut x); u64::from_le_bytes(x) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = self.b[self.at % self.b.len()];
            self.at += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand::CryptoRng for Stream {}

/// How much of what the caller's generator gave each value depends on: at least 32 bytes, or it can be guessed.
fn influence<F: Fn(&mut Stream) -> Vec<(&'static str, Vec<u8>)>>(ctx: &'static Ctx, here: &str, rng: &mut ChaChaRng, f: F) {
    let mut b = vec![0u8; 512];
    rng.fill_bytes(&mut b);
    let mut s = Stream { b: b.clone(), at: 0 };
    let base = f(&mut s);
    let used = s.at.min(b.len());
    let again = f(&mut Stream { b: b.clone(), at: 0 });
    let mut counts = vec![0usize; base.len()];
    for i in 0..used {
        let mut c = b.clone();
        c[i] ^= 0x10;
        let x = f(&mut Stream { b: c, at: 0 });
        for (j, y) in x.iter().enumerate() {
            if y.1 != base[j].1 {
                counts[j] += 1;
            }
        }
    }
    for (j, (name, v)) in base.iter().enumerate() {
        if again[j].1 != *v {
            ctx.eval("values which do not depend on the caller's generator alone");
            continue;
        }
        ctx.eval("values traced to the bytes they depend on");
        ctx.seen("influence", format!("{} {} {}", here, name, counts[j]).as_bytes());
        ctx.sample("influence", || format!("{} of {} depends on {} of {} bytes", name, here, counts[j], used));
        ctx.check(counts[j] >= 32, "guessable", || format!("{} of {} depends on {} bytes of randomness", name, here, counts[j]));
    }
}

fn main() {
    let ctx = Ctx::new("C08");
    let mut small = HashSet::new();
    let mut p = RistrettoPoint::identity();
    for _ in 0..4096 {
        small.insert(enc(&p));
        small.insert(enc(&-p));
        p += G;
    }
    let all: &'static All = Box::leak(Box::new(All {
        elements: Table::new("group elements"), scalars: Table::new("proof scalars"), blindings: Table::new("blinding factors"),
        relations: Table::new("relations between blinding factors"), small,
    }));

    ctx.par("presentations", ctx.n(200), move |case, rng| {
        let (params, a) = known_params(rng);
        let w = World::with(params, rng);
        let n = number(rng);
        let t = Scalar::random(rng);
        let u = known_user(&w, &n, &t);
        let c = u.user.credential.clone().unwrap();
        let m = encode(&n);
        let here = format!("the credential of case {}", case);
        all.elements.point(ctx, &c.mac.nonce, &format!("the nonce of {}", here));
        all.elements.point(ctx, &c.mac.mac, &format!("the MAC of {}", here));
        all.blindings.point(ctx, &(t * G), &format!("the nonce of {}", here));
        let one = w.entry(&n, rng);
        all.blindings.point(ctx, &(scalar(&one.opening.to_bytes()).unwrap() * G), &format!("the opening of the entry of case {}", case));
        all.elements.point(ctx, &one.commitment.0.into(), &format!("the entry of case {}", case));
        let mut before = Vec::new();
        let mut steady = ChaChaRng::from_seed(rng.gen());
        let mut system = rand::thread_rng();
        for i in 0..10 {
            let here = format!("presentation {} of case {}", i, case);
            let another = if i % 3 == 0 { Some(w.entry(&n, rng)) } else { None };
            let e = another.as_ref().unwrap_or(&one);
            let u = if i % 4 == 3 { SignalUser::from_bytes(&u.to_bytes()).expect("user") } else { known_user(&w, &n, &t) };
            // from one generator, from another with a new seed each time, or from the system's
            let x = match i % 5 {
                0 => u.show(&mut ChaChaRng::from_seed(rng.gen()), e),
                1 => u.show(&mut system, e),
                _ => u.show(&mut steady, e),
            }.expect("show");
            ctx.eval("presentations");
            ctx.check(x.roster_entry_commitment == e.commitment, "entry", || here.clone());
            let p = &x.presentation;
            if p.attributes_blinded.len() != 1 || !p.attributes_revealed.is_empty() {
                ctx.violation("shape", here.clone());
                continue;
            }
            all.elements.point(ctx, &p.rerandomized_nonce, &format!("the nonce of {}", here));
            all.elements.point(ctx, &p.rerandomized_mac_commitment.into(), &format!("the MAC commitment of {}", here));
            all.elements.point(ctx, &p.attributes_blinded[0].into(), &format!("the attribute commitment of {}", here));
            if another.is_some() {
                all.elements.point(ctx, &e.commitment.0.into(), &format!("the entry in {}", here));
                all.blindings.point(ctx, &(scalar(&e.opening.to_bytes()).unwrap() * G), &format!("the opening of the entry in {}", here));
            }
            all.proof(ctx, &format!("the credential proof of {}", here), &bincode::serialize(&p.proof).unwrap());
            all.proof(ctx, &format!("the membership proof of {}", here), &bincode::serialize(&x.roster_membership_proof).unwrap());
            let f = factors(&w, &n, p, &t, &a);
            all.blind(ctx, &here, &f, &mut before);
            if i < 5 {
                all.derived(ctx, &here, &f, &[
                    ("the nonce", enc(&p.rerandomized_nonce).to_vec()), ("the MAC commitment", p.rerandomized_mac_commitment.to_bytes()),
                    ("the attribute commitment", p.attributes_blinded[0].to_bytes()), ("the entry", e.commitment.to_bytes()),
                    ("the number", m.to_bytes().to_vec()), ("the digits", n.clone()), ("the credential", c.to_bytes()),
                    ("the nonce of the credential", enc(&c.mac.nonce).to_vec()), ("the MAC", enc(&c.mac.mac).to_vec()),
                    ("the issuer's key", w.ip.to_bytes()), ("h", enc(&params.h).to_vec()), ("nothing", vec![]),
                    ("the opening of the entry", e.opening.to_bytes()), ("the user", u.to_bytes()),
                ]);
            }
        }
        // The user without a number, who chooses the nonce for the attribute, and may choose it again.
        let mut before = Vec::new();
        for i in 0..3 {
            let here = format!("presentation {} without a number, of case {}", i, case);
            let nonces = Nonces::new(&mut steady, 1);
            let p = u.user.show(&nonces, &mut steady).expect("show");
            let f = factors(&w, &n, &p, &t, &a);
            let z: &Scalar = (&nonces[0]).into();
            ctx.check(f[1].1 == z * G, "attribute-blinding", || format!("the blinding of the attribute is not the given nonce, in {}", here));
            all.elements.point(ctx, &p.rerandomized_nonce, &format!("the nonce of {}", here));
            all.elements.point(ctx, &p.rerandomized_mac_commitment.into(), &format!("the MAC commitment of {}", here));
            all.elements.point(ctx, &p.attributes_blinded[0].into(), &format!("the attribute commitment of {}", here));
            all.proof(ctx, &here, &bincode::serialize(&p.proof).unwrap());
            all.blind(ctx, &here, &f, &mut before);
        }
    });

    ctx.par("issuances", ctx.n(150), move |case, rng| {
        let (params, a) = known_params(rng);
        let w = World::with(params, rng);
        let n = number(rng);
        let m = encode(&n);
        let mut steady = ChaChaRng::from_seed(rng.gen());
        let mut system = rand::thread_rng();
        let mut before = Vec::new();
        for i in 0..8 {
            let here = format!("issuance {} of case {}", i, case);
            let x = match i % 4 {
                0 => w.issuer.issue(&n, &mut ChaChaRng::from_seed(rng.gen())),
                1 => w.issuer.issue(&n, &mut system),
                _ => w.issuer.issue(&n, &mut steady),
            }.expect("issue");
            ctx.eval("issuances");
            all.elements.point(ctx, &x.credential.mac.nonce, &format!("the nonce of {}", here));
            all.elements.point(ctx, &x.credential.mac.mac, &format!("the MAC of {}", here));
            all.elements.point(ctx, &x.secret_key_commitment.into(), &format!("the key commitment of {}", here));
            ctx.check(x.credential.attributes == [m], "attributes", || here.clone());
            all.proof(ctx, &format!("the proof of {}", here), &bincode::serialize(&x.proof).unwrap());
            let cx: RistrettoPoint = x.secret_key_commitment.into();
            let f = vec![("the nonce", x.credential.mac.nonce), ("the blinding of the key", a.invert() * (cx - w.issuer.issuer.keypair.secret.x0 * params.g))];
            all.blind(ctx, &here, &f, &mut before);
            if i < 4 {
                all.derived(ctx, &here, &f, &[
                    ("the nonce", enc(&x.credential.mac.nonce).to_vec()), ("the MAC", enc(&x.credential.mac.mac).to_vec()),
                    ("the key commitment", x.secret_key_commitment.to_bytes()), ("the number", m.to_bytes().to_vec()),
                    ("the digits", n.clone()), ("the credential", x.credential.to_bytes()), ("the issuer's key", w.ip.to_bytes()),
                    ("h", enc(&params.h).to_vec()), ("nothing", vec![]),
                ]);
            }
        }
        let mut before = Vec::new();
        for i in 0..8 {
            let here = format!("roster entry {} of case {}", i, case);
            let e = match i % 4 {
                0 => RosterEntryCommitment::create(&n, &params, &mut ChaChaRng::from_seed(rng.gen())),
                1 => RosterEntryCommitment::create(&n, &params, &mut system),
                _ => RosterEntryCommitment::create(&n, &params, &mut steady),
            }.expect("entry");
            ctx.eval("roster entries");
            let o = scalar(&e.opening.to_bytes()).expect("HARNESS: opening");
            all.elements.point(ctx, &e.commitment.0.into(), &here);
            all.blind(ctx, &here, &[("the opening", o * G)], &mut before);
            all.derived(ctx, &here, &[("the opening", o * G)], &[
                ("the entry", e.commitment.to_bytes()), ("the number", m.to_bytes().to_vec()), ("the digits", n.clone()),
                ("h", enc(&params.h).to_vec()), ("nothing", vec![]), ("the parameters", params.to_bytes()),
            ]);
            let c: RistrettoPoint = e.commitment.0.into();
            ctx.check(c - m * params.h == o * params.g, "opening", || format!("the opening of {} is not the one in it", here));
        }
    });

    ctx.par("influence", ctx.n(24), move |case, rng| {
        let (params, a) = known_params(rng);
        let w = World::with(params, rng);
        let n = number(rng);
        let t = Scalar::random(rng);
        let u = known_user(&w, &n, &t);
        let e = w.entry(&n, rng);
        if case % 2 == 0 {
            influence(ctx, "presentations", rng, |s| {
                let x = u.show(s, &e).expect("show");
                factors(&w, &n, &x.presentation, &t, &a).into_iter().map(|(k, v)| (k, enc(&v).to_vec())).collect()
            });
        } else {
            influence(ctx, "issuances", rng, |s| {
                let x = w.issuer.issue(&n, s).expect("issue");
                vec![("the nonce", enc(&x.credential.mac.nonce).to_vec()), ("the key commitment", x.secret_key_commitment.to_bytes())]
            });
            influence(ctx, "roster entries", rng, |s| {
                vec![("the opening", RosterEntryCommitment::create(&n, &params, s).expect("entry").opening.to_bytes())]
            });
            influence(ctx, "tags", rng, |s| {
                let tag = w.issuer.issuer.keypair.secret.mac(&amacs::Message::from(encode(&n)), s).expect("mac");
                vec![("the nonce", enc(&tag.nonce).to_vec())]
            });
            influence(ctx, "rerandomisations", rng, |s| {
                let tag = amacs::Rerandomization::new(s).apply_to_tag(&u.user.credential.as_ref().unwrap().mac);
                vec![("the nonce", enc(&tag.nonce).to_vec())]
            });
            influence(ctx, "keys", rng, |s| {
                let k = amacs::SecretKey::new(3, s);
                let mut v = vec![("x0", k.x0.to_bytes().to_vec())];
                for x in &k.xn { v.push(("xi", x.to_bytes().to_vec())); }
                v
            });
            influence(ctx, "elgamal keys", rng, |s| vec![("the secret key", elgamal::SecretKey::generate(s).to_bytes())]);
            influence(ctx, "nonces", rng, |s| Nonces::new(s, 3).iter().map(|x| ("a nonce", x.to_bytes())).collect());
        }
    });
    ctx.finish("presentations, issuances and roster entries, made from one generator, from new seeds and from the system's; distinct by each \
                group element, proof scalar and extracted blinding factor");
}
