//! C03: roster membership is proven exactly for entries which commit to the credential's number.
//! Oracle: the number each entry was made for, and what was done to each presentation, are known from its making.
use vh::nizk::*;
use vh::proto::*;
use vh::*;

const ENTRY: usize = 0;
const PROOF: usize = 288;

struct T {
    ctx: &'static Ctx,
}

impl T {
    /// Verify and check membership of this; `None` if some step rejected it.
    fn member(&self, w: &World, bytes: &[u8]) -> Option<Vec<u8>> {
        let p = SignalCredentialPresentation::from_bytes(bytes).ok()?;
        let v = w.issuer.verify(p).ok()?;
        self.ctx.eval("memberships checked after verification");
        w.issuer.verify_roster_membership(&v).ok().map(|c| c.to_bytes())
    }

    /// The same, of a "verified" credential which was not verified again, such as one from storage.
    fn stored(&self, w: &World, bytes: &[u8]) -> Option<Vec<u8>> {
        let v = VerifiedSignalCredential::from_bytes(bytes).ok()?;
        self.ctx.eval("memberships checked of stored credentials");
        w.issuer.verify_roster_membership(&v).ok().map(|c| c.to_bytes())
    }

    fn reject(&self, w: &World, what: &str, bytes: &[u8]) {
        self.ctx.eval("presentations without membership");
        let a = self.member(w, bytes);
        let b = self.stored(w, bytes);
        self.ctx.seen(what, bytes);
        self.ctx.sample(what, || hex(bytes));
        if a.is_some() || b.is_some() {
            self.ctx.violation("false-membership", format!("{}: {}", what, hex(bytes)));
        }
    }

    fn accept(&self, w: &World, what: &str, bytes: &[u8], entry: &RosterEntryCommitment) {
        self.ctx.eval("presentations with membership");
        let want = Some(entry.commitment.to_bytes());
        let (a, b) = (self.member(w, bytes), self.stored(w, bytes));
        self.ctx.seen(what, bytes);
        self.ctx.sample(what, || hex(bytes));
        if a.is_none() || b.is_none() {
            self.ctx.violation("membership-rejected", format!("{}: {}", what, hex(bytes)));
        } else if a != want || b != want {
            self.ctx.violation("another-entry-returned", format!("{}: {} gave {:?} and {:?}", what, hex(bytes),
                a.map(|x| hex(&x)), b.map(|x| hex(&x))));
        }
    }
}

fn put(b: &[u8], at: usize, x: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v[at..at + x.len()].copy_from_slice(x);
    v
}

fn main() {
    let ctx = Ctx::new("C03");
    let t: &'static T = Box::leak(Box::new(T { ctx }));
    let all: &'static Vec<Spec> = Box::leak(Box::new(specs()));
    let eq = &all[COMMITTED_VALUES_EQUAL];

    // Every user against every entry.
    ctx.par("matrix", ctx.n(150), move |_, rng| {
        let w = World::new(rng);
        let n0 = number(rng);
        let mut numbers = vec![n0.clone()];
        while numbers.len() < 4 {
            let n = if rng.next_u32() % 3 == 0 { number(rng) } else { near(rng, &n0) };
            if !numbers.contains(&n) {
                numbers.push(n);
            }
        }
        let users: Vec<SignalUser> = numbers.iter().map(|n| w.enrolled(n, rng)).collect();
        let entries: Vec<(usize, RosterEntryCommitment)> = (0..6).map(|j| (j % 4, w.entry(&numbers[j % 4], rng))).collect();
        for (i, u) in users.iter().enumerate() {
            for (j, e) in &entries {
                match u.show(rng, e) {
                    Ok(p) => {
                        let b = p.to_bytes();
                        if i == *j {
                            t.accept(&w, "own entry", &b, e);
                        } else {
                            t.reject(&w, "entry of another number", &b);
                        }
                    }
                    Err(x) => { ctx.check(i != *j, "membership-rejected", || format!("show: {}", x)); }
                }
            }
        }
    });

    ctx.par("altered", ctx.n(45), move |_, rng| {
        let w = World::new(rng);
        let w2 = World::with(w.params, rng);
        let w3 = World::new(rng);
        let n = number(rng);
        let n2 = other_number(rng, &n);
        let u = w.enrolled(&n, rng);
        let (e1, e2, other) = (w.entry(&n, rng), w.entry(&n, rng), w.entry(&n2, rng));
        let p = u.show(rng, &e1).expect("show").to_bytes();
        t.accept(&w, "own entry", &p, &e1);
        // not opened correctly by the prover
        let o = |x: &RosterEntryCommitment| scalar(&x.opening.to_bytes()).unwrap();
        for x in vec![o(&e2), o(&other), Scalar::zero(), o(&e1) + Scalar::one(), -o(&e1), Scalar::random(rng), Scalar::one()] {
            let e = RosterEntryCommitment { commitment: e1.commitment, opening: x.into() };
            if let Ok(q) = u.show(rng, &e) {
                t.reject(&w, "wrong opening", &q.to_bytes());
            }
        }
        // commitments of other shapes: to the number under exchanged, single or foreign generators, or to itself
        let m = encode(&n);
        let (g, h) = (w.params.g, w.params.h);
        let oo = Scalar::random(rng);
        for (what, c) in vec![
            ("generators exchanged", m * g + oo * h), ("no opening", m * h), ("no number", oo * g), ("negated", -(m * h + oo * g)),
            ("foreign h", m * w3.params.h + oo * g), ("identity", RistrettoPoint::identity()), ("twice", (m + m) * h + oo * g),
            ("another number", encode(&n2) * h + oo * g), ("attribute plus one", (m + Scalar::one()) * h + oo * g),
        ] {
            let commitment = CommittedPhoneNumber::from_bytes(&enc(&c)).expect("a point");
            let e = RosterEntryCommitment { commitment, opening: oo.into() };
            if let Ok(q) = u.show(rng, &e) {
                t.reject(&w, what, &q.to_bytes());
            }
        }
        // replaced after the presentation was made
        for (what, c) in vec![
            ("replaced by another entry for the same number", e2.commitment.to_bytes()),
            ("replaced by an entry for another number", other.commitment.to_bytes()),
            ("replaced by the identity", vec![0u8; 32]), ("replaced by g", enc(&g).to_vec()), ("replaced by h", enc(&h).to_vec()),
            ("replaced by the attribute commitment", p[96..128].to_vec()), ("replaced by the nonce", p[64..96].to_vec()),
            ("replaced by the negation", enc(&-dec(&p[..32]).unwrap()).to_vec()),
            ("shifted by g", enc(&(dec(&p[..32]).unwrap() + g)).to_vec()),
            ("shifted by h", enc(&(dec(&p[..32]).unwrap() + h)).to_vec()),
            ("shifted to another number", enc(&(dec(&p[..32]).unwrap() + (encode(&n2) - m) * h)).to_vec()),
        ] {
            t.reject(&w, what, &put(&p, ENTRY, &c));
        }
        // shifts for which the responses are adjusted
        let proof = RefProof::from_bytes(&p[PROOF..]).expect("proof");
        let inv = proof.c.invert();
        let c1 = dec(&p[..32]).unwrap();
        for (i, base) in [(0, h), (2, g)].iter() {
            for d in vec![special(rng), Scalar::random(rng)] {
                if d == Scalar::zero() {
                    continue;
                }
                let mut q = proof.clone();
                q.r[*i] += d;
                let c = c1 + inv * d * base;
                t.reject(&w, "adjusted", &put(&put(&p, ENTRY, &enc(&c)), PROOF, &q.to_bytes()));
            }
        }
        // every bit of the entry and of the membership proof
        for bit in (0..256).chain(PROOF * 8..448 * 8) {
            let mut x = p.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            t.reject(&w, "one bit", &x);
        }
        // rejections leave nothing behind
        t.accept(&w, "after rejections", &p, &e1);
        // proof scalars replaced
        for i in 0..4 {
            let at = PROOF + 40 * i + 8;
            let s = scalar(&p[at..at + 32]).unwrap();
            for x in vec![Scalar::zero(), -s, s + Scalar::one(), Scalar::random(rng)] {
                t.reject(&w, "one proof scalar", &put(&p, at, x.as_bytes()));
            }
            for j in 0..4 {
                if i != j {
                    t.reject(&w, "proof scalars moved", &put(&p, at, &p[PROOF + 40 * j + 8..PROOF + 40 * j + 40]));
                }
            }
        }
        t.reject(&w, "zero proof", &put(&p, PROOF, &RefProof { c: Scalar::zero(), r: vec![Scalar::zero(); 3] }.to_bytes()));
        // membership proofs, entries and credentials of several presentations
        let again = u.show(rng, &e1).expect("show").to_bytes();
        let second = u.show(rng, &e2).expect("show").to_bytes();
        let mut foreign = vec![("the same entry", again), ("another entry", second)];
        let u2 = w.enrolled(&n2, rng);
        foreign.push(("another user", u2.show(rng, &other).expect("show").to_bytes()));
        foreign.push(("another user with this entry", u2.show(rng, &e1).expect("show").to_bytes()));
        for (what, x) in vec![("another issuer", &w2), ("other parameters", &w3)] {
            let v = x.enrolled(&n, rng);
            let e = x.entry(&n, rng);
            foreign.push((what, v.show(rng, &e).expect("show").to_bytes()));
            if x.params == w.params {
                foreign.push((what, v.show(rng, &e1).expect("show").to_bytes()));
            }
        }
        for (what, q) in &foreign {
            t.reject(&w, what, &put(&p, PROOF, &q[PROOF..]));
            t.reject(&w, what, &put(&q, PROOF, &p[PROOF..]));
            if q[..32] != p[..32] {
                t.reject(&w, what, &put(&p, ENTRY, &q[..32]));
                t.reject(&w, what, &put(&put(&p, ENTRY, &q[..32]), PROOF, &q[PROOF..]));
                t.reject(&w, what, &put(&q, ENTRY, &p[..32]));
            }
        }
        // presentations for other parameters
        let e3 = w3.entry(&n, rng);
        let q = w3.enrolled(&n, rng).show(rng, &e3).expect("show").to_bytes();
        t.reject(&w, "made under other parameters", &q);
        // issuers which differ in one generator only, so that the credential verifies
        let x = w.issuer.issuer.keypair.clone();
        let other_g = SystemParameters { g: rpoint(rng), h };
        let wg = World { params: other_g, issuer: SignalIssuer::new(other_g, x), ip: w.ip.clone() };
        t.reject(&wg, "another g", &p);
        t.accept(&w, "after rejections", &p, &e1);
    });

    // Provers who know a credential and an entry, but for different numbers, and make the proof by hand.
    ctx.par("forged", ctx.n(150), move |_, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let n2 = other_number(rng, &n);
        let (m, m2) = (encode(&n), encode(&n2));
        let u = w.enrolled(&n, rng);
        let (g, h) = (w.params.g, w.params.h);
        let z0 = Scalar::random(rng);
        let nonces = {
            // Nonces are made from a generator; find the one scalar it gives.
            let mut r = rng.clone();
            z0_of(&mut r)
        };
        let (nonces, z0) = (nonces.0, if true { nonces.1 } else { z0 });
        let pres = match u.user.show(&nonces, rng) { Ok(p) => p, Err(e) => { ctx.violation("honest-show", format!("{}", e)); return } };
        let p = pres.rerandomized_nonce;
        let cm0: RistrettoPoint = pres.attributes_blinded[0].into();
        if cm0 != m * p + z0 * h {
            ctx.eval("attribute commitments of another form");
            return;
        }
        let entry = w.entry(&n2, rng);
        let z1 = scalar(&entry.opening.to_bytes()).unwrap();
        let c1: RistrettoPoint = entry.commitment.0.into();
        let own = w.entry(&n, rng);
        let o1 = scalar(&own.opening.to_bytes()).unwrap();
        let oc: RistrettoPoint = own.commitment.0.into();
        let build = |c: &RistrettoPoint, proof: &[u8]| {
            let mut b = enc(c).to_vec();
            b.extend_from_slice(&pres.to_bytes());
            b.extend_from_slice(proof);
            b
        };
        // the library's prover, given other secrets
        let pubs = [g, h, p, cm0, c1];
        for s in vec![[m, z0, z1], [m2, z0, z1], [m, z0, Scalar::zero()], [m2, -z0, z1], [m2, z0 + Scalar::one(), z1], [m2, z1, z0]] {
            t.reject(&w, "other secrets", &build(&c1, &lib_prove(COMMITTED_VALUES_EQUAL, eq.context, &pubs, &s)));
        }
        // another context or type of proof
        let good = [g, h, p, cm0, oc];
        for context in &[&b"AEONFLUX SHOW"[..], b"AEONFLUX ISSUANCE", b""] {
            t.reject(&w, "another context", &build(&oc, &lib_prove(COMMITTED_VALUES_EQUAL, context, &good, &[m, z0, o1])));
        }
        // the proof that the credential is valid in place of the membership proof
        let raw = pres.to_bytes();
        t.reject(&w, "the other proof", &build(&c1, &raw[96..]));
        t.reject(&w, "the other proof", &build(&oc, &raw[96..]));
        // transcripts which leave something out; what is left out is then chosen freely
        let ks: Vec<Scalar> = (0..3).map(|_| Scalar::random(rng)).collect();
        let mut weaks = vec![Weak { skip_domain: true, ..Weak::default() }];
        for i in 0..5 { weaks.push(Weak { skip_public: Some(i), ..Weak::default() }); }
        for i in 0..2 { weaks.push(Weak { skip_com: Some(i), ..Weak::default() }); }
        for wk in weaks {
            for (c, s) in &[(c1, [m, z0, z1]), (c1, [m2, z0, z1]), (oc, [m, z0, o1])] {
                let pr = eq.prove(eq.context, &[g, h, p, cm0, *c], s, &ks, wk);
                t.reject(&w, "weak transcript", &build(c, &pr.to_bytes()));
            }
            // if the commitment were not hashed: c1 solved for after the challenge is known
            let pr = eq.prove(eq.context, &[g, h, p, cm0, oc], &[m, z0, o1], &ks, wk);
            let r2 = Scalar::random(rng);
            let mut q = pr.clone();
            q.r[2] = r2;
            let c = oc + pr.c.invert() * (r2 - pr.r[2]) * g;
            t.reject(&w, "chosen after the challenge", &build(&c, &q.to_bytes()));
        }
        // and the right one, so that this means something
        let pr = lib_prove(COMMITTED_VALUES_EQUAL, eq.context, &good, &[m, z0, o1]);
        t.accept(&w, "made by hand", &build(&oc, &pr), &own);
    });

    ctx.finish("a case is a presentation put to the membership check, honest ones and ones with another entry, opening, \
                proof or parameters; distinct by its bytes");
}

/// A list of one nonce, and the nonce.
fn z0_of(rng: &mut ChaChaRng) -> (Nonces, Scalar) {
    let n = Nonces::new(rng, 1);
    let z: &Scalar = (&n[0]).into();
    let z = *z;
    (n, z)
}
