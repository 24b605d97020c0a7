//! C02: an issuer accepts exactly the unaltered presentations made from credentials it issued.
//! Oracle: every presentation put to the issuer is known to be honest or not from how it was made.
use vh::nizk::*;
use vh::proto::*;
use vh::*;

/// Where things are in a `CredentialPresentation`.
const CQ: usize = 0;
const P: usize = 32;
const CM: usize = 64;
const PROOF: usize = 96;

fn put(b: &mut [u8], at: usize, x: &[u8]) {
    b[at..at + x.len()].copy_from_slice(x);
}

struct Attack<'a> {
    ctx: &'static Ctx,
    w: &'a World,
}

impl<'a> Attack<'a> {
    /// The issuer must reject this presentation, at both levels.
    fn reject(&self, what: &str, bytes: &[u8], signal: Option<&[u8]>) {
        self.ctx.eval("forged or altered presentations");
        if let Ok(p) = CredentialPresentation::from_bytes(bytes) {
            self.ctx.eval("of these, decodable");
            self.ctx.seen(what, bytes);
            self.ctx.sample(what, || hex(bytes));
            if self.w.issuer.issuer.verify(&p).is_ok() {
                self.ctx.violation("forgery-accepted", format!("{}: {}", what, hex(bytes)));
            }
            if let Some(s) = signal {
                let mut s = s.to_vec();
                s[32..32 + bytes.len()].copy_from_slice(bytes);
                if let Ok(p) = SignalCredentialPresentation::from_bytes(&s) {
                    if self.w.issuer.verify(p).is_ok() {
                        self.ctx.violation("forgery-accepted", format!("{} (signal): {}", what, hex(&s)));
                    }
                }
            }
        }
    }
}

fn main() {
    let ctx = Ctx::new("C02");
    let all: &'static Vec<Spec> = Box::leak(Box::new(specs()));
    let vc = &all[VALID_CREDENTIAL];

    ctx.par("altered", ctx.n(20), move |_, rng| {
        let (params, loga) = known_params(rng);
        let w = World::unusual(params, rng);
        let atk = Attack { ctx, w: &w };
        let n = number(rng);
        let user = w.enrolled(&n, rng);
        let entry = w.entry(&n, rng);
        let a = user.show(rng, &entry).expect("show");
        let b = user.show(rng, &entry).expect("show");
        let (sa, sb) = (a.to_bytes(), b.to_bytes());
        let (pa, pb) = (a.presentation.to_bytes(), b.presentation.to_bytes());
        // someone else's credential of the same issuer
        let n2 = other_number(rng, &n);
        let user2 = w.enrolled(&n2, rng);
        let entry2 = w.entry(&n2, rng);
        let c = user2.show(rng, &entry2).expect("show");
        let pc = c.presentation.to_bytes();
        for p in &[&a, &b, &c] {
            ctx.eval("honest presentations");
            ctx.check(w.issuer.verify((*p).clone()).is_ok(), "honest-rejected", || hex(&p.to_bytes()));
        }
        // every bit, of which most do not decode
        for bit in 0..pa.len() * 8 {
            let mut x = pa.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            atk.reject("one bit", &x, Some(&sa));
        }
        // rejections leave nothing behind
        ctx.check(w.issuer.verify(a.clone()).is_ok(), "honest-rejected", || format!("after rejections: {}", hex(&sa)));
        // every point replaced by every other point
        let pts: Vec<[u8; 32]> = vec![
            enc(&RistrettoPoint::identity()), enc(&params.g), enc(&params.h), enc(&rpoint(rng)), enc(&w.ip.Xn[0]),
            enc(&-dec(&pa[CQ..P]).unwrap()), enc(&-dec(&pa[P..CM]).unwrap()), enc(&-dec(&pa[CM..PROOF]).unwrap()),
            enc(&(dec(&pa[CQ..P]).unwrap() + params.h)), enc(&(dec(&pa[CM..PROOF]).unwrap() + params.h)),
            enc(&(dec(&pa[P..CM]).unwrap() + G)), enc(&entry.commitment.0.into()),
            enc(&user.user.credential.as_ref().unwrap().mac.nonce), enc(&user.user.credential.as_ref().unwrap().mac.mac),
        ];
        let fields: Vec<[u8; 32]> = [CQ, P, CM].iter().flat_map(|o| vec![&pa[*o..*o + 32], &pb[*o..*o + 32], &pc[*o..*o + 32]])
            .map(|s| { let mut t = [0u8; 32]; t.copy_from_slice(s); t }).collect();
        for at in &[CQ, P, CM] {
            for x in pts.iter().chain(fields.iter()) {
                if x[..] != pa[*at..*at + 32] {
                    let mut y = pa.clone();
                    put(&mut y, *at, x);
                    atk.reject("one point replaced", &y, Some(&sa));
                }
            }
        }
        // combinations of fields of presentations
        for other in &[&pb, &pc] {
            for mask in 1..15u32 {
                let mut y = pa.clone();
                for (i, r) in [(CQ, P), (P, CM), (CM, PROOF), (PROOF, 256)].iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        put(&mut y, r.0, &other[r.0..r.1]);
                    }
                }
                atk.reject("fields of two presentations", &y, Some(&sa));
            }
        }
        // scalars of the proof: altered, exchanged, special
        for i in 0..4 {
            let at = PROOF + 40 * i + 8;
            let s = scalar(&pa[at..at + 32]).unwrap();
            for t in vec![s + Scalar::one(), -s, Scalar::zero(), Scalar::random(rng), s + loga] {
                let mut y = pa.clone();
                put(&mut y, at, t.as_bytes());
                atk.reject("one proof scalar", &y, Some(&sa));
            }
            for j in 0..4 {
                let mut y = pa.clone();
                put(&mut y, at, &pb[PROOF + 40 * j + 8..PROOF + 40 * j + 40]);
                atk.reject("a proof scalar of another presentation", &y, Some(&sa));
            }
        }
        // Everything scaled: the MAC is homomorphic, the proof must not be.
        let k = Scalar::random(rng);
        let mut y = pa.clone();
        for at in &[CQ, P, CM] {
            put(&mut y, *at, &enc(&(k * dec(&pa[*at..*at + 32]).unwrap())));
        }
        atk.reject("scaled", &y, Some(&sa));
        // Two presentations added up.
        let mut y = pa.clone();
        for at in &[CQ, P, CM] {
            put(&mut y, *at, &enc(&(dec(&pb[*at..*at + 32]).unwrap() + dec(&pa[*at..*at + 32]).unwrap())));
        }
        atk.reject("added", &y, Some(&sa));
        ctx.check(w.issuer.verify(a.clone()).is_ok(), "honest-rejected", || format!("after rejections: {}", hex(&sa)));
        // Points and responses adjusted so that the commitments the verifier recomputes stay the same, with or without
        // CQ taking up the change of V.
        let proof = RefProof::from_bytes(&pa[PROOF..]).expect("proof");
        let (cq, p, cm) = (dec(&pa[CQ..P]).unwrap(), dec(&pa[P..CM]).unwrap(), dec(&pa[CM..PROOF]).unwrap());
        let inv = proof.c.invert();
        let (dm, dz, dq) = (special(rng), special(rng), special(rng));
        for (dm, dz, dq) in vec![(dm, Scalar::zero(), Scalar::zero()), (Scalar::zero(), dz, Scalar::zero()),
                                 (Scalar::zero(), Scalar::zero(), dq), (dm, dz, dq)] {
            let cm2 = cm + inv * (dm * p + dz * params.h);
            // V' must change by (dz X0 + dq A)/c; V' = x0 P + x1 Cm0 - CQ, where the attacker does not know x1, but
            // knows x1 A = X1, so that it can compute x1 (Cm0' - Cm0) for changes along A.
            for known in &[true, false] {
                let cq2 = if *known {
                    let x1 = w.issuer.issuer.keypair.secret.xn[0];
                    cq + x1 * (cm2 - cm) - inv * (dz * w.ip.Xn[0] + dq * params.h)
                } else {
                    cq + inv * dz * w.ip.Xn[0] - inv * (dz * w.ip.Xn[0] + dq * params.h)
                };
                let mut pr = proof.clone();
                pr.r[0] += dm;
                pr.r[1] += dz;
                pr.r[2] += dq;
                let mut y = pa.clone();
                put(&mut y, CQ, &enc(&cq2));
                put(&mut y, CM, &enc(&cm2));
                put(&mut y, PROOF, &pr.to_bytes());
                if y != pa {
                    atk.reject("adjusted", &y, Some(&sa));
                }
            }
        }
        // P and the response for m0 adjusted: Cm0 = P m0 + A z0 with P' = f P, m0' = m0 / f, and V made to fit
        {
            let f = Scalar::random(rng);
            let x = &w.issuer.issuer.keypair.secret;
            let p2 = f * p;
            let cq2 = cq + x.x0 * (p2 - p);
            let mut pr = proof.clone();
            pr.r[0] = pr.r[0] * f.invert();
            let mut y = pa.clone();
            put(&mut y, CQ, &enc(&cq2));
            put(&mut y, P, &enc(&p2));
            put(&mut y, PROOF, &pr.to_bytes());
            atk.reject("adjusted nonce", &y, Some(&sa));
        }
        let _ = sb;
    });

    // Presentations made for another issuer or under other parameters.
    ctx.par("foreign", ctx.n(240), move |_, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let pres = |w: &World, rng: &mut ChaChaRng| {
            let u = w.enrolled(&n, rng);
            let e = w.entry(&n, rng);
            u.show(rng, &e).expect("show")
        };
        let own = pres(&w, rng);
        ctx.eval("honest presentations");
        ctx.check(w.issuer.verify(own.clone()).is_ok(), "honest-rejected", || hex(&own.to_bytes()));
        let x = w.issuer.issuer.keypair.secret.clone();
        let mut others = Vec::new();
        others.push(("another issuer, same parameters", World::with(w.params, rng)));
        others.push(("another issuer, other parameters", World::new(rng)));
        // issuers which share all but one part
        let mk = |x0: Scalar, x1: Scalar, params: SystemParameters| {
            let secret = amacs::SecretKey { x0, xn: vec![x1] };
            let public = secret.get_public_key(&params.h);
            let issuer = SignalIssuer::new(params, amacs::Keypair { public, secret });
            let ip = issuer.get_issuer_parameters();
            World { params, issuer, ip }
        };
        others.push(("another x0", mk(Scalar::random(rng), x.xn[0], w.params)));
        others.push(("another x1", mk(x.x0, Scalar::random(rng), w.params)));
        others.push(("keys exchanged", mk(x.xn[0], x.x0, w.params)));
        others.push(("another h", mk(x.x0, x.xn[0], SystemParameters::hunt_and_peck(rng))));
        others.push(("another g", mk(x.x0, x.xn[0], SystemParameters { g: rpoint(rng), h: w.params.h })));
        others.push(("g and h exchanged", mk(x.x0, x.xn[0], SystemParameters { g: w.params.h, h: w.params.g })));
        for (what, o) in &others {
            let foreign = pres(o, rng);
            ctx.check(o.issuer.verify(foreign.clone()).is_ok(), "honest-rejected", || hex(&foreign.to_bytes()));
            for (v, p) in &[(&w, &foreign), (o, &own)] {
                ctx.eval("presentations for another issuer or parameters");
                ctx.seen(what, &p.to_bytes());
                ctx.sample(what, || hex(&p.to_bytes()));
                if v.issuer.verify((*p).clone()).is_ok() || v.issuer.issuer.verify(&p.presentation).is_ok() {
                    ctx.violation("foreign-accepted", format!("{}: {}", what, hex(&p.to_bytes())));
                }
            }
        }
    });

    // Presentations by someone who has no MAC, made with the library or by hand.
    ctx.par("no-mac", ctx.n(400), move |_, rng| {
        let (params, _) = known_params(rng);
        let w = World::unusual(params, rng);
        let atk = Attack { ctx, w: &w };
        let n = number(rng);
        let m = encode(&n);
        let honest = w.enrolled(&n, rng);
        let mac = honest.user.credential.as_ref().unwrap().mac.clone();
        let id = RistrettoPoint::identity();
        let (r1, r2) = (rpoint(rng), rpoint(rng));
        let delta = Scalar::random(rng);
        let n2 = other_number(rng, &n);
        let m2 = encode(&n2);
        let x = &w.issuer.issuer.keypair.secret;
        let bad = vec![
            ("identity MAC", id, id, m), ("identity nonce", id, r1, m), ("identity mac", r1, id, m),
            ("random MAC", r1, r2, m), ("MAC of another attribute", mac.nonce, mac.mac, m2),
            ("MAC halves exchanged", mac.mac, mac.nonce, m), ("nonce negated", -mac.nonce, mac.mac, m),
            ("mac shifted", mac.nonce, mac.mac + r1, m), ("nonce scaled", delta * mac.nonce, mac.mac, m),
            ("mac is the nonce", mac.nonce, mac.nonce, m), ("MAC without x0", r1, (x.xn[0] * m) * r1, m),
            ("MAC without x1", r1, x.x0 * r1, m), ("MAC on generator", params.g, params.h, m),
            ("attribute zero", mac.nonce, mac.mac, Scalar::zero()), ("attribute negated", mac.nonce, mac.mac, -m),
        ];
        for (what, nonce, tag, attr) in &bad {
            let mut u = honest.user.to_bytes();
            let credential = Credential { mac: amacs::Tag { nonce: *nonce, mac: *tag }, attributes: vec![*attr] };
            if *tag == (x.x0 + x.xn[0] * attr) * nonce && *nonce != id {
                continue;
            }
            // through the library
            let mut user = User::from_bytes(&u).expect("user");
            user.credential = Some(credential.clone());
            u = user.to_bytes();
            let _ = u;
            let nonces = Nonces::new(rng, 1);
            if let Ok(p) = user.show(&nonces, rng) {
                atk.reject(what, &p.to_bytes(), None);
            }
            let su = SignalUser { phone_number: PhoneNumber(*attr), user };
            let e = w.entry(&n, rng);
            if let Ok(p) = su.show(rng, &e) {
                ctx.eval("signal presentations without a MAC");
                if w.issuer.verify(p.clone()).is_ok() {
                    ctx.violation("forgery-accepted", format!("{}: {}", what, hex(&p.to_bytes())));
                }
            }
            // by hand: any V and commitments of the attacker's choice, honest or flawed transcripts, degenerate choices
            let z = special(rng);
            let zq = special(rng);
            let cm = attr * nonce + z * params.h;
            let cq = tag + zq * params.h;
            let v = z * w.ip.Xn[0] - zq * params.h;
            let pubs = [params.g, params.h, w.ip.Xn[0], *nonce, v, cm];
            let nonces: Vec<Scalar> = (0..3).map(|_| Scalar::random(rng)).collect();
            let mut weaks = vec![Weak::default(), Weak { skip_domain: true, ..Weak::default() }];
            for i in 0..6 { weaks.push(Weak { skip_public: Some(i), ..Weak::default() }); }
            for i in 0..2 { weaks.push(Weak { skip_com: Some(i), ..Weak::default() }); }
            for wk in weaks {
                let pr = vc.prove(vc.context, &pubs, &[*attr, z, -zq], &nonces, wk);
                let mut b = Vec::new();
                b.extend_from_slice(&enc(&cq));
                b.extend_from_slice(&enc(nonce));
                b.extend_from_slice(&enc(&cm));
                b.extend_from_slice(&pr.to_bytes());
                atk.reject(what, &b, None);
            }
            // proof transplanted from an honest presentation
            let honest_p = honest.user.show(&Nonces::new(rng, 1), rng).expect("show").to_bytes();
            let mut b = honest_p.clone();
            put(&mut b, P, &enc(nonce));
            atk.reject(what, &b, None);
        }
        // Statements in which what the issuer computes is a special point.  Made honestly, they are accepted.
        let x1 = x.xn[0];
        for zv in vec![Scalar::zero(), Scalar::one(), -Scalar::one(), x1, Scalar::from(2u64)] {
            // V = z X1 - zq h = -zv h
            let t = Scalar::random(rng);
            let (p, q) = (t * mac.nonce, t * mac.mac);
            for z in vec![Scalar::zero(), Scalar::one(), special(rng), Scalar::random(rng)] {
                let zq = z * x1 + zv;
                let (cm, cq) = (m * p + z * params.h, q + zq * params.h);
                let pubs = [params.g, params.h, w.ip.Xn[0], p, -zv * params.h, cm];
                let nonces: Vec<Scalar> = (0..3).map(|_| Scalar::random(rng)).collect();
                let pr = vc.prove(vc.context, &pubs, &[m, z, -zq], &nonces, Weak::default());
                let head = |pr: &RefProof| { let mut b = enc(&cq).to_vec(); b.extend_from_slice(&enc(&p));
                                             b.extend_from_slice(&enc(&cm)); b.extend_from_slice(&pr.to_bytes()); b };
                ctx.eval("honest presentations");
                ctx.check(CredentialPresentation::from_bytes(&head(&pr)).ok().map(|p| w.issuer.issuer.verify(&p).is_ok()) == Some(true),
                          "honest-rejected", || hex(&head(&pr)));
                for i in 0..4 {
                    let mut f = pr.clone();
                    if i == 3 { f.c += Scalar::one(); } else { f.r[i] += Scalar::one(); }
                    atk.reject("a special V", &head(&f), None);
                }
                let f = RefProof { c: Scalar::random(rng), r: (0..3).map(|_| Scalar::random(rng)).collect() };
                atk.reject("a special V, a random proof", &head(&f), None);
                atk.reject("a special V, no proof", &head(&RefProof { c: Scalar::zero(), r: vec![Scalar::zero(); 3] }), None);
                // and for another attribute
                let (m2, cm2) = (m + Scalar::one(), cm + p);
                let pubs = [params.g, params.h, w.ip.Xn[0], p, -zv * params.h, cm2];
                let f = vc.prove(vc.context, &pubs, &[m2, z, -zq], &nonces, Weak::default());
                let mut b = enc(&cq).to_vec();
                b.extend_from_slice(&enc(&p));
                b.extend_from_slice(&enc(&cm2));
                b.extend_from_slice(&f.to_bytes());
                atk.reject("a special V, another attribute", &b, None);
            }
        }
        // Everything the identity or zero
        let zero = vec![0u8; 256];
        atk.reject("all zero", &zero, None);
        let mut b = vec![0u8; 96];
        b.extend_from_slice(&RefProof { c: Scalar::zero(), r: vec![Scalar::zero(); 3] }.to_bytes());
        atk.reject("all zero with prefixes", &b, None);
        // The proof for a statement on the identity: P = 0, Cm0 = zA, V of the attacker's choice
        let (z, zq) = (Scalar::random(rng), Scalar::random(rng));
        for (z, zq) in vec![(z, zq), (Scalar::zero(), zq), (z, Scalar::zero()), (Scalar::zero(), Scalar::zero())] {
            let cm = z * params.h;
            // V' = x0 P + x1 Cm0 - CQ = z X1 - CQ
            let cq = zq * params.h;
            let v = z * w.ip.Xn[0] - cq;
            let pubs = [params.g, params.h, w.ip.Xn[0], RistrettoPoint::identity(), v, cm];
            let nonces: Vec<Scalar> = (0..3).map(|_| Scalar::random(rng)).collect();
            let pr = vc.prove(vc.context, &pubs, &[m, z, -zq], &nonces, Weak::default());
            let mut b = Vec::new();
            b.extend_from_slice(&enc(&cq));
            b.extend_from_slice(&enc(&RistrettoPoint::identity()));
            b.extend_from_slice(&enc(&cm));
            b.extend_from_slice(&pr.to_bytes());
            atk.reject("statement on the identity", &b, None);
        }
        // A proof of the right statement for another context, or of another type.
        let t = Scalar::random(rng);
        let (p, q) = (t * mac.nonce, t * mac.mac);
        let (z, zq) = (Scalar::random(rng), Scalar::random(rng));
        let cm = m * p + z * params.h;
        let cq = q + zq * params.h;
        let v = z * w.ip.Xn[0] - zq * params.h;
        let pubs = [params.g, params.h, w.ip.Xn[0], p, v, cm];
        let head = |pr: &[u8]| { let mut b = enc(&cq).to_vec(); b.extend_from_slice(&enc(&p)); b.extend_from_slice(&enc(&cm));
                                b.extend_from_slice(pr); b };
        for context in &[&b"AEONFLUX ISSUANCE"[..], b"SIGNAL GROUP MEMBERSHIP", b""] {
            let pr = lib_prove(VALID_CREDENTIAL, context, &pubs, &[m, z, -zq]);
            atk.reject("another context", &head(&pr), None);
        }
        let z1 = Scalar::random(rng);
        let pr = lib_prove(COMMITTED_VALUES_EQUAL, vc.context, &[params.g, params.h, p, cm, m * params.h + z1 * params.g],
                           &[m, z, z1]);
        atk.reject("another type of proof", &head(&pr), None);
        // and, so that all this means something, the honest one made by hand
        let pr = lib_prove(VALID_CREDENTIAL, vc.context, &pubs, &[m, z, -zq]);
        let b = head(&pr);
        ctx.eval("honest presentations");
        let ok = CredentialPresentation::from_bytes(&b).ok().map(|p| w.issuer.issuer.verify(&p).is_ok());
        ctx.check(ok == Some(true), "honest-rejected", || hex(&b));
    });

    // Shapes no decoder gives, but a caller can: missing and additional attributes.
    ctx.par("shapes", ctx.n(200), move |_, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let u = w.enrolled(&n, rng);
        let good = u.user.show(&Nonces::new(rng, 1), rng).expect("show");
        let c = good.attributes_blinded[0];
        let idc = pedersen::Commitment::from_bytes(&[0u8; 32]).expect("identity");
        for (revealed, blinded) in vec![
            (vec![], vec![]), (vec![encode(&n)], vec![]), (vec![Scalar::zero()], vec![c]), (vec![], vec![c, c]),
            (vec![], vec![c, idc]), (vec![encode(&n)], vec![c]), (vec![Scalar::zero(); 3], vec![c; 3]),
        ] {
            let mut p = good.clone();
            p.attributes_revealed = revealed;
            p.attributes_blinded = blinded;
            ctx.eval("presentations of the wrong shape");
            ctx.seen("shape", &p.to_bytes());
            match ctx.panics(|| w.issuer.issuer.verify(&p).is_ok()) {
                Ok(false) => {}
                Ok(true) => ctx.violation("forgery-accepted", format!("wrong shape: {:?}", p)),
                Err(e) => ctx.violation("panic", format!("wrong shape: {:?}: {}", p, e)),
            }
        }
    });

    ctx.finish("a case is a presentation put to an issuer: honest ones, every single-bit change, replaced and combined \
                fields, adjusted responses, fake credentials, foreign issuers; distinct by its bytes, counted if it decodes");
}
