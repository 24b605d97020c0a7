//! C25: compatibility with what the published version wrote, and with an independent implementation of the protocol.
//! Oracle: recorded artefacts, and the reference prover, verifier, issuer and user in this harness.
use serde_json::Value;
use vh::nizk::*;
use vh::proto::*;
use vh::types::*;
use vh::*;

fn seeded(b: &[u8]) -> ChaChaRng {
    let mut s = [0u8; 32];
    s.copy_from_slice(b);
    ChaChaRng::from_seed(s)
}

fn bytes(v: &Value, f: &str) -> Vec<u8> { unhex(v[f].as_str().unwrap_or_else(|| panic!("HARNESS: {}", f))) }

fn list(v: &Value, f: &str) -> Vec<Vec<u8>> {
    v[f].as_array().expect("HARNESS: list").iter().map(|x| unhex(x.as_str().expect("HARNESS: hex"))).collect()
}

/// An issuer, user and verifier which share nothing with the library.
struct Reference { all: Vec<Spec>, g: RistrettoPoint, h: RistrettoPoint, x0: Scalar, x1: Scalar }

impl Reference {
    fn prove<R: RngCore + rand_core::CryptoRng>(&self, kind: usize, publics: &[RistrettoPoint], secrets: &[Scalar], rng: &mut R) -> Vec<u8> {
        let s = &self.all[kind];
        let nonces: Vec<Scalar> = secrets.iter().map(|_| Scalar::random(rng)).collect();
        s.prove(s.context, publics, secrets, &nonces, Weak::default()).to_bytes()
    }

    fn verify(&self, kind: usize, publics: &[RistrettoPoint], proof: &[u8]) -> bool {
        let s = &self.all[kind];
        RefProof::from_bytes(proof).map_or(false, |p| s.verify(s.context, publics, &p))
    }

    fn issue<R: RngCore + rand_core::CryptoRng>(&self, n: &[u8], rng: &mut R) -> Vec<u8> {
        let m = encode(n);
        let p = rpoint(rng);
        let q = (self.x0 + self.x1 * m) * p;
        let r = Scalar::random(rng);
        let cx0 = self.x0 * self.g + r * self.h;
        let proof = self.prove(ISSUANCE_REVEALED, &[p, q, cx0, self.g, self.h, self.x1 * self.h], &[self.x0, self.x1, r, m * self.x1], rng);
        [&enc(&cx0)[..], &enc(&p), &enc(&q), m.as_bytes(), &proof].concat()
    }

    fn issued(&self, b: &[u8], n: &[u8]) -> bool {
        let (cx0, p, q) = match (dec(&b[..32]), dec(&b[32..64]), dec(&b[64..96])) { (Some(a), Some(b), Some(c)) => (a, b, c), _ => return false };
        b[96..128] == encode(n).as_bytes()[..] && q == (self.x0 + self.x1 * encode(n)) * p && p != RistrettoPoint::identity()
            && self.verify(ISSUANCE_REVEALED, &[p, q, cx0, self.g, self.h, self.x1 * self.h], &b[128..])
    }

    fn show<R: RngCore + rand_core::CryptoRng>(&self, n: &[u8], mac: (RistrettoPoint, RistrettoPoint), opening: &Scalar, rng: &mut R) -> Vec<u8> {
        let m = encode(n);
        let (r, zq, z) = (Scalar::random(rng), Scalar::random(rng), Scalar::random(rng));
        let (p, q) = (r * mac.0, r * mac.1);
        let cq = q + zq * self.h;
        let cm = m * p + z * self.h;
        let xn = self.x1 * self.h;
        let v = z * xn - zq * self.h;
        let entry = m * self.h + opening * self.g;
        let valid = self.prove(VALID_CREDENTIAL, &[self.g, self.h, xn, p, v, cm], &[m, z, -zq], rng);
        let member = self.prove(COMMITTED_VALUES_EQUAL, &[self.g, self.h, p, cm, entry], &[m, z, *opening], rng);
        [&enc(&entry)[..], &enc(&cq), &enc(&p), &enc(&cm), &valid, &member].concat()
    }

    /// Is the presentation valid, and is it of the number in the entry?
    fn shown(&self, b: &[u8]) -> (bool, bool) {
        let d = |i: usize| dec(&b[32 * i..32 * i + 32]);
        let (entry, cq, p, cm) = match (d(0), d(1), d(2), d(3)) { (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d), _ => return (false, false) };
        let v = self.x0 * p + self.x1 * cm - cq;
        (p != RistrettoPoint::identity() && self.verify(VALID_CREDENTIAL, &[self.g, self.h, self.x1 * self.h, p, v, cm], &b[128..288]),
         self.verify(COMMITTED_VALUES_EQUAL, &[self.g, self.h, p, cm, entry], &b[288..448]))
    }
}

struct W { params: SystemParameters, issuer: SignalIssuer, ip: IssuerParameters, n: Vec<u8> }

/// What a user with a credential, an issuance and a presentation of one world must be good for.
fn usable(ctx: &Ctx, w: &W, fresh: Option<&[u8]>, user: &[u8], issuance: &[u8], pres: &[u8], entry: &RosterEntryCommitment, rng: &mut ChaChaRng) {
    let name = |what: &str| format!("{} of the published version, number {}", what, fmt_number(&w.n));
    let i = match SignalCredentialIssuance::from_bytes(issuance) {
        Ok(i) => i,
        Err(e) => { ctx.violation("issuance-not-read", name(&format!("{}", e))); return }
    };
    ctx.check(i.to_bytes() == issuance, "changed-encoding", || name("issuance"));
    let with = match SignalUser::from_bytes(user) {
        Ok(u) => u,
        Err(e) => { ctx.violation("user-not-read", name(&format!("{}", e))); return }
    };
    ctx.check(with.to_bytes() == user, "changed-encoding", || name("user"));
    ctx.check(with.user.credential.as_ref().map(|c| c.to_bytes()) == Some(i.credential.to_bytes()), "meaning", || name("the user's credential"));
    ctx.check(with.user.system_parameters == w.params && with.user.issuer_parameters == w.ip, "meaning", || name("the user's parameters"));
    ctx.check(String::from(with.phone_number.clone()) == fmt_number(&w.n), "meaning", || name("the user's number"));
    let mut start = match fresh {
        Some(f) => match SignalUser::from_bytes(f) {
            Ok(u) => u,
            Err(e) => { ctx.violation("user-not-read", name(&format!("{}", e))); return }
        },
        None => SignalUser::new(w.params, w.ip.clone(), None, &w.n).expect("user"),
    };
    if let Some(f) = fresh {
        ctx.check(start.to_bytes() == f && start.user.credential.is_none(), "meaning", || name("a new user"));
    }
    ctx.check(start.obtain_finish(Some(&i)).is_ok(), "issuance-rejected", || name("issuance"));
    ctx.check(start.to_bytes() == user, "changed-encoding", || name("a user who accepts the issuance"));
    // presentations: the recorded one, and new ones from the recorded users
    let mut all = vec![pres.to_vec()];
    for u in &[&with, &start] {
        match u.show(rng, entry) {
            Ok(p) => all.push(p.to_bytes()),
            Err(e) => { ctx.violation("user-cannot-show", name(&format!("{}", e))); }
        }
    }
    for b in all {
        ctx.eval("presentations of or by what was recorded");
        match SignalCredentialPresentation::from_bytes(&b) {
            Err(e) => { ctx.violation("presentation-not-read", name(&format!("{}", e))); }
            Ok(p) => {
                ctx.check(p.to_bytes() == b, "changed-encoding", || name("presentation"));
                match w.issuer.verify(p) {
                    Err(e) => { ctx.violation("presentation-rejected", name(&format!("{}: {}", e, hex(&b)))); }
                    Ok(v) => { ctx.check(w.issuer.verify_roster_membership(&v).map(|c| c.to_bytes()).ok() == Some(b[..32].to_vec()),
                                         "membership-rejected", || name(&hex(&b))); }
                }
            }
        }
    }
    // and a new issuance by the recorded issuer
    ctx.check(w.issuer.issue(&w.n, rng).ok().map_or(false, |i| start.obtain_finish(Some(&i)).is_ok()), "issuer-unusable", || name("issuer"));
}

fn main() {
    let ctx = Ctx::new("C25");
    let recorded: &'static Vec<Value> = Box::leak(Box::new(include_str!("../../../golden/published.jsonl").lines()
        .map(|l| serde_json::from_str(l).expect("HARNESS: recorded artefacts")).collect()));

    ctx.par("recorded", recorded.len(), move |i, rng| {
        let v = &recorded[i as usize];
        match v["t"].as_str().expect("HARNESS: t") {
            "world" => {
                ctx.eval("recorded worlds");
                ctx.seen("world", &bytes(v, "issuer"));
                let seeds = list(v, "seeds");
                let n = bytes(v, "number");
                let same = |what: &str, b: &[u8]| {
                    ctx.eval("values derived from seeds");
                    ctx.check(b == &bytes(v, what)[..], "derives-another", || format!("{} from seeds {}: {} instead of {}", what, v["seeds"], hex(b), v[what]));
                };
                let params = SystemParameters::hunt_and_peck(&mut seeded(&seeds[0]));
                same("params", &params.to_bytes());
                let issuer = SignalIssuer::create(params, &mut seeded(&seeds[1]));
                same("issuer", &issuer.to_bytes());
                same("keypair", &issuer.issuer.keypair.to_bytes());
                same("keypair", &amacs::Keypair::new(&params.h, &mut seeded(&seeds[1])).to_bytes());
                same("ip", &issuer.get_issuer_parameters().to_bytes());
                match RosterEntryCommitment::create(&n, &params, &mut seeded(&seeds[2])) {
                    Ok(e) => same("entry", &e.to_bytes()),
                    Err(e) => { ctx.violation("number-rejected", format!("{} {:?}", fmt_number(&n), e)); }
                }
                same("elgamal", &elgamal::Keypair::generate(&mut seeded(&seeds[1])).to_bytes());
                same("phone", &PhoneNumber::try_from_bytes(&n).expect("number").to_bytes());
                // As read, not as derived.
                let params = SystemParameters::from_bytes(&bytes(v, "params")).expect("parameters are read");
                let issuer = SignalIssuer::from_bytes(&bytes(v, "issuer")).expect("an issuer is read");
                let ip = IssuerParameters::from_bytes(&bytes(v, "ip")).expect("issuer parameters are read");
                let entry = RosterEntryCommitment::from_bytes(&bytes(v, "entry")).expect("an entry is read");
                ctx.check(entry.open(&n, &params).is_ok(), "entry-not-opened", || v["entry"].to_string());
                let w = W { params, issuer, ip, n };
                usable(ctx, &w, Some(&bytes(v, "fresh")), &bytes(v, "user"), &bytes(v, "issuance"), &bytes(v, "presentation"), &entry, rng);
                let ver = VerifiedSignalCredential::from_bytes(&bytes(v, "verified")).expect("a verified credential is read");
                ctx.check(w.issuer.verify_roster_membership(&ver).map(|c| c == entry.commitment).unwrap_or(false), "membership-rejected", || v["verified"].to_string());
                let k = elgamal::Keypair::from_bytes(&bytes(v, "elgamal")).expect("a key pair is read");
                let (m, nonce) = (scalar(&bytes(v, "message")).expect("HARNESS: scalar"), scalar(&bytes(v, "nonce")).expect("HARNESS: scalar"));
                let c = k.encrypt(&elgamal::Message::from(&m), &elgamal::Ephemeral::from(nonce));
                same("c0", &enc(&c.commitment));
                same("c1", &enc(&c.encryption));
                ctx.check(k.secret.decrypt(&c) == m * G, "not-decrypted", || v["c1"].to_string());
            }
            "form" => {
                let kinds = kinds();
                let k = kinds.iter().find(|k| k.name == v["kind"].as_str().unwrap()).expect("HARNESS: kind");
                let native = bytes(v, "native");
                ctx.eval("recorded encodings");
                ctx.seen(k.name, &native);
                ctx.check((k.decode)(&native).as_ref() == Some(&native), "form-not-read", || format!("{} {}", k.name, hex(&native)));
                if let Some(b) = v["bincode"].as_str() {
                    let b = unhex(b);
                    ctx.check((k.from_bincode)(&b).as_ref() == Some(&native), "form-not-read", || format!("{} bincode {}", k.name, hex(&b)));
                    ctx.check((k.bincode_of)(&native).as_ref() == Some(&b), "changed-encoding", || format!("{} bincode {}", k.name, hex(&b)));
                }
                if let Some(j) = v["json"].as_str() {
                    let proof = k.name.ends_with("Proof");
                    ctx.check(proof || (k.from_json)(j).as_ref() == Some(&native), "form-not-read", || format!("{} JSON {}", k.name, j));
                    ctx.check((k.json_of)(&native).as_ref().map(|s| &s[..]) == Some(j), "changed-encoding", || format!("{} JSON {}", k.name, j));
                }
            }
            "proof" => {
                let kind = v["kind"].as_u64().expect("HARNESS: kind") as usize;
                let s = &specs()[kind];
                let publics: Vec<RistrettoPoint> = list(v, "publics").iter().map(|b| dec(b).expect("HARNESS: point")).collect();
                ctx.eval("recorded proofs");
                ctx.seen(s.name, &bytes(v, "proof"));
                ctx.check(lib_verify(kind, s.context, &publics, &bytes(v, "proof")) == Some(true), "proof-rejected", || format!("{} {}", s.name, v["proof"]));
                let p = RefProof::from_bytes(&bytes(v, "proof")).expect("HARNESS: proof");
                assert!(s.verify(s.context, &publics, &p), "HARNESS: the reference rejects a recorded proof");
            }
            "mac" => {
                let m: Vec<Scalar> = list(v, "message").iter().map(|b| scalar(b).expect("HARNESS: scalar")).collect();
                ctx.eval("recorded MACs");
                ctx.seen("mac", &bytes(v, "tag"));
                let h = dec(&bytes(v, "h")).expect("HARNESS: point");
                let sk = amacs::SecretKey::from_bytes(&bytes(v, "key")).expect("a key is read");
                ctx.check(amacs::SecretKey::new(m.len(), &mut seeded(&bytes(v, "seed"))).to_bytes() == bytes(v, "key"), "derives-another", || v["key"].to_string());
                ctx.check(sk.get_public_key(&h).to_bytes() == bytes(v, "public"), "derives-another", || v["public"].to_string());
                let t = amacs::Tag::from_bytes(&bytes(v, "tag")).expect("a tag is read");
                ctx.check(sk.verify(&t, &amacs::Message::from(m)).is_ok(), "mac-rejected", || v["tag"].to_string());
            }
            "c" => {
                ctx.eval("artefacts in the tests of the C interface");
                let n = bytes(v, "PHONE_NUMBER");
                let params = SystemParameters::hunt_and_peck(&mut seeded(&bytes(v, "SEED")));
                ctx.check(params.to_bytes() == bytes(v, "SYSTEM_PARAMETERS"), "derives-another", || "parameters".to_string());
                let issuer = SignalIssuer::create(params, &mut seeded(&bytes(v, "SEED")));
                ctx.check(issuer.issuer.keypair.to_bytes() == bytes(v, "ISSUER_KEYPAIR"), "derives-another", || "key pair".to_string());
                ctx.check(issuer.get_issuer_parameters().to_bytes() == bytes(v, "ISSUER_PARAMETERS"), "derives-another", || "issuer parameters".to_string());
                let keypair = amacs::Keypair::from_bytes(&bytes(v, "ISSUER_KEYPAIR")).expect("a key pair is read");
                let entry = RosterEntryCommitment::create(&n, &params, &mut seeded(&bytes(v, "SEED"))).expect("entry");
                ctx.check(entry.commitment.to_bytes()[..] == bytes(v, "PRESENTATION")[..32], "derives-another", || "roster entry".to_string());
                let w = W { params, issuer: SignalIssuer::new(params, keypair), ip: IssuerParameters::from_bytes(&bytes(v, "ISSUER_PARAMETERS")).expect("read"), n };
                usable(ctx, &w, None, &bytes(v, "USER_WITH_CREDENTIAL"), &bytes(v, "ISSUANCE"), &bytes(v, "PRESENTATION"), &entry, rng);
            }
            t => panic!("HARNESS: {}", t),
        }
    });

    // Proofs, each way.
    ctx.par("proofs", ctx.n(300), move |_, rng| {
        for (kind, s) in specs().iter().enumerate() {
            let secrets: Vec<Scalar> = s.secrets.iter().map(|_| special(rng)).collect();
            let p = points(&s.statement(rng, &secrets, &[], None));
            let lib = lib_prove(kind, s.context, &p, &secrets);
            ctx.eval("proofs by the library");
            ctx.seen(s.name, &lib);
            ctx.check(RefProof::from_bytes(&lib).map_or(false, |r| s.verify(s.context, &p, &r)), "reference-rejects", || format!("{} {}", s.name, hex(&lib)));
            let nonces: Vec<Scalar> = secrets.iter().map(|_| Scalar::random(rng)).collect();
            let r = s.prove(s.context, &p, &secrets, &nonces, Weak::default()).to_bytes();
            ctx.eval("proofs by the reference");
            ctx.check(lib_verify(kind, s.context, &p, &r) == Some(true), "library-rejects", || format!("{} {}", s.name, hex(&r)));
        }
    });

    // The protocol, each role played by either.
    ctx.par("protocol", ctx.n(900), move |_, rng| {
        let params = SystemParameters::hunt_and_peck(rng);
        let (x0, x1) = (Scalar::random(rng), Scalar::random(rng));
        let r = Reference { all: specs(), g: params.g, h: params.h, x0, x1 };
        let kb = [&enc(&(x1 * params.h))[..], x0.as_bytes(), x1.as_bytes()].concat();
        let issuer = SignalIssuer::new(params, match amacs::Keypair::from_bytes(&kb) {
            Ok(k) => k,
            Err(e) => { ctx.violation("key-not-read", format!("{:?} {}", e, hex(&kb))); return }
        });
        let n = number(rng);
        let mut user = SignalUser::new(params, issuer.get_issuer_parameters(), None, &n).expect("user");
        let issuances = vec![("reference", r.issue(&n, rng)), ("library", issuer.issue(&n, rng).expect("issue").to_bytes())];
        for (by, b) in issuances {
            ctx.eval("issuances exchanged");
            ctx.seen("issuance", &b);
            ctx.check(r.issued(&b, &n), "reference-rejects", || format!("issuance by the {}: {}", by, hex(&b)));
            let ok = SignalCredentialIssuance::from_bytes(&b).ok().map_or(false, |i| user.obtain_finish(Some(&i)).is_ok());
            if !ctx.check(ok, "library-rejects", || format!("issuance by the {}: {}", by, hex(&b))) { return }
            let mac = (dec(&b[32..64]).expect("HARNESS: point"), dec(&b[64..96]).expect("HARNESS: point"));
            // A roster entry is what is committed to; which number the opening commits to is for the user to get right.
            let opening = special(rng);
            let eb = [&enc(&(encode(&n) * params.h + opening * params.g))[..], opening.as_bytes()].concat();
            let entry = match RosterEntryCommitment::from_bytes(&eb) {
                Ok(e) => e,
                Err(e) => { ctx.violation("entry-not-read", format!("{:?} {}", e, hex(&eb))); return }
            };
            ctx.check(entry.open(&n, &params).is_ok(), "entry-not-opened", || hex(&eb));
            let shown = vec![("reference", r.show(&n, mac, &opening, rng)), ("library", user.show(rng, &entry).expect("show").to_bytes())];
            for (by, b) in shown {
                ctx.eval("presentations exchanged");
                ctx.seen("presentation", &b);
                ctx.check(r.shown(&b) == (true, true), "reference-rejects", || format!("presentation by the {}: {}", by, hex(&b)));
                let ok = SignalCredentialPresentation::from_bytes(&b).ok().and_then(|p| issuer.verify(p).ok())
                    .map(|v| issuer.verify_roster_membership(&v).map(|c| c.to_bytes()[..] == b[..32]).unwrap_or(false));
                ctx.check(ok == Some(true), "library-rejects", || format!("presentation by the {}: {:?} {}", by, ok, hex(&b)));
            }
        }
        let own = RosterEntryCommitment::create(&n, &params, rng).expect("entry").to_bytes();
        ctx.check(enc(&(encode(&n) * params.h + scalar(&own[32..]).unwrap_or(Scalar::zero()) * params.g))[..] == own[..32], "reference-rejects", || format!("entry {}", hex(&own)));
    });

    ctx.finish("artefacts recorded from the published version (seeds, keys, users, issuances, presentations, entries, proofs, \
        MACs, every type in native, bincode and JSON form), and protocol runs and proofs with each role played by the \
        library or an independent implementation; distinct: artefacts by content");
}
