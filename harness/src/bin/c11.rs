//! C11: serialisation round-trips for every type and format.
use serde::de::DeserializeOwned;
use serde::Serialize;
use vh::proto::*;
use vh::*;

type Bhv = Vec<Vec<u8>>;

/// Every way there is to write a value and read it back.
fn ways<T: Serialize + DeserializeOwned>(x: &T, to: fn(&T) -> Vec<u8>, from: fn(&[u8]) -> Option<T>) -> Vec<(&'static str, Option<T>)> {
    let native = to(x);
    let bin = bincode::serialize(x).ok();
    let mut into = Vec::new();
    let into_ok = bincode::serialize_into(&mut into, x).is_ok();
    let mut be = bincode::config();
    be.big_endian();
    let json = serde_json::to_string(x).ok();
    let value = serde_json::to_value(x).ok();
    vec![
        ("bytes", from(&native)),
        ("bytes of bytes", from(&native).and_then(|y| from(&to(&y)))),
        ("bincode", bin.as_ref().and_then(|b| bincode::deserialize(b).ok())),
        ("bincode reader", if into_ok { bincode::deserialize_from(std::io::Cursor::new(&into)).ok() } else { None }),
        ("bincode big endian", be.serialize(x).ok().and_then(|b| be.deserialize(&b).ok())),
        ("json", json.as_ref().and_then(|s| serde_json::from_str(s).ok())),
        ("json slice", serde_json::to_vec(x).ok().and_then(|s| serde_json::from_slice(&s).ok())),
        ("json pretty reader", serde_json::to_string_pretty(x).ok().and_then(|s| serde_json::from_reader(std::io::Cursor::new(s)).ok())),
        ("json value", value.and_then(|v| serde_json::from_value(v).ok())),
    ]
}

/// The same inside of other things.
fn nested<T: Serialize + DeserializeOwned>(x: &T) -> Vec<(&'static str, Option<T>)> {
    let bin = bincode::serialize(&(7u8, [x, x], Some(x), 9u32)).ok().and_then(|b| bincode::deserialize::<(u8, [T; 2], Option<T>, u32)>(&b).ok());
    let json = serde_json::to_string(&(7u8, [x, x], Some(x), 9u32)).ok().and_then(|b| serde_json::from_str::<(u8, Vec<T>, Option<T>, u32)>(&b).ok());
    let mut out = Vec::new();
    match bin {
        Some((7, [a, b], Some(c), 9)) => { out.push(("bincode tuple", Some(a))); out.push(("bincode array", Some(b))); out.push(("bincode option", Some(c))); }
        _ => out.push(("bincode tuple", None)),
    }
    match json {
        Some((7, v, Some(c), 9)) => { for y in v { out.push(("json array", Some(y))); } out.push(("json option", Some(c))); }
        _ => out.push(("json tuple", None)),
    }
    out
}

fn check_value<T: Serialize + DeserializeOwned>(
    ctx: &Ctx, name: &'static str, x: &T, len: usize,
    to: fn(&T) -> Vec<u8>, from: fn(&[u8]) -> Option<T>, eq: &Fn(&T, &T) -> bool, behave: &Fn(&T) -> Bhv,
) {
    let bytes = to(x);
    ctx.eval("values");
    ctx.seen(name, &bytes);
    ctx.sample(name, || hex(&bytes));
    ctx.check(bytes.len() == len, "wrong-length", || format!("{}: {} bytes, expected {}: {}", name, bytes.len(), len, hex(&bytes)));
    let want = behave(x);
    let mut all = ways(x, to, from);
    all.extend(nested(x));
    for (way, y) in all {
        ctx.eval(way);
        match y {
            // Scalars of curve25519-dalek 0.21 cannot be read from JSON, nor can proofs outside of other values.
            None if name.ends_with("_revealed") || name.ends_with("_blinded") || name.ends_with("_credential") || name.ends_with("_equal") => {
                let sig = if way.starts_with("json") { "proof-json-not-read-back" } else { "not-read-back" };
                ctx.finding(sig, format!("{} through {}: {}", name, way, hex(&bytes)));
            }
            None => ctx.violation("not-read-back", format!("{} through {}: {}", name, way, hex(&bytes))),
            Some(y) => {
                let again = to(&y);
                ctx.check(again == bytes, "bytes-changed", || format!("{} through {}: {} became {}", name, way, hex(&bytes), hex(&again)));
                ctx.check(eq(x, &y), "not-equal", || format!("{} through {}: {}", name, way, hex(&bytes)));
                let got = ctx.panics(|| behave(&y));
                ctx.eval("behaviours compared");
                ctx.check(got.as_ref() == Ok(&want), "behaves-differently", || format!(
                    "{} through {}: {}: {:?} instead of {:?}", name, way, hex(&bytes),
                    got.map(|g| g.iter().map(|x| hex(x)).collect::<Vec<_>>()), want.iter().map(|x| hex(x)).collect::<Vec<_>>()));
            }
        }
    }
}

macro_rules! rt {
    ($ctx:expr, $name:expr, $t:ty, $x:expr, $len:expr, $eq:expr, $behave:expr) => {{
        let eq: &Fn(&$t, &$t) -> bool = &$eq;
        let behave: &Fn(&$t) -> Bhv = &$behave;
        check_value::<$t>($ctx, $name, $x, $len, |x| x.to_bytes(), |b| <$t>::from_bytes(b).ok(), eq, behave)
    }};
}

macro_rules! rt_proof {
    ($ctx:expr, $which:ident, $kind:expr, $x:expr, $len:expr, $context:expr, $publics:expr) => {{
        type P = aeonflux::proofs::$which::Proof;
        let publics: &[RistrettoPoint] = $publics;
        let eq: &Fn(&P, &P) -> bool = &|a, b| a == b;
        let behave: &Fn(&P) -> Bhv = &|p| vec![vec![nizk::lib_verify($kind, $context, publics, &bincode::serialize(p).expect("serialises")).expect("HARNESS: proof") as u8]];
        ctx_assert($ctx, behave($x) == [[1u8]]);
        check_value::<P>($ctx, stringify!($which), $x, $len, |x| bincode::serialize(x).expect("serialises"),
                         |b| bincode::deserialize(b).ok(), eq, behave)
    }};
}

fn ctx_assert(ctx: &Ctx, ok: bool) {
    if !ok { ctx.harness_error("a proof which should verify does not".to_string()); }
}

fn same_secret(a: &amacs::SecretKey, b: &amacs::SecretKey) -> bool { a.x0 == b.x0 && a.xn == b.xn }
fn same_keypair(a: &amacs::Keypair, b: &amacs::Keypair) -> bool { same_secret(&a.secret, &b.secret) && a.public == b.public }
fn same_issuer(a: &Issuer, b: &Issuer) -> bool { a.system_parameters.g == b.system_parameters.g && a.system_parameters.h == b.system_parameters.h && same_keypair(&a.keypair, &b.keypair) }
fn same_proof<P: Serialize>(a: &P, b: &P) -> bool { bincode::serialize(a).ok() == bincode::serialize(b).ok() }
fn same_presentation(a: &CredentialPresentation, b: &CredentialPresentation) -> bool {
    a.rerandomized_mac_commitment == b.rerandomized_mac_commitment && a.rerandomized_nonce == b.rerandomized_nonce
        && a.attributes_revealed == b.attributes_revealed && a.attributes_blinded == b.attributes_blinded && same_proof(&a.proof, &b.proof)
}
fn same_signal(a: &SignalCredentialPresentation, b: &SignalCredentialPresentation) -> bool {
    a.roster_entry_commitment.0 == b.roster_entry_commitment.0 && same_presentation(&a.presentation, &b.presentation)
        && same_proof(&a.roster_membership_proof, &b.roster_membership_proof)
}
fn same_credential(a: &Credential, b: &Credential) -> bool { a.mac.nonce == b.mac.nonce && a.mac.mac == b.mac.mac && a.attributes == b.attributes }
fn same_user(a: &User, b: &User) -> bool {
    a.system_parameters.g == b.system_parameters.g && a.system_parameters.h == b.system_parameters.h && a.issuer_parameters.Xn == b.issuer_parameters.Xn
        && match (&a.key, &b.key) { (None, None) => true, (Some(x), Some(y)) => x.to_bytes() == y.to_bytes() && x == y, _ => false }
        && match (&a.credential, &b.credential) { (None, None) => true, (Some(x), Some(y)) => same_credential(x, y), _ => false }
}

fn main() {
    let ctx = Ctx::new("C11");
    ctx.par("round trips", ctx.n(104), move |case, rng| {
        let w = World::new(rng);
        let mut n = number(rng);
        if case < 52 { n = digits(rng, case as usize % 26 + 1); }
        // All lengths with leading zeros, too.
        if case >= 26 && case < 52 { for i in 0..(n.len() + 1) / 2 { n[i] = 0; } }
        let m = encode(&n);
        let seed = case + 1;
        let det = move |k: u64| { let mut s = [0u8; 32]; s[..8].copy_from_slice(&(seed * 1000 + k).to_le_bytes()); ChaChaRng::from_seed(s) };
        let issuance = w.issuer.issue(&n, rng).expect("issue");
        let entry = w.entry(&n, rng);
        let message = amacs::Message::from(m);

        let act_issuer = |i: &SignalIssuer| { let x = i.issue(&n, &mut det(1)).expect("issue"); vec![x.to_bytes()[..128].to_vec(), i.get_issuer_parameters().to_bytes()] };
        // Users in all their states.
        let other = World::with(w.params, rng);
        let mut users = Vec::new();
        for k in 0..6 {
            let key = if k % 2 == 0 { None } else { Some(elgamal::Keypair::generate(rng)) };
            let mut u = SignalUser::new(w.params, w.ip.clone(), key, &n).expect("user");
            if k >= 2 { u.obtain_finish(Some(&issuance)).expect("obtain_finish"); }
            if k >= 4 {
                // and after a replaced, and a refused, issuance
                let i2 = w.issuer.issue(&n, rng).expect("issue");
                if rng.next_u32() % 2 == 0 { u.obtain_finish(Some(&i2)).expect("obtain_finish"); }
                let i3 = other.issuer.issue(&n, rng).expect("issue");
                if u.obtain_finish(Some(&i3)).is_ok() { ctx.eval("foreign issuances accepted"); }
            }
            users.push(u);
        }
        for u in &users {
            let show = |u: &SignalUser| -> Bhv {
                match u.show(&mut det(2), &entry) {
                    Ok(p) => {
                        let p2 = p.clone();
                        let v = w.issuer.verify(p);
                        let e = v.as_ref().ok().and_then(|v| w.issuer.verify_roster_membership(v).ok());
                        // everything but the proofs, which have nonces of their own
                        vec![p2.to_bytes()[..128].to_vec(), vec![v.is_ok() as u8, e.is_some() as u8]]
                    }
                    Err(_) => vec![],
                }
            };
            rt!(ctx, "SignalUser", SignalUser, u, 288,
                |a, b| a == b && a.phone_number.0 == b.phone_number.0 && same_user(&a.user, &b.user), show);
            rt!(ctx, "User", User, &u.user, 256, |a, b| a == b && same_user(a, b), |x| {
                match x.show(&Nonces::new(&mut det(3), 1), &mut det(4)) { Ok(p) => vec![p.to_bytes()[..96].to_vec(), vec![w.issuer.issuer.verify(&p).is_ok() as u8]], Err(_) => vec![] }
            });
        }
        let u = &users[3];
        let pres = u.show(rng, &entry).expect("show");
        let act_pres = |p: &SignalCredentialPresentation| {
            let v = w.issuer.verify(p.clone());
            vec![v.as_ref().ok().map(|v| v.to_bytes()).unwrap_or_default(), v.ok().and_then(|v| w.issuer.verify_roster_membership(&v).ok()).map(|c| c.to_bytes()).unwrap_or_default()]
        };
        rt!(ctx, "SignalCredentialPresentation", SignalCredentialPresentation, &pres, 448, |a, b| a == b && same_signal(a, b), act_pres);
        rt!(ctx, "CredentialPresentation", CredentialPresentation, &pres.presentation, 256, |a, b| a == b && same_presentation(a, b),
            |p| vec![w.issuer.issuer.verify(p).ok().map(|v| v.to_bytes()).unwrap_or_default()]);
        let v = w.issuer.verify(pres.clone()).expect("verify");
        rt!(ctx, "VerifiedSignalCredential", VerifiedSignalCredential, &v, 448, |a, b| a == b,
            |v| vec![w.issuer.verify_roster_membership(v).ok().map(|c| c.to_bytes()).unwrap_or_default()]);
        // one whose membership is not proven is a value as well
        let wrong = w.entry(&other_number(rng, &n), rng);
        let p2 = u.show(rng, &wrong).expect("show");
        rt!(ctx, "SignalCredentialPresentation", SignalCredentialPresentation, &p2, 448, |a, b| a == b && same_signal(a, b), act_pres);
        let v2 = w.issuer.issuer.verify(&pres.presentation).expect("verify");
        rt!(ctx, "VerifiedCredential", VerifiedCredential, &v2, 256, |a, b| a == b, |v| vec![v.to_bytes()]);
        rt!(ctx, "CredentialIssuance", CredentialIssuance, &issuance, 328,
            |a, b| a == b && same_credential(&a.credential, &b.credential) && a.secret_key_commitment == b.secret_key_commitment && same_proof(&a.proof, &b.proof),
            |i| { let mut u = w.user(&n); let r = u.obtain_finish(Some(i)); vec![vec![r.is_ok() as u8], u.to_bytes()] });
        rt!(ctx, "Credential", Credential, &issuance.credential, 96, |a, b| a == b && same_credential(a, b), |c| {
            let mut u = w.user(&n); u.user.credential = Some(c.clone());
            let p = u.show(&mut det(5), &entry).expect("show");
            vec![p.to_bytes()[..128].to_vec(), vec![w.issuer.verify(p).is_ok() as u8]]
        });
        let rerandomize = |t: &amacs::Tag| amacs::Rerandomization::new(&mut det(6)).apply_to_tag(t).to_bytes();
        rt!(ctx, "amacs::Tag", amacs::Tag, &issuance.credential.mac, 64, |a, b| a == b && a.nonce == b.nonce && a.mac == b.mac,
            |t| vec![vec![w.issuer.issuer.keypair.secret.verify(t, &message).is_ok() as u8], rerandomize(t)]);

        // Issuers, and keys for other numbers of attributes.
        rt!(ctx, "SignalIssuer", SignalIssuer, &w.issuer, 160, |a, b| same_issuer(&a.issuer, &b.issuer), |i| {
            let mut v = act_issuer(i);
            v.push(vec![i.verify(pres.clone()).is_ok() as u8]);
            v
        });
        rt!(ctx, "Issuer", Issuer, &w.issuer.issuer, 160, same_issuer, |i| {
            let r = CredentialRequest { attributes_revealed: vec![m] };
            vec![i.issue(&r, &mut det(7)).expect("issue").to_bytes()[..128].to_vec(), vec![i.verify(&pres.presentation).is_ok() as u8]]
        });
        let big = match case % 8 { 0 => 1 + rng.next_u32() as usize % 300, 1 | 3 | 5 | 7 => 64, 2 => 256, _ => 10 + rng.next_u32() as usize % 54 };
        for k in &[0usize, 1, 1 + rng.next_u32() as usize % 9, big] {
            let sk = amacs::SecretKey::new(*k, rng);
            let pk = sk.get_public_key(&w.params.h);
            let msg = amacs::Message((0..*k).map(|_| special(rng)).collect());
            let kp = amacs::Keypair { public: pk.clone(), secret: sk.clone() };
            let act = |s: &amacs::SecretKey| { let t = s.mac(&msg, &mut det(8)).expect("mac"); vec![t.to_bytes(), s.get_public_key(&w.params.h).to_bytes(), vec![s.verify(&t, &msg).is_ok() as u8, s.len() as u8]] };
            rt!(ctx, "amacs::SecretKey", amacs::SecretKey, &sk, 32 + 32 * k, same_secret, act);
            rt!(ctx, "amacs::PublicKey", amacs::PublicKey, &pk, 32 * k, |a, b| a == b && a.Xn == b.Xn, |p| vec![vec![p.len() as u8], p.to_bytes()]);
            rt!(ctx, "amacs::Keypair", amacs::Keypair, &kp, 32 + 64 * k, same_keypair, |p| { let mut v = act(&p.secret); v.push(p.public.to_bytes()); v.push(vec![p.len() as u8]); v });
            if *k > 0 && (*k < 10 || case % 4 == 0) {
                let i = Issuer::new(w.params, kp.clone());
                rt!(ctx, "Issuer", Issuer, &i, 96 + 64 * k, same_issuer, |i| act(&i.keypair.secret));
            }
        }
        rt!(ctx, "amacs::PublicKey", amacs::PublicKey, &w.ip, 32, |a, b| a == b && a.Xn == b.Xn, |p| {
            let mut u = SignalUser::new(w.params, p.clone(), None, &n).expect("user");
            vec![vec![u.obtain_finish(Some(&issuance)).is_ok() as u8]]
        });
        rt!(ctx, "SystemParameters", SystemParameters, &w.params, 64, |a, b| a == b && a.g == b.g && a.h == b.h, |p| vec![
            RosterEntryCommitment::create(&n, p, &mut det(9)).expect("entry").to_bytes(), SignalIssuer::create(*p, &mut det(10)).to_bytes()]);

        // Requests of any length.
        let k = if case % 4 == 0 { rng.next_u32() as usize % 400 } else { rng.next_u32() as usize % 20 };
        let req = CredentialRequest { attributes_revealed: (0..k).map(|_| special(rng)).collect() };
        rt!(ctx, "CredentialRequest", CredentialRequest, &req, 32 * k, |a, b| a == b && a.attributes_revealed == b.attributes_revealed, |r| vec![r.to_bytes()]);
        let req = u.user.obtain(vec![m]);
        rt!(ctx, "CredentialRequest", CredentialRequest, &req, 32, |a, b| a == b && a.attributes_revealed == b.attributes_revealed,
            |r| vec![w.issuer.issuer.issue(r, &mut det(11)).expect("issue").to_bytes()[..128].to_vec()]);

        // ElGamal keys.
        let e = elgamal::Keypair::generate(rng);
        let msg = elgamal::Message::from(&m);
        let (d1, d2) = (Ephemeral::new(&mut det(12)), Ephemeral::new(&mut det(13)));
        let encryption = e.public.encrypt(&msg, &d1);
        rt!(ctx, "elgamal::Keypair", elgamal::Keypair, &e, 64, |a, b| a == b && a.secret == b.secret && a.public == b.public, |k| {
            let x = k.encrypt(&msg, &d2);
            vec![enc(&x.commitment).to_vec(), enc(&x.encryption).to_vec(), enc(&k.secret.decrypt(&x)).to_vec(), enc(&k.secret.decrypt(&encryption)).to_vec()]
        });
        rt!(ctx, "elgamal::PublicKey", elgamal::PublicKey, &e.public, 32, |a, b| a == b, |k| {
            let x = k.encrypt(&msg, &d2);
            vec![enc(&x.commitment).to_vec(), enc(&x.encryption).to_vec(), enc(&e.secret.decrypt(&x)).to_vec()]
        });
        rt!(ctx, "elgamal::SecretKey", elgamal::SecretKey, &e.secret, 32, |a, b| a == b, |k| vec![enc(&k.decrypt(&encryption)).to_vec()]);

        // Commitments, entries and numbers; also ones whose values are at the limits.
        rt!(ctx, "RosterEntryCommitment", RosterEntryCommitment, &entry, 64,
            |a, b| a.commitment == b.commitment && a.opening.to_bytes() == b.opening.to_bytes(), |x| vec![
                vec![x.open(&n, &w.params).is_ok() as u8, x.open(&[1, 2, 3], &w.params).is_ok() as u8], u.show(&mut det(14), x).expect("show").to_bytes()[..128].to_vec()]);
        let o = special(rng);
        let e2 = RosterEntryCommitment { commitment: CommittedPhoneNumber::from_phone_number(&PhoneNumber(m), &o.into(), &w.params.g, &w.params.h), opening: o.into() };
        rt!(ctx, "RosterEntryCommitment", RosterEntryCommitment, &e2, 64,
            |a, b| a.commitment == b.commitment && a.opening.to_bytes() == b.opening.to_bytes(), |x| vec![vec![x.open(&n, &w.params).is_ok() as u8]]);
        rt!(ctx, "CommittedPhoneNumber", CommittedPhoneNumber, &entry.commitment, 32, |a, b| a == b && a.0 == b.0,
            |c| vec![vec![c.open(&PhoneNumber(m), &entry.opening, &w.params.g, &w.params.h).is_ok() as u8]]);
        let c = pedersen::Commitment::to(&(special(rng) * G), &special(rng).into(), &w.params.h);
        rt!(ctx, "pedersen::Commitment", pedersen::Commitment, &c, 32, |a, b| a == b, |c| vec![enc(&RistrettoPoint::from(*c)).to_vec()]);
        let p = PhoneNumber::try_from_bytes(&n).expect("number");
        rt!(ctx, "PhoneNumber", PhoneNumber, &p, 32, |a, b| a == b && a.0 == b.0, |p| vec![String::from(p.clone()).into_bytes(), w.issuer.issue(&n, &mut det(15)).expect("issue").to_bytes()[..128].to_vec()]);
        let p = PhoneNumber(special(rng));
        rt!(ctx, "PhoneNumber", PhoneNumber, &p, 32, |a, b| a == b && a.0 == b.0, |p| vec![p.0.to_bytes().to_vec()]);

        // The five proofs.
        for (kind, s) in nizk::specs().iter().enumerate() {
            let mut secrets: Vec<Scalar> = s.secrets.iter().map(|_| special(rng)).collect();
            if case % 2 == 0 { secrets.iter_mut().for_each(|x| *x = Scalar::random(rng)); }
            let publics = nizk::points(&s.statement(rng, &secrets, &[], None));
            let b = nizk::lib_prove(kind, s.context, &publics, &secrets);
            macro_rules! one { ($which:ident, $len:expr) => {{
                let p: aeonflux::proofs::$which::Proof = bincode::deserialize(&b).expect("a proof is read back");
                rt_proof!(ctx, $which, kind, &p, $len, s.context, &publics)
            }} }
            match kind {
                0 => one!(issuance_revealed, 200),
                1 => one!(attributes_blinded, 200),
                2 => one!(issuance_blinded, 280),
                3 => one!(valid_credential, 160),
                _ => one!(committed_values_equal, 160),
            }
        }
    });
    // Values put together from scalars and points whose encodings look unusual.  They are used only as far as that is
    // possible for any such value.
    ctx.par("limits", ctx.n(480), move |_, rng| {
        let scalar = |rng: &mut ChaChaRng| if rng.next_u32() % 4 == 0 { Scalar::random(rng) } else { patterned(rng) };
        let ((_, h), (_, p1), (_, p2), (_, p3), (_, p4)) = (odd_point(rng), odd_point(rng), odd_point(rng), odd_point(rng), odd_point(rng));
        let params = SystemParameters { g: G, h };
        let (x0, x1, m) = (scalar(rng), scalar(rng), scalar(rng));
        let com = |p: &RistrettoPoint| pedersen::Commitment::from_bytes(&enc(p)).expect("commitment");
        ctx.evals("unusual points and scalars", 8);
        rt!(ctx, "SystemParameters", SystemParameters, &params, 64, |a, b| a == b && a.g == b.g && a.h == b.h, |_| vec![]);
        rt!(ctx, "pedersen::Commitment", pedersen::Commitment, &com(&p1), 32, |a, b| a == b, |c| vec![enc(&RistrettoPoint::from(*c)).to_vec()]);
        rt!(ctx, "CommittedPhoneNumber", CommittedPhoneNumber, &CommittedPhoneNumber(com(&p2)), 32, |a, b| a == b && a.0 == b.0, |_| vec![]);
        let o: Ephemeral = scalar(rng).into();
        let e = RosterEntryCommitment { commitment: CommittedPhoneNumber(com(&p3)), opening: o };
        rt!(ctx, "RosterEntryCommitment", RosterEntryCommitment, &e, 64, |a, b| a.commitment == b.commitment && <&Scalar>::from(&a.opening) == <&Scalar>::from(&b.opening), |_| vec![]);
        let tag = amacs::Tag { nonce: p1, mac: p2 };
        rt!(ctx, "amacs::Tag", amacs::Tag, &tag, 64, |a, b| a == b && a.nonce == b.nonce && a.mac == b.mac, |_| vec![]);
        let credential = Credential { mac: tag.clone(), attributes: vec![m] };
        rt!(ctx, "Credential", Credential, &credential, 96, |a, b| a == b && same_credential(a, b), |_| vec![]);
        let sk = amacs::SecretKey { x0, xn: vec![x1] };
        let kp = amacs::Keypair { public: sk.get_public_key(&h), secret: sk.clone() };
        rt!(ctx, "amacs::SecretKey", amacs::SecretKey, &sk, 64, same_secret, |s| vec![s.get_public_key(&G).to_bytes()]);
        let k = rng.next_u32() as usize % 6;
        let many = amacs::SecretKey { x0: special(rng), xn: (0..k).map(|_| special(rng)).collect() };
        rt!(ctx, "amacs::SecretKey", amacs::SecretKey, &many, 32 + 32 * k, same_secret, |s| vec![s.get_public_key(&G).to_bytes()]);
        rt!(ctx, "amacs::PublicKey", amacs::PublicKey, &amacs::PublicKey { Xn: vec![p4, p1, p3] }, 96, |a, b| a == b && a.Xn == b.Xn, |_| vec![]);
        rt!(ctx, "amacs::Keypair", amacs::Keypair, &kp, 96, same_keypair, |_| vec![]);
        rt!(ctx, "Issuer", Issuer, &Issuer::new(params, kp.clone()), 160, same_issuer, |_| vec![]);
        rt!(ctx, "SignalIssuer", SignalIssuer, &SignalIssuer::new(params, kp.clone()), 160, |a, b| same_issuer(&a.issuer, &b.issuer), |_| vec![]);
        let k = rng.next_u32() as usize % 4;
        let req = CredentialRequest { attributes_revealed: (0..k).map(|_| scalar(rng)).collect() };
        rt!(ctx, "CredentialRequest", CredentialRequest, &req, 32 * k, |a, b| a == b && a.attributes_revealed == b.attributes_revealed, |_| vec![]);
        let es = elgamal::SecretKey::from_bytes(scalar(rng).as_bytes()).expect("elgamal key");
        let ek = elgamal::Keypair { public: elgamal::PublicKey::from(&es), secret: es };
        rt!(ctx, "elgamal::SecretKey", elgamal::SecretKey, &ek.secret, 32, |a, b| a == b, |_| vec![]);
        rt!(ctx, "elgamal::PublicKey", elgamal::PublicKey, &ek.public, 32, |a, b| a == b, |_| vec![]);
        rt!(ctx, "elgamal::Keypair", elgamal::Keypair, &ek, 64, |a, b| a == b && a.secret == b.secret && a.public == b.public, |_| vec![]);
        rt!(ctx, "PhoneNumber", PhoneNumber, &PhoneNumber(m), 32, |a, b| a == b && a.0 == b.0, |p| vec![p.0.to_bytes().to_vec()]);
        for t in 0..4 {
            let user = User {
                system_parameters: params, issuer_parameters: IssuerParameters { Xn: vec![p4] },
                key: if t & 1 == 0 { None } else { Some(ek.clone()) }, credential: if t & 2 == 0 { None } else { Some(credential.clone()) },
            };
            rt!(ctx, "User", User, &user, 256, |a, b| a == b && same_user(a, b), |_| vec![]);
            let user = SignalUser { phone_number: PhoneNumber(m), user };
            rt!(ctx, "SignalUser", SignalUser, &user, 288, |a, b| a == b && a.phone_number.0 == b.phone_number.0 && same_user(&a.user, &b.user), |_| vec![]);
        }
        // A proof is any scalars, as far as reading and writing it goes.
        let proof = |n: usize, rng: &mut ChaChaRng| nizk::RefProof { c: scalar(rng), r: (0..n).map(|_| scalar(rng)).collect() }.to_bytes();
        let (a, b, c) = (proof(4, rng), proof(3, rng), proof(3, rng));
        let i = CredentialIssuance { secret_key_commitment: com(&p4), credential, proof: bincode::deserialize(&a).expect("a proof is read back") };
        rt!(ctx, "CredentialIssuance", CredentialIssuance, &i, 328,
            |a, b| a == b && same_credential(&a.credential, &b.credential) && a.secret_key_commitment == b.secret_key_commitment && same_proof(&a.proof, &b.proof), |_| vec![]);
        let p = CredentialPresentation {
            rerandomized_mac_commitment: com(&p1), rerandomized_nonce: p2, attributes_revealed: vec![], attributes_blinded: vec![com(&p3)],
            proof: bincode::deserialize(&b).expect("a proof is read back"),
        };
        rt!(ctx, "CredentialPresentation", CredentialPresentation, &p, 256, |a, b| a == b && same_presentation(a, b), |_| vec![]);
        let v = VerifiedCredential(p.clone());
        rt!(ctx, "VerifiedCredential", VerifiedCredential, &v, 256, |a, b| a == b, |_| vec![]);
        let s = SignalCredentialPresentation {
            roster_entry_commitment: CommittedPhoneNumber(com(&p4)), presentation: p, roster_membership_proof: bincode::deserialize(&c).expect("a proof is read back"),
        };
        rt!(ctx, "SignalCredentialPresentation", SignalCredentialPresentation, &s, 448, |a, b| a == b && same_signal(a, b), |_| vec![]);
    });
    ctx.finish("values of all 28 serialisable types, made by the library in many states, written and read back in 14 ways and then compared and used; distinct by type and bytes");
}
