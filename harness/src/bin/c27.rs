//! C27: equality, copies, conversions and arithmetic of the value types.
use std::sync::atomic::{AtomicUsize, Ordering};
use vh::proto::*;
use vh::types::*;
use vh::*;

/// The same point, in another of the forms it may have in memory.
fn form(p: RistrettoPoint, rng: &mut ChaChaRng) -> RistrettoPoint {
    match rng.next_u32() % 6 {
        0 => dec(&enc(&p)).expect("what was encoded decodes"),
        1 => { let q = rpoint(rng); (p + q) - q }
        2 => { let s = Scalar::random(rng); s.invert() * (s * p) }
        3 => -(-p),
        4 => { let q = rpoint(rng); let r = dec(&enc(&(p - q))).unwrap(); q + r }
        _ => p,
    }
}

fn point(rng: &mut ChaChaRng) -> RistrettoPoint {
    let p = match rng.next_u32() % 8 {
        0 => RistrettoPoint::identity(),
        1 => G,
        2 => -G,
        3 => odd_point(rng).1,
        4 => special(rng) * G,
        _ => rpoint(rng),
    };
    form(p, rng)
}

/// A point which is close to `p` in one of several ways, or `p` itself.
fn related(p: RistrettoPoint, rng: &mut ChaChaRng) -> RistrettoPoint {
    let q = match rng.next_u32() % 8 {
        0 => -p,
        1 => p + G,
        2 => p - G,
        3 => p + p,
        4 => RistrettoPoint::identity(),
        5 => point(rng),
        _ => p,
    };
    form(q, rng)
}

/// Two values compare as their encodings do, both ways round, and `!=` is the opposite of `==`.
macro_rules! same {
    ($ctx:expr, $name:expr, $a:expr, $b:expr, $want:expr) => {{
        let (a, b) = (&$a, &$b);
        let want: bool = $want;
        $ctx.eval(if want { "comparisons of equal values" } else { "comparisons of different values" });
        $ctx.check((*a == *b) == want && (*b == *a) == want && (*a != *b) != want && *a == *a && *b == *b, "equality", || format!(
            "{}: {:?} and {:?}: == gives {} and {}, should be {}", $name, a, b, *a == *b, *b == *a, want));
    }};
}

macro_rules! copies {
    ($ctx:expr, $name:expr, $a:expr) => {{
        let a = &$a;
        let c = a.clone();
        $ctx.eval("copies");
        $ctx.check(c.to_bytes() == a.to_bytes(), "copy", || format!("{}: {} from {}", $name, hex(&c.to_bytes()), hex(&a.to_bytes())));
    }};
}

/// Other encodings which differ from `a` in something small, and which may or may not decode.
fn neighbours(a: &[u8], other: Option<&[u8]>, rng: &mut ChaChaRng) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let blocks: Vec<usize> = if a.len() >= 32 { (0..=a.len() - 32).step_by(8).collect() } else { vec![] };
    for &at in &blocks {
        let put = |new: &[u8]| { let mut b = a.to_vec(); b[at..at + 32].copy_from_slice(new); b };
        if let Some(o) = other {
            if o.len() == a.len() { out.push(put(&o[at..at + 32])); }
        }
        if let Some(p) = dec(&a[at..at + 32]) {
            out.push(put(&enc(&-p)));
            out.push(put(&enc(&(p + G))));
            out.push(put(&[0u8; 32]));
        }
        if let Some(s) = scalar(&a[at..at + 32]) {
            out.push(put((-s).as_bytes()));
            out.push(put((s + Scalar::one()).as_bytes()));
            // one bit anywhere
            let mut b = *s.as_bytes();
            let i = rng.next_u32() as usize % 252;
            b[i / 8] ^= 1 << (i % 8);
            out.push(put(&b));
            for i in 0..32 {
                let mut b = *s.as_bytes();
                b[i] ^= 1 << (rng.next_u32() % 8);
                if rng.next_u32() % 4 == 0 { out.push(put(&b)); }
            }
        }
        // two blocks exchanged
        let to = blocks[rng.next_u32() as usize % blocks.len()];
        if to >= at + 32 || at >= to + 32 {
            let mut b = a.to_vec();
            b[at..at + 32].copy_from_slice(&a[to..to + 32]);
            b[to..to + 32].copy_from_slice(&a[at..at + 32]);
            out.push(b);
        }
    }
    // shorter and longer lists
    for k in 1..4 {
        if a.len() >= 32 * k { out.push(a[..a.len() - 32 * k].to_vec()); out.push(a[32 * k..].to_vec()); }
        let mut b = a.to_vec();
        b.extend(vec![0u8; 32 * k]);
        out.push(b);
        let mut b = vec![0u8; 32 * k];
        b.extend(a);
        out.push(b);
        if a.len() >= 32 { let mut b = a.to_vec(); b.extend(&a[a.len() - 32..]); out.push(b); }
    }
    out
}

fn main() {
    let ctx = Ctx::new("C27");
    let kinds: &'static Vec<Kind> = Box::leak(Box::new(kinds()));
    let seen: &'static Vec<AtomicUsize> = Box::leak(Box::new((0..2 * kinds.len()).map(|_| AtomicUsize::new(0)).collect()));

    // Every type, by its encodings.
    ctx.par("encoded", ctx.n(60), move |_, rng| {
        let (v1, v2) = (values(rng), values(rng));
        for (j, kind) in kinds.iter().enumerate() {
            let of = |v: &[(&'static str, Vec<u8>)]| -> Vec<Vec<u8>> { v.iter().filter(|x| x.0 == kind.name).map(|x| x.1.clone()).collect() };
            let (a1, a2) = (of(&v1), of(&v2));
            let compare = |a: &[u8], b: &[u8]| {
                let want = match ((kind.decode)(a), (kind.decode)(b)) { (Some(x), Some(y)) => x == y, _ => return };
                for (x, y) in &[(a, b), (b, a)] {
                    let got = (kind.equal)(x, y);
                    ctx.eval(if want { "comparisons of equal values" } else { "comparisons of different values" });
                    ctx.check(got == Some(want), "equality", || format!("{}: {} and {}: {:?}", kind.name, hex(x), hex(y), got));
                }
                ctx.seen(kind.name, &[a, b].concat());
                seen[2 * j + want as usize].fetch_add(1, Ordering::Relaxed);
            };
            for (i, a) in a1.iter().enumerate() {
                compare(a, a);
                for b in a1.iter().skip(i + 1).chain(&a2) {
                    compare(a, b);
                }
                let other = a2.iter().find(|o| o.len() == a.len()).map(|x| &x[..]);
                for b in neighbours(a, other, rng) {
                    compare(a, &b);
                }
            }
        }
    });

    // Values made in memory, with points in each of their forms.
    ctx.par("memory", ctx.n(4000), move |_, rng| {
        let (p, q) = (point(rng), point(rng));
        let (p2, q2) = (related(p, rng), related(q, rng));
        let want = enc(&p) == enc(&p2);
        let both = want && enc(&q) == enc(&q2);
        ctx.seen("point", &enc(&p));
        same!(ctx, "amacs::Tag", amacs::Tag { nonce: p, mac: q }, amacs::Tag { nonce: p2, mac: q2 }, both);
        same!(ctx, "elgamal::Encryption", elgamal::Encryption { commitment: p, encryption: q },
              elgamal::Encryption { commitment: p2, encryption: q2 }, both);
        same!(ctx, "SystemParameters", SystemParameters { g: p, h: q }, SystemParameters { g: p2, h: q2 }, both);
        same!(ctx, "amacs::PublicKey", amacs::PublicKey { Xn: vec![p, q] }, amacs::PublicKey { Xn: vec![p2, q2] }, both);
        same!(ctx, "amacs::PublicKey", amacs::PublicKey { Xn: vec![p, q] }, amacs::PublicKey { Xn: vec![p2] }, false);
        same!(ctx, "amacs::PublicKey", amacs::PublicKey { Xn: vec![p] }, amacs::PublicKey { Xn: vec![] }, false);
        same!(ctx, "amacs::PublicKey", amacs::PublicKey { Xn: vec![p, q] }, amacs::PublicKey { Xn: vec![q2, p2] },
              enc(&p) == enc(&q2) && enc(&q) == enc(&p2));
        let c = |p: &RistrettoPoint| pedersen::Commitment::to(p, &Scalar::zero().into(), &G);
        same!(ctx, "pedersen::Commitment", c(&p), c(&p2), want);
        same!(ctx, "CommittedPhoneNumber", CommittedPhoneNumber(c(&p)), CommittedPhoneNumber(c(&p2)), want);
        let (s, t) = (special(rng), special(rng));
        let s2 = match rng.next_u32() % 4 {
            0 => -s,
            1 => t,
            2 => { let mut b = *s.as_bytes(); let i = rng.next_u32() as usize % 252; b[i / 8] ^= 1 << (i % 8); Scalar::from_bytes_mod_order(b) }
            _ => s,
        };
        let eq = s.as_bytes() == s2.as_bytes();
        ctx.seen("scalar", s.as_bytes());
        let cred = |t: &amacs::Tag, m: Vec<Scalar>| Credential { mac: t.clone(), attributes: m };
        let (t1, t2) = (amacs::Tag { nonce: p, mac: q }, amacs::Tag { nonce: p2, mac: q2 });
        same!(ctx, "Credential", cred(&t1, vec![s]), cred(&t2, vec![s2]), both && eq);
        same!(ctx, "Credential", cred(&t1, vec![s]), cred(&t1, vec![s, s2]), false);
        same!(ctx, "Credential", cred(&t1, vec![s]), cred(&t1, vec![]), false);
        same!(ctx, "Credential", cred(&t1, vec![s, t]), cred(&t1, vec![s, s2]), t == s2);
        let req = |v: &[Scalar]| CredentialRequest { attributes_revealed: v.to_vec() };
        same!(ctx, "CredentialRequest", req(&[s, t]), req(&[s2, t]), eq);
        same!(ctx, "CredentialRequest", req(&[s, t]), req(&[s2]), false);
        same!(ctx, "CredentialRequest", req(&[t, s]), req(&[t, s2]), eq);
        same!(ctx, "PhoneNumber", PhoneNumber(s), PhoneNumber(s2), eq);
        let key = |s: &Scalar| elgamal::SecretKey::from_bytes(s.as_bytes()).expect("a canonical scalar");
        same!(ctx, "elgamal::SecretKey", key(&s), key(&s2), eq);
        let public = |s: &Scalar| elgamal::PublicKey::from(&key(s));
        same!(ctx, "elgamal::PublicKey", public(&s), public(&s2), eq);
        let pair = |a: &Scalar, b: &Scalar| elgamal::Keypair { secret: key(a), public: public(b) };
        same!(ctx, "elgamal::Keypair", pair(&s, &t), pair(&s2, &t), eq);
        same!(ctx, "elgamal::Keypair", pair(&t, &s), pair(&t, &s2), eq);

        copies!(ctx, "amacs::Tag", t1);
        copies!(ctx, "Credential", cred(&t1, vec![s, t]));
        copies!(ctx, "amacs::PublicKey", amacs::PublicKey { Xn: vec![p, q, p2] });
        let sk = amacs::SecretKey { x0: s, xn: vec![t, s2] };
        copies!(ctx, "amacs::SecretKey", sk);
        copies!(ctx, "amacs::Keypair", amacs::Keypair { public: amacs::PublicKey { Xn: vec![p, q] }, secret: sk.clone() });
        // of every length, also such as no constructor gives
        for _ in 0..4 {
            let (a, b) = (rng.next_u32() as usize % 12, rng.next_u32() as usize % 12);
            let public = amacs::PublicKey { Xn: (0..a).map(|i| if i % 2 == 0 { p } else { q2 }).collect() };
            let secret = amacs::SecretKey { x0: t, xn: (0..b).map(|_| special(rng)).collect() };
            copies!(ctx, "amacs::Keypair", amacs::Keypair { public: public.clone(), secret: secret.clone() });
            copies!(ctx, "amacs::PublicKey", public);
            copies!(ctx, "amacs::SecretKey", secret);
            copies!(ctx, "Credential", cred(&t2, (0..a).map(|_| special(rng)).collect()));
            let m = req(&(0..b).map(|_| special(rng)).collect::<Vec<_>>());
            copies!(ctx, "CredentialRequest", m);
        }
        copies!(ctx, "elgamal::SecretKey", key(&s));
        copies!(ctx, "elgamal::PublicKey", public(&s));
        copies!(ctx, "elgamal::Keypair", pair(&s, &t));
        copies!(ctx, "SystemParameters", SystemParameters { g: p, h: q });
        copies!(ctx, "pedersen::Commitment", c(&p));
        copies!(ctx, "PhoneNumber", PhoneNumber(s));
        copies!(ctx, "CommittedPhoneNumber", CommittedPhoneNumber(c(&p)));
        copies!(ctx, "Ephemeral", Ephemeral::from(s));
        ctx.check(sk.len() == 3 && sk.clone().len() == 3 && amacs::PublicKey { Xn: vec![p, q] }.len() == 2, "length", || "of a MAC key".to_string());
    });

    // Copies of what the protocol makes, and users and issuances which differ in what they hold.
    ctx.par("protocol", ctx.n(150), move |_, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let u = w.enrolled(&n, rng);
        let entry = w.entry(&n, rng);
        let pres = u.show(rng, &entry).expect("show");
        copies!(ctx, "SignalCredentialPresentation", pres);
        copies!(ctx, "CredentialPresentation", pres.presentation);
        let vc = w.issuer.issuer.verify(&pres.presentation).expect("verify");
        copies!(ctx, "VerifiedCredential", vc);
        let v = w.issuer.verify(pres.clone()).expect("verify");
        copies!(ctx, "VerifiedSignalCredential", v);
        let p2 = u.show(rng, &entry).expect("show");
        same!(ctx, "SignalCredentialPresentation", pres, pres.clone(), true);
        same!(ctx, "SignalCredentialPresentation", pres, p2, false);
        same!(ctx, "CredentialPresentation", pres.presentation, p2.presentation, false);
        let mut mixed = pres.clone();
        mixed.presentation = p2.presentation.clone();
        same!(ctx, "SignalCredentialPresentation", pres, mixed, false);
        let mut mixed = pres.clone();
        mixed.roster_entry_commitment = w.entry(&n, rng).commitment;
        same!(ctx, "SignalCredentialPresentation", pres, mixed, false);
        let mut mixed = pres.clone();
        mixed.roster_membership_proof = p2.roster_membership_proof.clone();
        same!(ctx, "SignalCredentialPresentation", pres, mixed, false);
        same!(ctx, "VerifiedSignalCredential", v, w.issuer.verify(pres.clone()).expect("verify"), true);
        same!(ctx, "VerifiedSignalCredential", v, w.issuer.verify(p2.clone()).expect("verify"), false);
        same!(ctx, "VerifiedCredential", vc, w.issuer.issuer.verify(&p2.presentation).expect("verify"), false);
        // users
        let user = |key: bool, cred: bool, rng: &mut ChaChaRng| {
            let k = if key { Some(elgamal::Keypair::generate(rng)) } else { None };
            let mut x = SignalUser::new(w.params, w.ip.clone(), k, &n).expect("user");
            if cred { x.user.credential = Some(u.user.credential.as_ref().unwrap().clone()); }
            x
        };
        let all: Vec<SignalUser> = (0..4).map(|i| user(i & 1 != 0, i & 2 != 0, rng)).collect();
        for i in 0..4 {
            for j in 0..4 {
                same!(ctx, "SignalUser", all[i], all[j], i == j);
                same!(ctx, "User", all[i].user, all[j].user, i == j);
            }
        }
        let other = SignalUser::new(w.params, w.ip.clone(), None, &other_number(rng, &n)).expect("user");
        same!(ctx, "SignalUser", all[0], other, false);
        let w2 = World::new(rng);
        same!(ctx, "User", all[0].user, w2.user(&n).user, false);
        same!(ctx, "User", all[0].user, World::with(w.params, rng).user(&n).user, false);
        same!(ctx, "User", all[0].user, World { params: w2.params, issuer: SignalIssuer::create(w.params, rng), ip: w.ip.clone() }.user(&n).user, false);
        same!(ctx, "User", all[0].user, w.user(&n).user, true);
    });

    // Arithmetic and conversions.
    ctx.par("arithmetic", ctx.n(4000), move |_, rng| {
        let (p, q) = (point(rng), point(rng));
        let (s, t) = (special(rng), special(rng));
        let show = || format!("{} {} {} {}", hex(&enc(&p)), hex(&enc(&q)), hex(s.as_bytes()), hex(t.as_bytes()));
        // commitments
        let c = pedersen::Commitment::to(&p, &t.into(), &q);
        let cp = p + t * q;
        ctx.evals("operations on commitments", 7);
        ctx.seen("commitment", &enc(&cp));
        ctx.check(RistrettoPoint::from(c) == cp && c.to_bytes() == enc(&cp).to_vec(), "commitment", &show);
        ctx.check(&c * &s == s * cp, "commitment-times-scalar", &show);
        ctx.check(&s * &c == s * cp, "scalar-times-commitment", &show);
        let mut x = p;
        x -= c;
        ctx.check(x == p - cp, "minus-commitment", &show);
        let mut x = cp;
        x -= c;
        ctx.check(x == RistrettoPoint::identity(), "minus-commitment", &show);
        let mut x = RistrettoPoint::identity();
        x -= c;
        ctx.check(x == -cp, "minus-commitment", &show);
        let zero = pedersen::Commitment::to(&RistrettoPoint::identity(), &Scalar::zero().into(), &q);
        let mut x = p;
        x -= zero;
        ctx.check(x == p && &zero * &s == RistrettoPoint::identity(), "minus-commitment", &show);
        // tags
        let mut seed = [0u8; 32];
        rng.fill_bytes(&mut seed);
        let again = || ChaChaRng::from_seed(seed);
        let r = amacs::Rerandomization::new(&mut again());
        // What it is, seen from what it does to the basepoint.
        let k = r.apply_to_tag(&amacs::Tag { nonce: G, mac: G }).nonce;
        let (a, b) = (special(rng), special(rng));
        let tag = amacs::Tag { nonce: form(a * G, rng), mac: form(b * G, rng) };
        let want = amacs::Tag { nonce: a * k, mac: b * k };
        ctx.evals("rerandomisations", 4);
        for (what, got) in vec![("tag times factor", &tag * &r), ("factor times tag", &r * &tag), ("applied", r.apply_to_tag(&tag)),
                                ("applied by a copy", r.clone().apply_to_tag(&tag))] {
            ctx.check(enc(&got.nonce) == enc(&want.nonce) && enc(&got.mac) == enc(&want.mac), "rerandomisation",
                      || format!("{}: of {} and {}", what, hex(a.as_bytes()), hex(b.as_bytes())));
        }
        let d = amacs::Rerandomization::default().apply_to_tag(&tag);
        ctx.check(enc(&d.nonce) == [0u8; 32] && enc(&d.mac) == [0u8; 32], "rerandomisation", || format!("by nothing: {}", show()));
        // messages
        ctx.evals("messages", 6);
        let v: Vec<Scalar> = (0..rng.next_u32() % 24).map(|_| special(rng)).collect();
        let m = amacs::Message::from(v.clone());
        ctx.check(m.0 == v && m.clone().0 == v && v.iter().enumerate().all(|(i, x)| m[i] == *x), "message", || "of scalars".to_string());
        ctx.check(Vec::<Scalar>::from(m) == v, "message", || "to scalars".to_string());
        ctx.check(amacs::Message::from(s).0 == vec![s], "message", &show);
        let text: String = match rng.next_u32() % 4 {
            0 => String::new(),
            1 => std::iter::repeat('\u{e9}').take(rng.next_u32() as usize % 40).collect(),
            _ => (0..rng.next_u32() % 300).map(|_| (rng.next_u32() % 128) as u8 as char).collect(),
        };
        let want = Scalar::hash_from_bytes::<sha2::Sha512>(text.as_bytes());
        ctx.check(amacs::Message::from(text.clone()).0 == vec![want], "message", || format!("of the text {:?}", text));
        let near = format!("{}{}", text, ['\0', ' ', '\n', 'a'][rng.next_u32() as usize % 4]);
        ctx.check(amacs::Message::from(near.clone()).0 != vec![want], "message", || format!("of {:?} and {:?}", text, near));
        // numbers
        let n = number(rng);
        let number = PhoneNumber::try_from_bytes(&n).expect("a valid number");
        ctx.seen("number", &n);
        ctx.evals("numbers", 3);
        ctx.check((0..32).all(|i| number[i] == encode(&n).as_bytes()[i]), "number-byte", || fmt_number(&n));
        ctx.check(amacs::Message::from(number.clone()).0 == vec![encode(&n)], "number-message", || fmt_number(&n));
        ctx.check((0..32).all(|i| PhoneNumber(s)[i] == s.as_bytes()[i]), "number-byte", &show);
        // nonces
        let count = rng.next_u32() as usize % 6;
        let list = Nonces::new(&mut again(), count);
        ctx.evals("nonces", 1 + count as u64);
        let bytes = |l: &Nonces| l.iter().map(|x| x.to_bytes()).collect::<Vec<_>>();
        let all = bytes(&list);
        ctx.check(all.len() == count && bytes(&list.clone()) == all && (0..count).all(|i| list[i].to_bytes() == all[i])
                  && (0..count).all(|i| all.iter().filter(|x| **x == all[i]).count() == 1), "nonces", || format!("{} from {}", count, hex(&seed)));
        ctx.check((0..count).all(|i| &list[i] * &p == scalar(&all[i]).expect("a canonical scalar") * p), "nonces", &show);
        let e = Ephemeral::from(s);
        let held: &Scalar = (&e).into();
        ctx.check(*held == s && e.to_bytes() == s.as_bytes().to_vec() && Ephemeral::default().to_bytes() == vec![0u8; 32], "nonce", &show);
        // parameters
        ctx.evals("parameters", 2);
        if enc(&p) != enc(&G) {
            let a = SystemParameters::from(p);
            let b = SystemParameters::from(enc(&p));
            let want = [enc(&G), enc(&p)].concat();
            ctx.check(a == b && a.to_bytes() == want && b.to_bytes() == want && enc(&a.g) == enc(&G), "parameters", &show);
        }
        // keys
        let sk = elgamal::SecretKey::from_bytes(s.as_bytes()).expect("a canonical scalar");
        let pk = elgamal::PublicKey::from(&sk);
        ctx.evals("keys", 2);
        ctx.check(RistrettoPoint::from(pk) == s * G && Scalar::from(sk.clone()) == s && sk.to_bytes() == s.as_bytes().to_vec()
                  && pk.to_bytes() == enc(&(s * G)).to_vec(), "key", &show);
        ctx.check(elgamal::SecretKey::default().to_bytes() == vec![0u8; 32] && amacs::SecretKey::default().to_bytes() == vec![0u8; 32], "key",
                  || "none".to_string());
    });
    if ctx.wants("encoded", 0) {
        for (j, kind) in kinds.iter().enumerate() {
            let (d, e) = (seen[2 * j].load(Ordering::Relaxed), seen[2 * j + 1].load(Ordering::Relaxed));
            ctx.evals(&format!("pairs of {}, equal", kind.name), e as u64);
            ctx.evals(&format!("pairs of {}, different", kind.name), d as u64);
            if ctx.wants("encoded", 1) && (d == 0 || e == 0) { ctx.harness_error(format!("{}: {} different pairs and {} equal ones", kind.name, d, e)); }
        }
    }
    ctx.finish("values are compared with themselves, with copies, with values of other sessions and with values which differ in one \
                point, scalar, bit or list element; points are used in several of the forms they have in memory; a pair of encodings, \
                point, scalar, number or commitment counts once")
}
