//! C20: ElGamal encryption decrypts exactly and is additively homomorphic.
use vh::proto::*;
use vh::*;

/// A key whose secret the tester knows, made in one of the ways there are.
fn key(rng: &mut ChaChaRng) -> (elgamal::Keypair, Scalar) {
    if rng.next_u32() % 3 == 0 {
        let k = elgamal::Keypair::generate(rng);
        let s = scalar(&k.secret.to_bytes()).expect("a canonical secret");
        return (k, s);
    }
    let s = special(rng);
    let secret = elgamal::SecretKey::from_bytes(s.as_bytes()).expect("reading a canonical scalar");
    let public = elgamal::PublicKey::from(&secret);
    (elgamal::Keypair { secret, public }, s)
}

fn point(rng: &mut ChaChaRng) -> RistrettoPoint {
    match rng.next_u32() % 6 {
        0 => RistrettoPoint::identity(),
        1 => G,
        2 => -G,
        _ => rpoint(rng),
    }
}

/// Message points the interface can be given: multiples of the basepoint.
fn message(rng: &mut ChaChaRng) -> (elgamal::Message, RistrettoPoint) {
    let m = special(rng);
    (elgamal::Message::from(&m), m * G)
}

fn main() {
    let ctx = Ctx::new("C20");

    ctx.par("decrypt", ctx.n(6000), move |_, rng| {
        let (k, x) = key(rng);
        let (m, mp) = message(rng);
        let r = special(rng);
        let e = Ephemeral::from(r);
        ctx.check(RistrettoPoint::from(k.public) == x * G, "public-key", || format!("of {}", hex(x.as_bytes())));
        let c = if rng.next_u32() % 2 == 0 { k.encrypt(&m, &e) } else { k.public.encrypt(&m, &e) };
        ctx.eval("decryptions with the matching key");
        ctx.seen("key", x.as_bytes());
        ctx.seen("nonce", r.as_bytes());
        ctx.seen("ciphertext", &enc(&c.encryption));
        ctx.sample("key, message, nonce", || format!("{} {} {}", hex(x.as_bytes()), hex(&enc(&mp)), hex(r.as_bytes())));
        let d = k.secret.decrypt(&c);
        ctx.check(d == mp && enc(&d) == enc(&mp), "decrypt", || format!("key {} message {} nonce {}: {}", hex(x.as_bytes()),
            hex(&enc(&mp)), hex(r.as_bytes()), hex(&enc(&d))));
        ctx.check(c.commitment == r * G && c.encryption == mp + x * r * G, "encryption-value", || format!("key {} message {} nonce {}",
            hex(x.as_bytes()), hex(&enc(&mp)), hex(r.as_bytes())));
        // Through their encodings.
        let k2 = elgamal::Keypair::from_bytes(&k.to_bytes()).expect("reading a key pair");
        let d = k2.secret.decrypt(&k2.encrypt(&m, &e));
        ctx.check(d == mp && k2 == k, "decrypt", || format!("after reading the key {} back", hex(x.as_bytes())));
        let p2 = elgamal::PublicKey::from_bytes(&k.public.to_bytes()).expect("reading a public key");
        ctx.check(p2.encrypt(&m, &e) == c, "encryption-value", || format!("after reading the public key of {} back", hex(x.as_bytes())));
        ctx.check(Scalar::from(k2.secret.clone()) == x, "secret-value", || hex(x.as_bytes()));

        // Another key.
        for _ in 0..3 {
            let y = match rng.next_u32() % 5 {
                0 => -x,
                1 => x + Scalar::one(),
                2 => x - Scalar::one(),
                3 => { // one bit changed
                    let mut b = *x.as_bytes();
                    let i = rng.next_u32() as usize % 252;
                    b[i / 8] ^= 1 << (i % 8);
                    Scalar::from_bytes_mod_order(b)
                }
                _ => Scalar::random(rng),
            };
            if x == y || r == Scalar::zero() { continue; }
            let sk = elgamal::SecretKey::from_bytes(y.as_bytes()).expect("reading a canonical scalar");
            ctx.eval("decryptions with another key");
            let d = sk.decrypt(&c);
            ctx.check(d != mp && d == mp + (x - y) * r * G, "wrong-key-decrypts",
                      || format!("{} instead of {}, nonce {}", hex(y.as_bytes()), hex(x.as_bytes()), hex(r.as_bytes())));
        }
        // An altered encryption.
        let delta = point(rng);
        if delta != RistrettoPoint::identity() {
            ctx.evals("altered encryptions", 3);
            let d = k.secret.decrypt(&elgamal::Encryption { commitment: c.commitment, encryption: c.encryption + delta });
            ctx.check(d == mp + delta && d != mp, "altered-decrypts", || "second half".to_string());
            let d = k.secret.decrypt(&elgamal::Encryption { commitment: c.commitment + delta, encryption: c.encryption });
            ctx.check(d == mp - x * delta && (d != mp || x == Scalar::zero()), "altered-decrypts", || "first half".to_string());
            if c.commitment != c.encryption && x != -Scalar::one() {
                let d = k.secret.decrypt(&elgamal::Encryption { commitment: c.encryption, encryption: c.commitment });
                ctx.check(d != mp, "altered-decrypts", || "halves swapped".to_string());
            }
        }
        // Arbitrary pairs of points.
        let e2 = elgamal::Encryption { commitment: point(rng), encryption: point(rng) };
        ctx.eval("arbitrary encryptions");
        ctx.check(k.secret.decrypt(&e2) == e2.encryption - x * e2.commitment, "decrypt", || "an arbitrary pair of points".to_string());
    });

    ctx.par("add", ctx.n(1500), move |_, rng| {
        let (k, x) = key(rng);
        let count = 2 + rng.next_u32() as usize % 6;
        let mut sum: Option<elgamal::Encryption> = None;
        let mut expected = RistrettoPoint::identity();
        let mut nonces = Scalar::zero();
        let mut total = Scalar::zero();
        for i in 0..count {
            let mut m = special(rng);
            if i > 0 && rng.next_u32() % 6 == 0 { m = -total; } // messages that cancel out
            let mut r = special(rng);
            if i > 0 && rng.next_u32() % 6 == 0 { r = -nonces; } // and nonces
            let c = k.encrypt(&elgamal::Message::from(&m), &Ephemeral::from(r));
            let repeat = rng.next_u32() % 5 == 0;
            let mut all = vec![c];
            if repeat { all.push(c); } // the same encryption twice
            for c in all {
                sum = Some(match sum {
                    None => c,
                    Some(s) => {
                        let t = &s + &c;
                        ctx.check(t == &c + &s, "add", || "not commutative".to_string());
                        t
                    }
                });
                expected += m * G;
                total += m;
                nonces += r;
            }
            ctx.eval("sums");
            ctx.seen("sum", &enc(&sum.unwrap().encryption));
            let s = sum.unwrap();
            let d = k.secret.decrypt(&s);
            ctx.check(d == expected, "add", || format!("key {}: the sum of {} decrypts to {} and not to {}", hex(x.as_bytes()), i + 1,
                hex(&enc(&d)), hex(&enc(&expected))));
            let direct = k.encrypt(&elgamal::Message::from(&total), &Ephemeral::from(nonces));
            ctx.check(direct == s && direct.commitment.compress() == s.commitment.compress(), "add",
                      || "the sum is not the encryption of the sum of the messages with the sum of the nonces".to_string());
        }
    });

    // Numbers.
    ctx.par("number", ctx.n(3000), move |_, rng| {
        let (k, x) = key(rng);
        let n = number(rng);
        let p = if rng.next_u32() % 2 == 0 { PhoneNumber::try_from_bytes(&n) } else { PhoneNumber::try_from_string(&fmt_number(&n)) }
            .expect("a valid number");
        let r = special(rng);
        let c = p.encrypt(&k, &Ephemeral::from(r));
        ctx.eval("phone numbers encrypted");
        ctx.seen("number", &n);
        let d = k.secret.decrypt(&c.0);
        ctx.check(d == encode(&n) * G && c.0 == k.encrypt(&elgamal::Message::from(&encode(&n)), &Ephemeral::from(r)), "number",
                  || format!("{} under {} with {}", fmt_number(&n), hex(x.as_bytes()), hex(r.as_bytes())));
        let v: Vec<elgamal::Encryption> = c.clone().into();
        ctx.check(v.len() == 1 && v[0] == c.0, "number", || "as a list of attributes".to_string());
        let o = other_number(rng, &n);
        let c2 = PhoneNumber::try_from_bytes(&o).expect("a valid number").encrypt(&k, &Ephemeral::from(r));
        ctx.check(k.secret.decrypt(&c2.0) != d && c2.0 != c.0, "number", || format!("{} and {} have the same encryption", fmt_number(&n), fmt_number(&o)));
    });

    // Every way to multiply by a nonce, and keys and nonces are as random as their source.
    ctx.par("operators", ctx.n(1000), move |_, rng| {
        let r = special(rng);
        let p = point(rng);
        let e = || Ephemeral::from(r);
        let table = &curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
        let want = r * p;
        let all = [&e() * &p, &p * &e(), p * &e(), e() * &p, &e() * p, &p * e(), e() * p, p * e()];
        ctx.evals("products", 12);
        ctx.seen("product", &enc(&want));
        for (i, x) in all.iter().enumerate() {
            ctx.check(*x == want, "product", || format!("{}. way: {} times {}", i, hex(r.as_bytes()), hex(&enc(&p))));
        }
        ctx.check(&e() * table == r * G && table * &e() == r * G, "product", || format!("{} times the base", hex(r.as_bytes())));
        ctx.check((-e()).to_bytes() == (-r).as_bytes().to_vec() && e().to_bytes() == r.as_bytes().to_vec(), "negation", || hex(r.as_bytes()));
        let s: Scalar = *<&Scalar>::from(&e());
        ctx.check(s == r, "nonce-value", || hex(r.as_bytes()));
        let a = elgamal::Keypair::generate(rng);
        let b = elgamal::Keypair::generate(rng);
        ctx.check(a != b && a.secret.to_bytes() != b.secret.to_bytes() && RistrettoPoint::from(a.public) != RistrettoPoint::from(b.public)
                  && a.secret.to_bytes() != vec![0u8; 32], "keys-repeat", || "two generated keys".to_string());
        ctx.check(RistrettoPoint::from(a.public) == scalar(&a.secret.to_bytes()).unwrap() * G, "public-key", || "of a generated key".to_string());
    });
    ctx.finish("keys, messages and nonces are random or special scalars (0, 1, -1, small, large); each result is compared with the \
                point computed from the scalars; a ciphertext, key, nonce or number counts once")
}
