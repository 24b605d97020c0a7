//! C04: the algebraic MAC accepts exactly the authenticated message.
//! Oracle: the MAC equation computed here from the key's parts, and how each tag, message and key was made.
use vh::proto::*;
use vh::*;

fn msg(v: &[Scalar]) -> amacs::Message {
    amacs::Message::from(v.to_vec())
}

fn main() {
    let ctx = Ctx::new("C04");

    ctx.par("mac", ctx.n(3000), move |i, rng| {
        let n = if i < 12 { i as usize } else { rng.next_u32() as usize % 9 };
        let mut key = if rng.next_u32() % 2 == 0 {
            amacs::SecretKey::new(n, rng)
        } else {
            // keys with special parts
            amacs::SecretKey { x0: special(rng), xn: (0..n).map(|_| special(rng)).collect() }
        };
        if rng.next_u32() % 3 == 0 {
            key = reload_key(key, rng);
        }
        ctx.check(key.xn.len() == n, "key-length", || format!("asked for {} attributes, got {}", n, key.xn.len()));
        let m: Vec<Scalar> = (0..n).map(|_| if rng.next_u32() % 2 == 0 { special(rng) } else { Scalar::random(rng) }).collect();
        let what = |s: &str| format!("{}; key {}, message {:?}", s, hex(&key.to_bytes()), m.iter().map(|x| hex(x.as_bytes())).collect::<Vec<_>>());
        let exponent = |k: &amacs::SecretKey, m: &[Scalar]| k.xn.iter().zip(m).fold(k.x0, |a, (x, y)| a + x * y);
        let e = exponent(&key, &m);
        let tag = match key.mac(&msg(&m), rng) {
            Ok(t) => t,
            Err(x) => { ctx.violation("mac-error", what(&format!("{}", x))); return }
        };
        ctx.eval("MACs made");
        ctx.seen("tag", &tag.to_bytes());
        ctx.sample("tag", || what(&hex(&tag.to_bytes())));
        ctx.check(tag.nonce != RistrettoPoint::identity(), "identity-nonce", || what(""));
        ctx.check(tag.mac == e * tag.nonce, "mac-equation", || what(&hex(&tag.to_bytes())));
        let again = key.mac(&msg(&m), rng).expect("mac");
        ctx.check(again.nonce != tag.nonce, "nonce-repeated", || what(""));
        let accept = |k: &amacs::SecretKey, t: &amacs::Tag, s: &str| {
            ctx.eval("valid MACs verified");
            if let Err(x) = k.verify(t, &msg(&m)) {
                ctx.violation("valid-rejected", what(&format!("{}: {}: {}", s, x, hex(&t.to_bytes()))));
            }
        };
        accept(&key, &tag, "fresh");
        accept(&key, &again, "fresh");
        // rerandomised, any number of times, in every way there is
        let mut t = tag.clone();
        for _ in 0..1 + rng.next_u32() % 5 {
            let r = amacs::Rerandomization::new(rng);
            let (a, b, c) = (r.apply_to_tag(&t), &t * &r, &r * &t);
            ctx.check(a == b && b == c, "rerandomisations-differ", || what(""));
            ctx.check(a.nonce != t.nonce && a.nonce != tag.nonce && (e == Scalar::zero() || a.mac != t.mac),
                      "not-rerandomised", || what(&format!("{} gave {}", hex(&t.to_bytes()), hex(&a.to_bytes()))));
            t = a;
            if rng.next_u32() % 2 == 0 {
                t = amacs::Tag::from_bytes(&t.to_bytes()).expect("a tag reads back");
            }
            accept(&key, &t, "rerandomised");
        }
        let reject = |k: &amacs::SecretKey, t: &amacs::Tag, m2: &[Scalar], s: &str| {
            ctx.eval("invalid MACs verified");
            ctx.seen(s, &[&t.to_bytes()[..], &k.to_bytes()[..], &bincode::serialize(&m2.to_vec()).unwrap()[..]].concat());
            match ctx.panics(|| k.verify(t, &msg(m2))) {
                Ok(Err(_)) => {}
                Ok(Ok(())) => ctx.violation("invalid-accepted", what(&format!("{}: {} for {:?} under {}", s, hex(&t.to_bytes()), m2, hex(&k.to_bytes())))),
                Err(p) => ctx.violation("panic", what(&format!("{}: {}", s, p))),
            }
        };
        let id = RistrettoPoint::identity();
        // other messages of the right length: whether they have the same MAC is known
        let mut others: Vec<Vec<Scalar>> = Vec::new();
        for j in 0..n {
            for x in vec![m[j] + Scalar::one(), m[j] - Scalar::one(), -m[j], Scalar::zero(), Scalar::random(rng)] {
                let mut v = m.clone();
                v[j] = x;
                others.push(v);
            }
            for k in 0..j {
                let mut v = m.clone();
                v.swap(j, k);
                others.push(v);
                let d = Scalar::random(rng);
                let mut v = m.clone();
                v[j] += d;
                v[k] -= d;
                others.push(v);
            }
        }
        let mut v = m.clone();
        v.reverse();
        others.push(v);
        for v in &others {
            if exponent(&key, v) != e {
                reject(&key, &tag, v, "another message");
                reject(&key, &t, v, "another message, rerandomised");
            }
        }
        // messages of other lengths, also those which would make the same exponent
        let mut lengths: Vec<Vec<Scalar>> = Vec::new();
        for j in 0..n {
            let mut v = m.clone();
            v.remove(j);
            lengths.push(v);
        }
        lengths.push([&m[..], &[Scalar::zero()][..]].concat());
        lengths.push([&[Scalar::zero()][..], &m[..]].concat());
        lengths.push([&m[..], &[Scalar::random(rng)][..]].concat());
        lengths.push([&m[..], &m[..], &[Scalar::one()][..]].concat());
        if n > 0 {
            lengths.push(vec![]);
        }
        for v in &lengths {
            reject(&key, &tag, v, "a message of another length");
            ctx.eval("messages of the wrong length");
            match ctx.panics(|| key.mac(&msg(v), &mut rng.clone())) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => ctx.violation("wrong-length-mac", what(&format!("{:?}", v))),
                Err(p) => ctx.violation("panic", what(&p)),
            }
        }
        // a tag valid for the truncated message and key must not verify for the longer one, and so on
        for j in 0..n {
            let short = amacs::SecretKey { x0: key.x0, xn: key.xn[..j].to_vec() };
            let s = short.mac(&msg(&m[..j]), rng).expect("mac");
            if exponent(&short, &m[..j]) != e {
                reject(&key, &s, &m, "the MAC of a prefix");
            }
            reject(&short, &tag, &m, "a shorter key");
        }
        // other keys
        let mut keys = Vec::new();
        keys.push(amacs::SecretKey::new(n, rng));
        keys.push(amacs::SecretKey { x0: key.x0 + Scalar::one(), xn: key.xn.clone() });
        keys.push(amacs::SecretKey { x0: Scalar::zero(), xn: key.xn.clone() });
        keys.push(amacs::SecretKey { x0: -key.x0, xn: key.xn.clone() });
        for j in 0..n {
            let mut xn = key.xn.clone();
            xn[j] = Scalar::random(rng);
            keys.push(amacs::SecretKey { x0: key.x0, xn });
            let mut xn = key.xn.clone();
            let x0 = xn[j];
            xn[j] = key.x0;
            keys.push(amacs::SecretKey { x0, xn });
            for k in 0..j {
                let mut xn = key.xn.clone();
                xn.swap(j, k);
                keys.push(amacs::SecretKey { x0: key.x0, xn });
            }
        }
        for k in &keys {
            if exponent(k, &m) != e {
                reject(k, &tag, &m, "another key");
                reject(k, &t, &m, "another key, rerandomised");
            }
        }
        // altered tags
        let (p, q) = (tag.nonce, tag.mac);
        let d = Scalar::random(rng);
        let r = rpoint(rng);
        for (s, nonce, mac) in vec![
            ("nonce shifted", p + r, q), ("mac shifted", p, q + r), ("exchanged", q, p), ("nonce negated", -p, q), ("mac negated", p, -q),
            ("nonce scaled", d * p, q), ("mac scaled", p, d * q), ("mac is g", p, G), ("nonce is g", G, q), ("mac is identity", p, id),
            ("nonce of another tag", again.nonce, q), ("mac of another tag", p, again.mac), ("rerandomised nonce", t.nonce, q),
            ("rerandomised mac", p, t.mac), ("mac is nonce", p, p), ("both shifted", p + r, q + r), ("random", r, rpoint(rng)),
        ] {
            if mac != e * nonce {
                reject(&key, &amacs::Tag { nonce, mac }, &m, s);
            }
        }
        accept(&key, &tag, "after rejections");
        let b = tag.to_bytes();
        for _ in 0..40 {
            let mut x = b.clone();
            let bit = rng.next_u32() as usize % 512;
            x[bit / 8] ^= 1 << (bit % 8);
            if let Ok(x) = amacs::Tag::from_bytes(&x) {
                if x.mac != e * x.nonce { reject(&key, &x, &m, "one bit") }
            }
        }
        // tags on the identity, however they came about
        let mut m3 = m.clone();
        if n > 0 { m3[0] = special(rng); }
        for (nonce, mac) in vec![(id, id), (id, q), (id, r), (p - p, q - q), (Scalar::zero() * p, Scalar::zero() * q)] {
            let t = amacs::Tag { nonce, mac };
            reject(&key, &t, &m, "identity");
            reject(&key, &t, &m3, "identity");
            reject(&keys[0], &t, &m, "identity");
            let rr = amacs::Rerandomization::new(rng);
            reject(&key, &rr.apply_to_tag(&t), &m, "identity, rerandomised");
        }
        if let Ok(t) = amacs::Tag::from_bytes(&[0u8; 64]) {
            reject(&key, &t, &m, "identity from bytes");
        }
        // rejections leave nothing behind
        accept(&key, &tag, "after rejections");
        accept(&key, &t, "rerandomised, after rejections");
        accept(&key, &key.mac(&msg(&m), rng).expect("mac"), "fresh, after rejections");
    });

    // Messages of many attributes, every one of which counts.
    ctx.par("many", ctx.n(24), move |i, rng| {
        let n = match i % 8 { 0 => 15, 1 => 16, 2 => 17, 3 => 33, 4 => 64, 5 => 65, 6 => 12 + rng.next_u32() as usize % 40, _ => 257 };
        let mut key = amacs::SecretKey::new(n, rng);
        ctx.check(key.xn.len() == n && (0..n).all(|j| key.xn[j] != key.x0 && key.xn[..j].iter().all(|x| *x != key.xn[j])), "key-parts",
                  || format!("a key for {} attributes repeats itself", n));
        let h = rpoint(rng);
        let p = key.get_public_key(&h);
        ctx.eval("public keys for other basepoints");
        ctx.check(p.len() == n && p.Xn.len() == n && p.Xn.iter().zip(&key.xn).all(|(p, s)| *p == s * h), "public-key",
                  || format!("{} for {}", hex(&key.to_bytes()), hex(&enc(&h))));
        if rng.next_u32() % 2 == 0 {
            key = reload_key(key, rng);
        }
        let m: Vec<Scalar> = (0..n).map(|_| if rng.next_u32() % 4 == 0 { special(rng) } else { Scalar::random(rng) }).collect();
        let what = |s: &str| format!("{} attributes, {}; key {}, message {:?}", n, s, hex(&key.to_bytes()), m.iter().map(|x| hex(x.as_bytes())).collect::<Vec<_>>());
        let e = key.xn.iter().zip(&m).fold(key.x0, |a, (x, y)| a + x * y);
        let tag = match key.mac(&msg(&m), rng) { Ok(t) => t, Err(x) => { ctx.violation("mac-error", what(&format!("{}", x))); return } };
        ctx.eval("MACs of many attributes");
        ctx.seen("tag", &tag.to_bytes());
        ctx.check(tag.mac == e * tag.nonce, "mac-equation", || what(&hex(&tag.to_bytes())));
        ctx.check(key.verify(&tag, &msg(&m)).is_ok(), "valid-rejected", || what(&hex(&tag.to_bytes())));
        for j in 0..n {
            let mut v = m.clone();
            v[j] += if rng.next_u32() % 2 == 0 { Scalar::one() } else { Scalar::random(rng) };
            let mut out = vec![v];
            let k = rng.next_u32() as usize % n;
            if m[k] != m[j] { let mut v = m.clone(); v.swap(j, k); out.push(v); }
            for v in &out {
                ctx.eval("invalid MACs verified");
                if key.xn.iter().zip(v).fold(key.x0, |a, (x, y)| a + x * y) != e {
                    ctx.check(key.verify(&tag, &msg(v)).is_err(), "invalid-accepted", || what(&format!("another message, from {}: {}", j, hex(&tag.to_bytes()))));
                }
            }
            let mut other = key.clone();
            other.xn[j] += Scalar::one();
            if m[j] != Scalar::zero() {
                ctx.eval("invalid MACs verified");
                ctx.check(other.verify(&tag, &msg(&m)).is_err(), "invalid-accepted", || what(&format!("another key, from {}: {}", j, hex(&tag.to_bytes()))));
            }
        }
        for v in vec![m[..n - 1].to_vec(), m[1..].to_vec(), m[..n / 2].to_vec(), [&m[..], &m[..1]].concat(), [&m[..], &[Scalar::zero()]].concat(), [&m[..], &m[..]].concat()] {
            ctx.eval("messages of the wrong length");
            ctx.check(key.verify(&tag, &msg(&v)).is_err() && key.mac(&msg(&v), rng).is_err(), "wrong-length-accepted", || what(&format!("{} attributes", v.len())));
        }
        let h = rpoint(rng);
        let p = key.get_public_key(&h);
        ctx.check(p.Xn.len() == n && p.Xn.iter().zip(&key.xn).all(|(p, x)| *p == x * h), "public-key", || what("its public key"));
    });

    // A tag made under a generated key pair, whose public half must belong to it.
    ctx.par("keypair", ctx.n(400), move |_, rng| {
        let h = rpoint(rng);
        let k = amacs::Keypair::new(&h, rng);
        ctx.eval("key pairs");
        ctx.seen("keypair", &k.to_bytes());
        let ok = k.public.Xn.len() == k.secret.xn.len() && k.public.Xn.iter().zip(k.secret.xn.iter()).all(|(p, s)| *p == s * h);
        ctx.check(ok, "public-key", || hex(&k.to_bytes()));
        let n = rng.next_u32() as usize % 8;
        let s = amacs::SecretKey::new(n, rng);
        let p = s.get_public_key(&h);
        ctx.check(p.Xn.len() == n && p.Xn.iter().zip(s.xn.iter()).all(|(p, s)| *p == s * h), "public-key", || hex(&s.to_bytes()));
        // Public keys for other basepoints, and of keys which share parts.
        for _ in 0..3 {
            let h2 = match rng.next_u32() % 3 { 0 => h, 1 => G, _ => rpoint(rng) };
            let mut xn = s.xn.clone();
            if rng.next_u32() % 2 == 0 { xn.push(k.secret.xn[0]); xn.reverse(); }
            if rng.next_u32() % 3 == 0 && !xn.is_empty() { xn.pop(); }
            let s2 = amacs::SecretKey { x0: s.x0, xn };
            ctx.eval("public keys for other basepoints");
            let p = s2.get_public_key(&h2);
            ctx.check(p.Xn.len() == s2.xn.len() && p.Xn.iter().zip(s2.xn.iter()).all(|(p, s)| *p == s * h2), "public-key",
                      || format!("{} for {}", hex(&s2.to_bytes()), hex(&enc(&h2))));
        }
        let mut parts: Vec<[u8; 32]> = s.xn.iter().map(|x| x.to_bytes()).collect();
        parts.push(s.x0.to_bytes());
        parts.push([0u8; 32]);
        parts.push(k.secret.x0.to_bytes());
        parts.push(k.secret.xn[0].to_bytes());
        parts.sort();
        parts.dedup();
        ctx.check(parts.len() == n + 4, "key-parts-repeat", || format!("{} {}", hex(&s.to_bytes()), hex(&k.to_bytes())));
    });

    ctx.finish("a case is a key of 0 to 11 attributes, a message and its MAC, verified as is, rerandomised, and against \
                altered messages, keys and tags; distinct by the tag, message and key verified");
}

fn reload_key(k: amacs::SecretKey, rng: &mut ChaChaRng) -> amacs::SecretKey {
    vh::reload!(amacs::SecretKey, k, rng)
}
