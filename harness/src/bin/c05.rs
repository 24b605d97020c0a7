//! C05: a user keeps a credential exactly if it was correctly issued to them.
//! Oracle: how each issuance was made; the state of the user before.
use vh::nizk::*;
use vh::proto::*;
use vh::*;

const CX0: usize = 0;
const NONCE: usize = 32;
const MAC: usize = 64;
const ATTR: usize = 96;
const PROOF: usize = 128;

struct U<'a> {
    ctx: &'static Ctx,
    w: &'a World,
    number: Vec<u8>,
    /// Users in different states: without a credential, with one, with one and a key.
    users: Vec<SignalUser>,
    /// The state of the last user.
    held: Option<Vec<u8>>,
}

impl<'a> U<'a> {
    fn reject(&mut self, what: &str, bytes: &[u8]) {
        self.reject_as(what, bytes, "bad-issuance-accepted", "bad-issuance-accepted");
    }

    /// `sig` and `low`: what accepting this is called, for a user with a number and for one without.
    fn reject_as(&mut self, what: &str, bytes: &[u8], sig: &str, low: &str) {
        self.ctx.eval("wrong issuances");
        let i = match SignalCredentialIssuance::from_bytes(bytes) {
            Ok(i) => i,
            Err(_) => return,
        };
        self.ctx.eval("of these, decodable");
        self.ctx.seen(what, bytes);
        self.ctx.sample(what, || hex(bytes));
        self.reject_value(what, &i, sig, low);
    }

    fn reject_value(&mut self, what: &str, i: &SignalCredentialIssuance, sig: &str, low: &str) {
        let ctx = self.ctx;
        let detail = |s: &str| format!("{}: {}: {}", what, s, ctx.panics(|| hex(&i.to_bytes())).unwrap_or_default());
        let mut renew = false;
        for (k, u) in self.users.iter_mut().enumerate() {
            let before = u.to_bytes();
            match ctx.panics(|| u.obtain_finish(Some(i)).is_ok()) {
                Ok(false) => { ctx.check(u.to_bytes() == before, "error-changed-state", || detail(&format!("user {}", k))); }
                Ok(true) => { report(ctx, sig, detail(&format!("user {}", k))); renew = true; }
                Err(p) => ctx.violation("panic", detail(&p)),
            }
            let before = u.user.to_bytes();
            match ctx.panics(|| u.user.obtain_finish(Some(i)).is_ok()) {
                Ok(false) => { ctx.check(u.user.to_bytes() == before, "error-changed-state", || detail(&format!("aeonflux user {}", k))); }
                Ok(true) => { report(ctx, low, detail(&format!("aeonflux user {}", k))); renew = true; }
                Err(p) => ctx.violation("panic", detail(&p)),
            }
            if renew {
                let bytes = match &self.held {
                    Some(b) if k == 3 => b.clone(),
                    _ => before_all(&self.number, self.w, k, ctx),
                };
                *u = SignalUser::from_bytes(&bytes).expect("HARNESS: user");
                renew = false;
            }
        }
    }

    fn accept(&mut self, what: &str, bytes: &[u8]) {
        let ctx = self.ctx;
        let i = match SignalCredentialIssuance::from_bytes(bytes) {
            Ok(i) => i,
            Err(e) => { ctx.violation("honest-rejected", format!("{}: {}: {}", what, e, hex(bytes))); return }
        };
        ctx.seen(what, bytes);
        ctx.sample(what, || hex(bytes));
        for (k, u) in self.users.iter().enumerate() {
            for low in &[false, true] {
                ctx.eval("correct issuances");
                let before = u.to_bytes();
                let mut v = SignalUser::from_bytes(&before).expect("user");
                let r = if *low { v.user.obtain_finish(Some(&i)) } else { v.obtain_finish(Some(&i)) };
                match r {
                    Ok(()) => {
                        // exactly the credential is new
                        let mut want = before.clone();
                        want[192..288].copy_from_slice(&bytes[32..128]);
                        ctx.check(v.to_bytes() == want, "state-after", || format!("{}: user {}: {} became {}", what, k, hex(&before), hex(&v.to_bytes())));
                    }
                    Err(e) => ctx.violation("honest-rejected", format!("{}: user {}: {}: {}", what, k, e, hex(bytes))),
                }
            }
        }
    }
}

/// These two are in KNOWN_FINDINGS.txt: the proof of issuance does not show which attribute was authenticated.
fn report(ctx: &'static Ctx, sig: &str, detail: String) {
    if sig == "attribute-replaced-aeonflux" || sig == "mac-on-other-attribute" {
        ctx.finding(sig, detail);
    } else {
        ctx.violation(sig, detail);
    }
}

/// The k-th kind of user for `number`; the bytes of one.
fn before_all(number: &[u8], w: &World, k: usize, ctx: &'static Ctx) -> Vec<u8> {
    let mut rng = ctx.rng("users", k as u64);
    make_user(number, w, k, &mut rng).to_bytes()
}

fn make_user(number: &[u8], w: &World, k: usize, rng: &mut ChaChaRng) -> SignalUser {
    let key = if k == 2 { Some(elgamal::Keypair::generate(rng)) } else { None };
    let mut u = SignalUser::new(w.params, w.ip.clone(), key, number).expect("user");
    if k >= 1 {
        let i = w.issuer.issue(number, rng).expect("issue");
        u.obtain_finish(Some(&i)).expect("obtain_finish");
    }
    u
}

fn put(b: &[u8], at: usize, x: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v[at..at + x.len()].copy_from_slice(x);
    v
}

fn bytes_of(cx0: &RistrettoPoint, nonce: &RistrettoPoint, mac: &RistrettoPoint, m: &Scalar, proof: &[u8]) -> Vec<u8> {
    [&enc(cx0)[..], &enc(nonce)[..], &enc(mac)[..], m.as_bytes(), proof].concat()
}

fn main() {
    let ctx = Ctx::new("C05");
    let all: &'static Vec<Spec> = Box::leak(Box::new(specs()));
    let is = &all[ISSUANCE_REVEALED];

    ctx.par("issuances", ctx.n(20), move |case, rng| {
        let w = World::new(rng);
        let (params, key) = (w.params, w.issuer.issuer.keypair.secret.clone());
        let n = number(rng);
        let n2 = other_number(rng, &n);
        let (m, m2) = (encode(&n), encode(&n2));
        let users = (0..4).map(|k| make_user(&n, &w, k, rng)).collect();
        let mut u = U { ctx, w: &w, number: n.clone(), users, held: None };
        let a = w.issuer.issue(&n, rng).expect("issue").to_bytes();
        let b = w.issuer.issue(&n, rng).expect("issue").to_bytes();
        let c = w.issuer.issue(&n2, rng).expect("issue").to_bytes();
        u.accept("honest", &a);
        u.accept("honest", &b);
        // From here on the last user has the credential of `a`: what is altered below is a replay with another proof.
        {
            let i = SignalCredentialIssuance::from_bytes(&a).expect("issuance");
            ctx.check(u.users[3].obtain_finish(Some(&i)).is_ok(), "honest-rejected", || hex(&a));
            u.held = Some(u.users[3].to_bytes());
            u.accept("a second time", &a);
            u.accept("after another", &b);
        }
        // nothing at all
        for x in u.users.iter_mut() {
            ctx.eval("missing issuances");
            let before = x.to_bytes();
            let r = ctx.panics(|| x.obtain_finish(None).is_ok());
            ctx.check(r == Ok(false) && x.to_bytes() == before, "missing-accepted", || format!("{:?}", r));
            let r = ctx.panics(|| x.user.obtain_finish(None).is_ok());
            ctx.check(r == Ok(false) && x.to_bytes() == before, "missing-accepted", || format!("{:?}", r));
        }
        // for another number: the user with a number must refuse, the one without has no number to compare with
        {
            let i = SignalCredentialIssuance::from_bytes(&c).expect("issuance");
            for x in u.users.iter_mut() {
                ctx.eval("issuances for another number");
                let before = x.to_bytes();
                let r = ctx.panics(|| x.obtain_finish(Some(&i)).is_ok());
                ctx.check(r == Ok(false), "other-number-accepted", || hex(&c));
                ctx.check(x.to_bytes() == before, "error-changed-state", || hex(&c));
            }
        }
        // every bit
        for bit in 0..a.len() * 8 {
            let mut x = a.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            if bit / 8 >= ATTR && bit / 8 < PROOF {
                u.reject_as("one bit of the attribute", &x, "bad-issuance-accepted", "attribute-replaced-aeonflux");
            } else {
                u.reject("one bit", &x);
            }
        }
        // rejections leave nothing behind
        u.accept("after rejections", &a);
        // points
        let id = RistrettoPoint::identity();
        let pts: Vec<RistrettoPoint> = [&a, &b, &c].iter().flat_map(|x| vec![dec(&x[..32]), dec(&x[32..64]), dec(&x[64..96])])
            .map(|x| x.unwrap())
            .chain(vec![id, params.g, params.h, w.ip.Xn[0], rpoint(rng), -dec(&a[CX0..NONCE]).unwrap(), -dec(&a[NONCE..MAC]).unwrap(),
                        -dec(&a[MAC..ATTR]).unwrap(), dec(&a[CX0..NONCE]).unwrap() + params.h, dec(&a[MAC..ATTR]).unwrap() + params.g])
            .collect();
        for at in &[CX0, NONCE, MAC] {
            for p in &pts {
                if enc(p)[..] != a[*at..*at + 32] {
                    u.reject("one point", &put(&a, *at, &enc(p)));
                }
            }
        }
        // attributes
        for x in vec![m + Scalar::one(), -m, Scalar::zero(), Scalar::random(rng), m2] {
            u.reject_as("attribute", &put(&a, ATTR, x.as_bytes()), "bad-issuance-accepted", "attribute-replaced-aeonflux");
        }
        // scalars of the proof
        for i in 0..5 {
            let at = PROOF + 40 * i + 8;
            let s = scalar(&a[at..at + 32]).unwrap();
            for t in vec![s + Scalar::one(), -s, Scalar::zero(), Scalar::random(rng)] {
                u.reject("one proof scalar", &put(&a, at, t.as_bytes()));
            }
            for j in 0..5 {
                if i != j {
                    u.reject("proof scalars moved", &put(&a, at, &a[PROOF + 40 * j + 8..PROOF + 40 * j + 40]));
                }
                u.reject("proof scalar of another", &put(&a, at, &b[PROOF + 40 * j + 8..PROOF + 40 * j + 40]));
            }
        }
        u.accept("after rejections", &a);
        // x0 and m1x1 enter one equation together: exchanged, or shifted against each other
        let pr = RefProof::from_bytes(&a[PROOF..]).expect("proof");
        let d = Scalar::random(rng);
        let mut q = pr.clone();
        q.r[0] += d;
        q.r[3] -= d;
        u.reject("shifted responses", &put(&a, PROOF, &q.to_bytes()));
        // combinations of two issuances
        let i2 = World::with(params, rng);
        let i3 = World::new(rng);
        let other = i2.issuer.issue(&n, rng).expect("issue").to_bytes();
        let alien = i3.issuer.issue(&n, rng).expect("issue").to_bytes();
        for (what, o) in &[("combined with another for the same number", &b), ("combined with another number", &c),
                           ("combined with another issuer", &other), ("combined with other parameters", &alien)] {
            let parts = [(CX0, NONCE), (NONCE, MAC), (MAC, ATTR), (ATTR, PROOF), (PROOF, 328)];
            for mask in 1..31u32 {
                let mut y = a.clone();
                for (i, r) in parts.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        y[r.0..r.1].copy_from_slice(&o[r.0..r.1]);
                    }
                }
                if y == a || y == **o {
                    continue;
                }
                // everything but the attribute from one
                if y[..ATTR] == a[..ATTR] && y[PROOF..] == a[PROOF..] || y[..ATTR] == o[..ATTR] && y[PROOF..] == o[PROOF..] {
                    if **o != b && y[PROOF..] == a[PROOF..] {
                        u.reject_as(what, &y, "bad-issuance-accepted", "attribute-replaced-aeonflux");
                    } else if **o == c {
                        // the credential of the other number, with our number written on it
                        u.reject_as(what, &y, "mac-on-other-attribute", "attribute-replaced-aeonflux");
                    } else {
                        u.reject(what, &y);
                    }
                } else {
                    u.reject(what, &y);
                }
            }
        }
        u.reject("another issuer", &other);
        u.reject("other parameters", &alien);
        // issuers which share parts of the key or of the parameters
        let mk = |x0: Scalar, x1: Scalar, params: SystemParameters| {
            let secret = amacs::SecretKey { x0, xn: vec![x1] };
            let public = secret.get_public_key(&params.h);
            SignalIssuer::new(params, amacs::Keypair { public, secret })
        };
        for (what, i) in vec![
            ("another x1", mk(key.x0, Scalar::random(rng), params)), ("keys exchanged", mk(key.xn[0], key.x0, params)),
            ("another h", mk(key.x0, key.xn[0], i3.params)),
            ("another g", mk(key.x0, key.xn[0], SystemParameters { g: rpoint(rng), h: params.h })),
            ("g and h exchanged", mk(key.x0, key.xn[0], SystemParameters { g: params.h, h: params.g })),
            ("negated", mk(-key.x0, -key.xn[0], params)),
        ] {
            u.reject(what, &i.issue(&n, rng).expect("issue").to_bytes());
        }
        // an issuer whose published key does not belong to its secret key
        let bad = SignalIssuer::new(params, amacs::Keypair { public: w.ip.clone(), secret: amacs::SecretKey { x0: key.x0, xn: vec![Scalar::random(rng)] } });
        u.reject("secret of another public key", &bad.issue(&n, rng).expect("issue").to_bytes());

        // Proofs made by hand
        let (x0, x1) = (key.x0, key.xn[0]);
        let t = Scalar::random(rng);
        let p = t * G;
        let xt = Scalar::random(rng);
        let cx0 = x0 * params.g + xt * params.h;
        let good = (x0 + x1 * m) * p;
        let stmt = |p: &RistrettoPoint, q: &RistrettoPoint, c: &RistrettoPoint, x: &RistrettoPoint| [*p, *q, *c, params.g, params.h, *x];
        let by_lib = |p: &RistrettoPoint, q: &RistrettoPoint, s: &[Scalar; 4]| {
            bytes_of(&cx0, p, q, &m, &lib_prove(ISSUANCE_REVEALED, is.context, &stmt(p, q, &cx0, &w.ip.Xn[0]), s))
        };
        let x = by_lib(&p, &good, &[x0, x1, xt, m * x1]);
        u.accept("made by hand", &x);
        // wrong secrets or tags
        let r = rpoint(rng);
        for (what, q, s) in vec![
            ("wrong mac", r, [x0, x1, xt, m * x1]), ("no x1", x0 * p, [x0, x1, xt, m * x1]), ("shifted mac", good + p, [x0, x1, xt, m * x1]),
            ("wrong x1", (x0 + d * m) * p, [x0, x1, xt, m * x1]), ("wrong x0", (d + x1 * m) * p, [x0, x1, xt, m * x1]),
            ("wrong x0 in the proof", (d + x1 * m) * p, [d, x1, xt, m * x1]), ("wrong x1 in the proof", (x0 + d * m) * p, [x0, d, xt, m * d]),
            ("wrong x0_tilde", good, [x0, x1, d, m * x1]), ("identity mac", id, [x0, x1, xt, m * x1]),
        ] {
            u.reject(what, &by_lib(&p, &q, &s));
        }
        // a MAC on another attribute, with the right number written on it
        let wrong = by_lib(&p, &((x0 + x1 * m2) * p), &[x0, x1, xt, m2 * x1]);
        u.reject_as("MAC on another attribute", &wrong, "mac-on-other-attribute", "mac-on-other-attribute");
        // on the identity
        for s in vec![[x0, x1, xt, m * x1], [Scalar::random(rng), x1, xt, d], [x0, x1, xt, Scalar::zero()]] {
            let c = s[0] * params.g + s[2] * params.h;
            for q in &[id, r] {
                let pr = lib_prove(ISSUANCE_REVEALED, is.context, &stmt(&id, q, &c, &w.ip.Xn[0]), &s);
                u.reject("on the identity", &bytes_of(&c, &id, q, &m, &pr));
            }
        }
        // Someone who knows no key.
        let f: Vec<Scalar> = (0..4).map(|_| Scalar::random(rng)).collect();
        let ks: Vec<Scalar> = (0..4).map(|_| Scalar::random(rng)).collect();
        let (fp, fc) = (p, f[0] * params.g + f[2] * params.h);
        let fq = (f[0] + f[3]) * fp;
        let mut weaks = vec![Weak::default(), Weak { skip_domain: true, ..Weak::default() }];
        for i in 0..6 { weaks.push(Weak { skip_public: Some(i), ..Weak::default() }); }
        for i in 0..3 { weaks.push(Weak { skip_com: Some(i), ..Weak::default() }); }
        for wk in weaks {
            let pr = is.prove(is.context, &stmt(&fp, &fq, &fc, &w.ip.Xn[0]), &f, &ks, wk);
            u.reject("forged", &bytes_of(&fc, &fp, &fq, &m, &pr.to_bytes()));
            let pr = is.prove(is.context, &stmt(&fp, &fq, &fc, &(f[1] * params.h)), &f, &ks, wk);
            u.reject("forged", &bytes_of(&fc, &fp, &fq, &m, &pr.to_bytes()));
            if wk.skip_domain || wk.skip_public.is_some() || wk.skip_com.is_some() {
                let pr = is.prove(is.context, &stmt(&p, &good, &cx0, &w.ip.Xn[0]), &[x0, x1, xt, m * x1], &ks, wk);
                u.reject("weak transcript", &bytes_of(&cx0, &p, &good, &m, &pr.to_bytes()));
            }
        }
        for context in &[&b"AEONFLUX SHOW"[..], b"SIGNAL ISSUANCE", b""] {
            let pr = lib_prove(ISSUANCE_REVEALED, context, &stmt(&p, &good, &cx0, &w.ip.Xn[0]), &[x0, x1, xt, m * x1]);
            u.reject("another context", &bytes_of(&cx0, &p, &good, &m, &pr));
        }
        u.reject("all zero", &vec![0u8; 328]);
        // shapes no decoder gives
        let mut i = SignalCredentialIssuance::from_bytes(&a).expect("issuance");
        for v in vec![vec![], vec![m, m], vec![m, Scalar::zero()], vec![Scalar::zero(), m], vec![m2, m]] {
            ctx.eval("wrong numbers of attributes");
            i.credential.attributes = v;
            u.reject_value("wrong number of attributes", &i, "bad-issuance-accepted", "bad-issuance-accepted");
        }
        // Issuers with keys for other numbers of attributes, and users who believe them.
        let i = SignalCredentialIssuance::from_bytes(&a).expect("issuance");
        for xn in vec![vec![], vec![w.ip.Xn[0], w.ip.Xn[0]], vec![w.ip.Xn[0], rpoint(rng)]] {
            let mut v = SignalUser::new(params, amacs::PublicKey { Xn: xn }, None, &n).expect("user");
            ctx.eval("issuer parameters of the wrong length");
            match ctx.panics(|| v.obtain_finish(Some(&i)).is_ok()) {
                Ok(ok) => { ctx.check(!ok && v.user.credential.is_none(), "bad-issuance-accepted", || "issuer parameters of the wrong length".to_string()); }
                Err(e) => ctx.violation("panic", e),
            }
        }
        u.accept("after rejections", &a);
        u.accept("after rejections", &b);
        // After all this the users with a credential can still use it.
        for x in u.users.iter().skip(1) {
            let e = w.entry(&n, rng);
            let ok = x.show(rng, &e).ok().and_then(|p| w.issuer.verify(p).ok()).map(|v| w.issuer.verify_roster_membership(&v).is_ok());
            ctx.eval("credentials kept");
            ctx.check(ok == Some(true), "credential-lost", || format!("case {}", case));
        }
    });

    ctx.finish("a case is an issuance given to users in four states (without a credential, with one, with a key, with the credential of the unaltered issuance); distinct by its bytes, counted if it decodes");
}
