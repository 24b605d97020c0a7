//! C06: each proof verifies exactly for the statement it was made for.
//! Oracle: the statements are set up in terms of known discrete logarithms, so that for every case it is known whether
//! the library must accept.
use std::sync::Mutex;
use vh::nizk::*;
use vh::proto::*;
use vh::*;

fn secrets(s: &Spec, rng: &mut ChaChaRng) -> Vec<Scalar> {
    let mut v: Vec<Scalar> = s.secrets.iter().map(|_| special(rng)).collect();
    if rng.next_u32() % 8 == 0 {
        let x = v[0];
        v.iter_mut().for_each(|y| *y = x);
    }
    v
}

fn nonzero(rng: &mut ChaChaRng) -> Scalar {
    loop {
        let x = special(rng);
        if x != Scalar::zero() {
            return x;
        }
    }
}

fn show(s: &Spec, d: &[Scalar], p: &[u8]) -> String {
    format!("{}: publics (discrete logs) {:?}, proof {}", s.name,
            s.publics.iter().zip(d).map(|(n, x)| format!("{}={}", n, hex(x.as_bytes()))).collect::<Vec<_>>(), hex(p))
}

fn main() {
    let ctx = Ctx::new("C06");
    let all: &'static Vec<Spec> = Box::leak(Box::new(specs()));

    // Which bits of the challenge have been one, and which zero, per proof.
    let bits: &'static Vec<Mutex<([u8; 32], [u8; 32], u64)>> = Box::leak(Box::new((0..all.len()).map(|_| Mutex::new(([0u8; 32], [0u8; 32], 0))).collect()));

    // True statements, any secrets, any public values: proofs verify.
    ctx.par("true", ctx.n(1500), move |i, rng| {
        let k = i as usize % 5;
        let s = &all[k];
        let x = secrets(s, rng);
        let mut fixed = Vec::new();
        for j in 0..s.publics.len() {
            // Public values which are not determined by the equations can be anything at all.
            if rng.next_u32() % 4 == 0 {
                fixed.push((j, special(rng)));
            }
        }
        let d = s.statement(rng, &x, &fixed, None);
        let pts = points(&d);
        let p = lib_prove(k, s.context, &pts, &x);
        ctx.eval("true statements");
        ctx.seen("true", &p);
        ctx.sample("true statement", || show(s, &d, &p));
        ctx.check(lib_verify(k, s.context, &pts, &p) == Some(true), "true-rejected", || show(s, &d, &p));
        if let Some(q) = RefProof::from_bytes(&p) {
            let mut b = bits[k].lock().unwrap();
            for i in 0..32 {
                b.0[i] |= q.c.as_bytes()[i];
                b.1[i] |= !q.c.as_bytes()[i];
            }
            b.2 += 1;
        }
        ctx.check(p.len() == 40 * (1 + s.secrets.len()), "proof-size", || show(s, &d, &p));
        // Verification has no memory.
        ctx.check(lib_verify(k, s.context, &pts, &p) == Some(true), "true-rejected-again", || show(s, &d, &p));
        // The proof is bound to its context.
        for other in &[&b"AEONFLUX SHOW"[..], b"AEONFLUX ISSUANCE", b"SIGNAL GROUP MEMBERSHIP", b"", b"VERIF OTHER"] {
            if *other != s.context {
                ctx.eval("other contexts");
                ctx.check(lib_verify(k, other, &pts, &p) == Some(false), "context-not-bound", || show(s, &d, &p));
            }
        }
    });

    for (s, b) in all.iter().zip(bits.iter()) {
        let b = b.lock().unwrap();
        if b.2 < 100 { continue }
        // A challenge of few bits is guessed.
        let n: u32 = (0..32).map(|i| (b.0[i] & b.1[i]).count_ones()).sum();
        ctx.eval("sets of challenges");
        ctx.check(n >= 120, "few-challenges", || format!("{}: only {} bits of the challenges of {} proofs vary", s.name, n, b.2));
    }

    // One equation false, proof made by the library or by a prover who knows what a flawed verifier leaves out.
    ctx.par("false", ctx.n(600), move |i, rng| {
        let k = i as usize % 5;
        let s = &all[k];
        for e in 0..s.eqs.len() {
            let x: Vec<Scalar> = s.secrets.iter().map(|_| Scalar::random(rng)).collect();
            let delta = nonzero(rng);
            let d = s.statement(rng, &x, &[], Some((e, delta)));
            let pts = points(&d);
            let p = lib_prove(k, s.context, &pts, &x);
            ctx.eval("one equation false");
            ctx.seen("false", &p);
            ctx.check(lib_verify(k, s.context, &pts, &p) != Some(true), "false-accepted",
                      || format!("equation {} is false; {}", e, show(s, &d, &p)));
            let nonces: Vec<Scalar> = x.iter().map(|_| Scalar::random(rng)).collect();
            for w in weaknesses(s) {
                let p = s.prove(s.context, &pts, &x, &nonces, w).to_bytes();
                ctx.eval("forgeries leaving something out of the transcript");
                ctx.check(lib_verify(k, s.context, &pts, &p) != Some(true), "weak-transcript",
                          || format!("equation {} is false, {:?}; {}", e, w, show(s, &d, &p)));
            }
        }
    });

    // A public value chosen after the challenge.
    ctx.par("late", ctx.n(400), move |i, rng| {
        let k = i as usize % 5;
        let s = &all[k];
        let x: Vec<Scalar> = s.secrets.iter().map(|_| Scalar::random(rng)).collect();
        let d = s.statement(rng, &x, &[], None);
        let pts = points(&d);
        for late in 0..s.publics.len() {
            let w = Weak { skip_public: Some(late), ..Weak::default() };
            let kappa: Vec<Scalar> = s.eqs.iter().map(|_| Scalar::random(rng)).collect();
            let mut t = merlin::Transcript::new(s.context);
            let c = s.challenge(&mut t, &pts, &points(&kappa), w);
            // sum r base - c lhs = kappa, for a fresh value of the late public
            let mut d2 = d.clone();
            d2[late] = Scalar::random(rng);
            let m: Vec<Vec<Scalar>> = s.eqs.iter().map(|(_, rhs)| {
                let mut row = vec![Scalar::zero(); s.secrets.len()];
                for (b, y) in rhs {
                    row[*y] += d2[*b];
                }
                row
            }).collect();
            let v: Vec<Scalar> = s.eqs.iter().zip(&kappa).map(|((lhs, _), kp)| kp + c * d2[*lhs]).collect();
            let (r, d2) = match solve(&m, &v) {
                Some(r) => (r, d2),
                None => {
                    // honest responses instead, and the late value computed from them
                    let nonces: Vec<Scalar> = x.iter().map(|_| Scalar::random(rng)).collect();
                    let coms: Vec<Scalar> = s.eqs.iter().enumerate().map(|(e, (lhs, rhs))| {
                        if *lhs == late { kappa[e] } else { rhs.iter().fold(Scalar::zero(), |a, (b, y)| a + d[*b] * nonces[*y]) }
                    }).collect();
                    let mut t = merlin::Transcript::new(s.context);
                    let c2 = s.challenge(&mut t, &pts, &points(&coms), w);
                    let r: Vec<Scalar> = x.iter().zip(&nonces).map(|(a, b)| c2 * a + b).collect();
                    let mut d2 = d.clone();
                    for (e, (lhs, rhs)) in s.eqs.iter().enumerate() {
                        if *lhs == late {
                            let sum = rhs.iter().fold(Scalar::zero(), |a, (b, y)| a + d[*b] * r[*y]);
                            d2[late] = (sum - kappa[e]) * c2.invert();
                        }
                    }
                    let p = RefProof { c: c2, r }.to_bytes();
                    ctx.eval("public values chosen after the challenge");
                    ctx.check(lib_verify(k, s.context, &points(&d2), &p) != Some(true), "late-public",
                              || format!("{} chosen after the challenge; {}", s.publics[late], show(s, &d2, &p)));
                    continue;
                }
            };
            let p = RefProof { c, r }.to_bytes();
            ctx.eval("public values chosen after the challenge");
            ctx.seen("late", &p);
            ctx.check(lib_verify(k, s.context, &points(&d2), &p) != Some(true), "late-public",
                      || format!("{} chosen after the challenge; {}", s.publics[late], show(s, &d2, &p)));
        }
    });

    // Proofs are bound to every public value and every scalar.
    ctx.par("altered", ctx.n(500), move |i, rng| {
        let k = i as usize % 5;
        let s = &all[k];
        let x: Vec<Scalar> = s.secrets.iter().map(|_| Scalar::random(rng)).collect();
        let d = s.statement(rng, &x, &[], None);
        let pts = points(&d);
        let bytes = lib_prove(k, s.context, &pts, &x);
        let proof = match RefProof::from_bytes(&bytes) {
            Some(p) => p,
            None => { ctx.violation("proof-format", show(s, &d, &bytes)); return }
        };
        let rejects = |what: &str, pts: &[RistrettoPoint], p: &[u8]| {
            ctx.eval("altered publics or scalars");
            ctx.check(lib_verify(k, s.context, pts, p) != Some(true), "altered-accepted",
                      || format!("{}; {}", what, show(s, &d, p)));
        };
        for j in 0..s.publics.len() {
            let mut alts = vec![points(&[Scalar::random(rng)])[0], RistrettoPoint::identity(), -pts[j], pts[j] + pts[j],
                                pts[j] + G, pts[(j + 1) % pts.len()]];
            alts.retain(|p| *p != pts[j]);
            for a in alts {
                let mut q = pts.clone();
                q[j] = a;
                rejects(&format!("{} altered", s.publics[j]), &q, &bytes);
            }
            // two values exchanged
            let o = rng.next_u32() as usize % pts.len();
            if pts[o] != pts[j] {
                let mut q = pts.clone();
                q.swap(o, j);
                rejects(&format!("{} and {} exchanged", s.publics[j], s.publics[o]), &q, &bytes);
            }
        }
        for _ in 0..2 {
            let mut p = proof.clone();
            p.c = p.c + nonzero(rng);
            rejects("challenge altered", &pts, &p.to_bytes());
        }
        for special_c in &[Scalar::zero(), Scalar::one(), -proof.c] {
            let mut p = proof.clone();
            p.c = *special_c;
            rejects("challenge altered", &pts, &p.to_bytes());
        }
        for j in 0..s.secrets.len() {
            if !s.enters(j) {
                continue;
            }
            for a in vec![proof.r[j] + nonzero(rng), Scalar::zero(), -proof.r[j], Scalar::random(rng)] {
                let mut p = proof.clone();
                if a == p.r[j] { continue }
                p.r[j] = a;
                rejects(&format!("response {} altered", s.secrets[j]), &pts, &p.to_bytes());
            }
            let o = rng.next_u32() as usize % s.secrets.len();
            if s.enters(o) && o != j {
                let mut p = proof.clone();
                p.r.swap(o, j);
                rejects("responses exchanged", &pts, &p.to_bytes());
                // shifts which cancel out in a sum of responses
                let delta = nonzero(rng);
                let mut p = proof.clone();
                p.r[j] += delta;
                p.r[o] -= delta;
                let d0 = s.eqs.iter().all(|(_, rhs)| {
                    let sum = rhs.iter().fold(Scalar::zero(), |a, (b, y)| {
                        a + if *y == j { d[*b] * delta } else if *y == o { -(d[*b] * delta) } else { Scalar::zero() }
                    });
                    sum == Scalar::zero()
                });
                if !d0 {
                    rejects("responses shifted", &pts, &p.to_bytes());
                }
            }
        }
        // rejections leave nothing behind
        ctx.check(lib_verify(k, s.context, &pts, &bytes) == Some(true), "honest-rejected-later",
                  || format!("after rejections; {}", show(s, &d, &bytes)));
        ctx.seen("altered", &bytes);
    });

    // Public values altered, and the responses with them, such that the recomputed commitments stay what they were.
    ctx.par("adjusted", ctx.n(500), move |i, rng| {
        let k = i as usize % 5;
        let s = &all[k];
        let x: Vec<Scalar> = s.secrets.iter().map(|_| Scalar::random(rng)).collect();
        let d = s.statement(rng, &x, &[], None);
        let pts = points(&d);
        let bytes = lib_prove(k, s.context, &pts, &x);
        let proof = match RefProof::from_bytes(&bytes) { Some(p) => p, None => return };
        let com = |d: &[Scalar], r: &[Scalar]| -> Vec<Scalar> {
            s.eqs.iter().map(|(lhs, rhs)| {
                rhs.iter().fold(-(proof.c * d[*lhs]), |a, (b, y)| a + d[*b] * r[*y])
            }).collect()
        };
        let kappa = com(&d, &proof.r);
        let lhss: Vec<usize> = s.eqs.iter().map(|(l, _)| *l).collect();
        let attack = |what: String, d2: &[Scalar], r2: &[Scalar]| {
            if d2 == &d[..] { return }
            if com(d2, r2) != kappa { panic!("HARNESS: not an adjustment: {}", what) }
            let p = RefProof { c: proof.c, r: r2.to_vec() }.to_bytes();
            ctx.eval("adjusted proofs");
            ctx.seen("adjusted", &p);
            ctx.sample("adjusted proof", || format!("{}; {}", what, show(s, d2, &p)));
            ctx.check(lib_verify(k, s.context, &points(d2), &p) != Some(true), "adjusted-accepted",
                      || format!("{}; {}", what, show(s, d2, &p)));
        };
        // one public value, and responses solved for
        for j in 0..s.publics.len() {
            let mut d2 = d.clone();
            d2[j] += nonzero(rng);
            let m: Vec<Vec<Scalar>> = s.eqs.iter().map(|(_, rhs)| {
                let mut row = vec![Scalar::zero(); s.secrets.len()];
                for (b, y) in rhs { row[*y] += d2[*b]; }
                row
            }).collect();
            let v: Vec<Scalar> = s.eqs.iter().zip(&kappa).map(|((lhs, _), kp)| kp + proof.c * d2[*lhs]).collect();
            if let Some(r2) = solve(&m, &v) {
                attack(format!("{} and responses", s.publics[j]), &d2, &r2);
            }
            // or the left-hand sides computed afresh, in the order of the equations
            let mut d2 = d.clone();
            let mut r2 = proof.r.clone();
            if !lhss.contains(&j) { d2[j] += nonzero(rng); } else {
                // shift one response of that equation
                let (_, rhs) = &s.eqs[lhss.iter().position(|l| *l == j).unwrap()];
                let y = rhs[rng.next_u32() as usize % rhs.len()].1;
                r2[y] += nonzero(rng);
            }
            for (e, (lhs, rhs)) in s.eqs.iter().enumerate() {
                let sum = rhs.iter().fold(Scalar::zero(), |a, (b, y)| a + d2[*b] * r2[*y]);
                d2[*lhs] = (sum - kappa[e]) * proof.c.invert();
            }
            attack(format!("{} and left-hand sides", s.publics[j]), &d2, &r2);
        }
    });

    // A proof of one type is not one of another, even for statements which share everything they can.
    ctx.par("confused", ctx.n(200), move |_, rng| {
        let x: Vec<Scalar> = (0..3).map(|_| Scalar::random(rng)).collect();
        let (v, c) = (&all[VALID_CREDENTIAL], &all[COMMITTED_VALUES_EQUAL]);
        let dv = v.statement(rng, &x, &[], None);
        let at = |s: &Spec, d: &[Scalar], n: &str| d[s.publics.iter().position(|p| *p == n).unwrap()];
        let fixed: Vec<(usize, Scalar)> = ["B", "A", "P"].iter().enumerate().map(|(i, n)| (i, at(v, &dv, n))).collect();
        let dc = c.statement(rng, &x, &fixed, None);
        for context in &[v.context, c.context] {
            let pv = lib_prove(VALID_CREDENTIAL, context, &points(&dv), &x);
            let pc = lib_prove(COMMITTED_VALUES_EQUAL, context, &points(&dc), &x);
            ctx.evals("proofs taken for another type", 2);
            ctx.seen("confused", &pv);
            ctx.check(lib_verify(COMMITTED_VALUES_EQUAL, context, &points(&dc), &pv) != Some(true), "type-confusion",
                      || show(v, &dv, &pv));
            ctx.check(lib_verify(VALID_CREDENTIAL, context, &points(&dv), &pc) != Some(true), "type-confusion",
                      || show(c, &dc, &pc));
        }
    });

    ctx.finish("cases are statements of the five proofs set up from known discrete logarithms; distinct by the bytes of \
                the proof put to the verifier");
}

fn weaknesses(s: &Spec) -> Vec<Weak> {
    let mut v = vec![Weak::default(), Weak { skip_domain: true, ..Weak::default() }];
    for i in 0..s.publics.len() {
        v.push(Weak { skip_public: Some(i), ..Weak::default() });
    }
    for i in 0..s.eqs.len() {
        v.push(Weak { skip_com: Some(i), ..Weak::default() });
    }
    v
}
