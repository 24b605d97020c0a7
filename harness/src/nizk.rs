//! An implementation of the five zero-knowledge proofs which shares nothing with aeonflux::proofs but the curve and
//! the transcript library: it interprets the documented statements.

use crate::*;
use merlin::Transcript;

pub struct Spec {
    pub name: &'static str,
    pub publics: Vec<&'static str>,
    pub secrets: Vec<&'static str>,
    /// (left-hand side, [(base, secret)]), as indices.
    pub eqs: Vec<(usize, Vec<(usize, usize)>)>,
    pub coms: Vec<&'static [u8]>,
    pub context: &'static [u8],
}

fn spec(context: &'static str, name: &'static str, publics: &'static str, secrets: &'static str,
        eqs: &[(&'static str, &'static str)]) -> Spec {
    let publics: Vec<&'static str> = publics.split_whitespace().collect();
    let secrets: Vec<&'static str> = secrets.split_whitespace().collect();
    let p = |n: &str| publics.iter().position(|x| *x == n).expect("HARNESS: public");
    let s = |n: &str| secrets.iter().position(|x| *x == n).expect("HARNESS: secret");
    let mut out = Vec::new();
    let mut coms: Vec<&'static [u8]> = Vec::new();
    for (com, eq) in eqs {
        let mut sides = eq.split('=');
        let lhs = p(sides.next().unwrap().trim());
        let rhs = sides.next().unwrap().split('+').map(|t| {
            let mut w = t.split_whitespace();
            (p(w.next().unwrap()), s(w.next().unwrap()))
        }).collect();
        coms.push(com.as_bytes());
        out.push((lhs, rhs));
    }
    Spec { name, publics, secrets, eqs: out, coms, context: context.as_bytes() }
}

pub fn specs() -> Vec<Spec> {
    vec![
        spec("AEONFLUX ISSUANCE", "issuance_revealed", "P Q Cx0 B A X1", "x0 x1 x0_tilde m1x1", &[
            ("com Q", "Q = P x0 + P m1x1"), ("com Cx0", "Cx0 = B x0 + A x0_tilde"), ("com X1", "X1 = A x1")]),
        spec("VERIF ATTRIBUTES", "attributes_blinded", "B A D encrypted_attribute_0_0 encrypted_attribute_0_1",
             "d e0 m0 nonce", &[
            ("com D", "D = B d"), ("com encrypted_attribute_0_0", "encrypted_attribute_0_0 = B e0"),
            ("com encrypted_attribute_0_1", "encrypted_attribute_0_1 = B m0 + D e0")]),
        spec("VERIF BLIND ISSUANCE", "issuance_blinded",
             "B A X0 X1 D P T0_0 T0_1 EQ_commitment EQ_encryption encrypted_attribute_0_0 encrypted_attribute_0_1",
             "x0_tilde x0 x1 s b t0", &[
            ("com X0", "X0 = B x0 + A x0_tilde"), ("com X1", "X1 = A x1"), ("com P", "P = B b"),
            ("com T0_0", "T0_0 = X0 b"), ("com T0_1", "T0_1 = A t0"),
            ("com EQ_commitment", "EQ_commitment = B s + encrypted_attribute_0_0 t0"),
            ("com EQ_encryption", "EQ_encryption = D s + encrypted_attribute_0_1 t0")]),
        spec("AEONFLUX SHOW", "valid_credential", "B A X0 P V Cm0", "m0 z0 minus_zQ", &[
            ("com Cm0", "Cm0 = P m0 + A z0"), ("com V", "V = X0 z0 + A minus_zQ")]),
        spec("SIGNAL GROUP MEMBERSHIP", "committed_values_equal", "B A P Cm0 Cm1", "m0 z0 z1", &[
            ("com Cm0", "Cm0 = P m0 + A z0"), ("com Cm1", "Cm1 = A m0 + B z1")]),
    ]
}

pub const ISSUANCE_REVEALED: usize = 0;
pub const ATTRIBUTES_BLINDED: usize = 1;
pub const ISSUANCE_BLINDED: usize = 2;
pub const VALID_CREDENTIAL: usize = 3;
pub const COMMITTED_VALUES_EQUAL: usize = 4;

/// A proof: the challenge and the responses.
#[derive(Clone, Debug, PartialEq)]
pub struct RefProof {
    pub c: Scalar,
    pub r: Vec<Scalar>,
}

/// What a flawed verifier might leave out of the transcript, and an attacker then leaves out as well.
#[derive(Clone, Copy, Debug, Default)]
pub struct Weak {
    pub skip_domain: bool,
    pub skip_public: Option<usize>,
    pub skip_com: Option<usize>,
}

impl RefProof {
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for s in std::iter::once(&self.c).chain(self.r.iter()) {
            v.extend_from_slice(&32u64.to_le_bytes());
            v.extend_from_slice(s.as_bytes());
        }
        v
    }

    pub fn from_bytes(b: &[u8]) -> Option<RefProof> {
        if b.len() % 40 != 0 || b.is_empty() {
            return None;
        }
        let mut all = Vec::new();
        for ch in b.chunks(40) {
            if ch[..8] != 32u64.to_le_bytes()[..] {
                return None;
            }
            let mut t = [0u8; 32];
            t.copy_from_slice(&ch[8..]);
            all.push(Scalar::from_canonical_bytes(t)?);
        }
        Some(RefProof { c: all[0], r: all[1..].to_vec() })
    }
}

impl Spec {
    pub fn challenge(&self, t: &mut Transcript, publics: &[RistrettoPoint], coms: &[RistrettoPoint], w: Weak) -> Scalar {
        if !w.skip_domain {
            t.commit_bytes(b"domain-sep", self.name.as_bytes());
        }
        for (i, p) in publics.iter().enumerate() {
            if w.skip_public != Some(i) {
                t.commit_bytes(self.publics[i].as_bytes(), p.compress().as_bytes());
            }
        }
        for (i, c) in coms.iter().enumerate() {
            if w.skip_com != Some(i) {
                t.commit_bytes(self.coms[i], c.compress().as_bytes());
            }
        }
        let mut b = [0u8; 64];
        t.challenge_bytes(b"chal", &mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }

    pub fn commitments(&self, publics: &[RistrettoPoint], nonces: &[Scalar]) -> Vec<RistrettoPoint> {
        self.eqs.iter().map(|(_, rhs)| {
            let mut k = RistrettoPoint::identity();
            for (b, s) in rhs {
                k += nonces[*s] * publics[*b];
            }
            k
        }).collect()
    }

    pub fn prove(&self, context: &'static [u8], publics: &[RistrettoPoint], secrets: &[Scalar], nonces: &[Scalar],
                 w: Weak) -> RefProof {
        let coms = self.commitments(publics, nonces);
        let mut t = Transcript::new(context);
        let c = self.challenge(&mut t, publics, &coms, w);
        RefProof { c, r: secrets.iter().zip(nonces).map(|(s, k)| c * s + k).collect() }
    }

    pub fn verify(&self, context: &'static [u8], publics: &[RistrettoPoint], p: &RefProof) -> bool {
        if p.r.len() != self.secrets.len() {
            return false;
        }
        let coms: Vec<RistrettoPoint> = self.eqs.iter().map(|(lhs, rhs)| {
            let mut k = -(p.c * publics[*lhs]);
            for (b, s) in rhs {
                k += p.r[*s] * publics[*b];
            }
            k
        }).collect();
        let mut t = Transcript::new(context);
        self.challenge(&mut t, publics, &coms, Weak::default()) == p.c
    }

    /// Does the response for this secret enter any equation?
    pub fn enters(&self, secret: usize) -> bool {
        self.eqs.iter().any(|(_, rhs)| rhs.iter().any(|(_, s)| *s == secret))
    }

    /// Discrete logarithms of public values for which every equation holds for `secrets`, apart from `false_eq`,
    /// which is off by a random amount.  `fixed` gives the logarithms of chosen values which are not left-hand sides.
    pub fn statement<R: rand::RngCore + rand::CryptoRng>(&self, rng: &mut R, secrets: &[Scalar], fixed: &[(usize, Scalar)],
                                                         false_eq: Option<(usize, Scalar)>) -> Vec<Scalar> {
        let mut d: Vec<Scalar> = self.publics.iter().map(|_| Scalar::random(rng)).collect();
        for (i, x) in fixed {
            d[*i] = *x;
        }
        for (e, (lhs, rhs)) in self.eqs.iter().enumerate() {
            let mut x = Scalar::zero();
            for (b, s) in rhs {
                x += d[*b] * secrets[*s];
            }
            if let Some((f, delta)) = false_eq {
                if f == e {
                    x += delta;
                }
            }
            d[*lhs] = x;
        }
        d
    }
}

pub fn points(d: &[Scalar]) -> Vec<RistrettoPoint> {
    d.iter().map(|x| x * &curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE).collect()
}

macro_rules! adaptor {
    ($kind:expr, $context:expr, $publics:expr, $secrets:expr, $which:ident, [$($p:ident),*], [$($s:ident),*]) => {{
        let mut t = Transcript::new($context);
        let mut p = $publics.iter();
        let mut s = $secrets.iter();
        let publics = aeonflux::proofs::$which::Publics { $($p: p.next().expect("HARNESS: publics")),* };
        let secrets = aeonflux::proofs::$which::Secrets { $($s: s.next().expect("HARNESS: secrets")),* };
        let proof = aeonflux::proofs::$which::Proof::create(&mut t, publics, secrets);
        bincode::serialize(&proof).expect("proof serialises")
    }}
}

macro_rules! verifier {
    ($context:expr, $publics:expr, $bytes:expr, $which:ident, [$($p:ident),*]) => {{
        let mut t = Transcript::new($context);
        let mut p = $publics.iter();
        let publics = aeonflux::proofs::$which::Publics { $($p: p.next().expect("HARNESS: publics")),* };
        match bincode::deserialize::<aeonflux::proofs::$which::Proof>($bytes) {
            Ok(proof) => Some(proof.verify(&mut t, publics).is_ok()),
            Err(_) => None,
        }
    }}
}

/// Make a proof with the library.
pub fn lib_prove(kind: usize, context: &'static [u8], publics: &[RistrettoPoint], secrets: &[Scalar]) -> Vec<u8> {
    match kind {
        0 => adaptor!(kind, context, publics, secrets, issuance_revealed, [P, Q, Cx0, B, A, X1], [x0, x1, x0_tilde, m1x1]),
        1 => adaptor!(kind, context, publics, secrets, attributes_blinded,
                      [B, A, D, encrypted_attribute_0_0, encrypted_attribute_0_1], [d, e0, m0, nonce]),
        2 => adaptor!(kind, context, publics, secrets, issuance_blinded,
                      [B, A, X0, X1, D, P, T0_0, T0_1, EQ_commitment, EQ_encryption, encrypted_attribute_0_0,
                       encrypted_attribute_0_1], [x0_tilde, x0, x1, s, b, t0]),
        3 => adaptor!(kind, context, publics, secrets, valid_credential, [B, A, X0, P, V, Cm0], [m0, z0, minus_zQ]),
        4 => adaptor!(kind, context, publics, secrets, committed_values_equal, [B, A, P, Cm0, Cm1], [m0, z0, z1]),
        _ => panic!("HARNESS: kind"),
    }
}

/// Verify a proof with the library; `None` if it does not even decode.
pub fn lib_verify(kind: usize, context: &'static [u8], publics: &[RistrettoPoint], bytes: &[u8]) -> Option<bool> {
    match kind {
        0 => verifier!(context, publics, bytes, issuance_revealed, [P, Q, Cx0, B, A, X1]),
        1 => verifier!(context, publics, bytes, attributes_blinded,
                       [B, A, D, encrypted_attribute_0_0, encrypted_attribute_0_1]),
        2 => verifier!(context, publics, bytes, issuance_blinded,
                       [B, A, X0, X1, D, P, T0_0, T0_1, EQ_commitment, EQ_encryption, encrypted_attribute_0_0,
                        encrypted_attribute_0_1]),
        3 => verifier!(context, publics, bytes, valid_credential, [B, A, X0, P, V, Cm0]),
        4 => verifier!(context, publics, bytes, committed_values_equal, [B, A, P, Cm0, Cm1]),
        _ => panic!("HARNESS: kind"),
    }
}

/// Solve `m x = v` over the scalars; any solution (free variables zero), or none.
pub fn solve(m: &[Vec<Scalar>], v: &[Scalar]) -> Option<Vec<Scalar>> {
    let rows = m.len();
    let cols = m[0].len();
    let mut a: Vec<Vec<Scalar>> = m.iter().zip(v).map(|(r, x)| {
        let mut r = r.clone();
        r.push(*x);
        r
    }).collect();
    let zero = Scalar::zero();
    let mut pivots = Vec::new();
    let mut row = 0;
    for col in 0..cols {
        let p = match (row..rows).find(|i| a[*i][col] != zero) {
            Some(p) => p,
            None => continue,
        };
        a.swap(row, p);
        let inv = a[row][col].invert();
        for x in a[row].iter_mut() {
            *x = *x * inv;
        }
        for i in 0..rows {
            if i != row && a[i][col] != zero {
                let f = a[i][col];
                for j in 0..=cols {
                    let y = a[row][j];
                    a[i][j] = a[i][j] - f * y;
                }
            }
        }
        pivots.push((row, col));
        row += 1;
        if row == rows {
            break;
        }
    }
    for i in row..rows {
        if a[i][cols] != zero {
            return None;
        }
    }
    let mut x = vec![zero; cols];
    for (r, c) in pivots {
        x[c] = a[r][cols];
    }
    Some(x)
}
