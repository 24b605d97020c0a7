//! Protocol helpers.

use crate::*;
pub use aeonflux::amacs;
pub use aeonflux::credential::{Credential, CredentialIssuance, CredentialPresentation, CredentialRequest, VerifiedCredential};
pub use aeonflux::elgamal;
pub use aeonflux::errors::CredentialError;
pub use aeonflux::issuer::{Issuer, IssuerParameters};
pub use aeonflux::nonces::{Ephemeral, Nonces};
pub use aeonflux::parameters::SystemParameters;
pub use aeonflux::pedersen;
pub use aeonflux::user::User;
pub use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
pub use signal_credential::issuer::SignalIssuer;
pub use signal_credential::phone_number::{CommittedPhoneNumber, PhoneNumber, RosterEntryCommitment};
pub use signal_credential::user::SignalUser;

pub const MAX_DIGITS: usize = 26;

pub fn digits<R: RngCore>(rng: &mut R, len: usize) -> Vec<u8> {
    (0..len).map(|_| (rng.next_u32() % 10) as u8).collect()
}

/// A phone number of 1 to 26 digits: every length, all-zero and all-nine numbers, leading and trailing zeros.
pub fn number<R: RngCore>(rng: &mut R) -> Vec<u8> {
    let len = match rng.next_u32() % 8 {
        0 => 1,
        1 => MAX_DIGITS,
        2 => 11 + (rng.next_u32() % 3) as usize,
        _ => 1 + (rng.next_u32() as usize % MAX_DIGITS),
    };
    let mut v = digits(rng, len);
    match rng.next_u32() % 10 {
        0 => v.iter_mut().for_each(|x| *x = 0),
        1 => v.iter_mut().for_each(|x| *x = 9),
        2 => v[0] = 0,
        3 => v[len - 1] = 0,
        _ => {}
    }
    v
}

/// A number which differs from `n`, and only a little.
pub fn near<R: RngCore>(rng: &mut R, n: &[u8]) -> Vec<u8> {
    let mut v = n.to_vec();
    match rng.next_u32() % 6 {
        0 if v.len() < MAX_DIGITS => v.insert(0, 0),
        1 if v.len() < MAX_DIGITS => v.push(0),
        2 if v.len() > 1 => { v.pop(); }
        3 if v.len() > 1 => { v.remove(0); }
        4 if v.len() > 1 && v[0] != v[v.len() - 1] => { let l = v.len() - 1; v.swap(0, l); }
        _ => {
            let i = rng.next_u32() as usize % v.len();
            v[i] = (v[i] + 1 + (rng.next_u32() % 9) as u8) % 10;
        }
    }
    v
}

pub fn other_number<R: RngCore>(rng: &mut R, n: &[u8]) -> Vec<u8> {
    loop {
        let v = if rng.next_u32() % 2 == 0 { near(rng, n) } else { number(rng) };
        if v[..] != n[..] {
            return v;
        }
    }
}

/// The documented encoding of a number, computed here.
pub fn encode(n: &[u8]) -> Scalar {
    let mut b = [0u8; 32];
    b[0] = 15;
    b[1] = 15;
    b[2..2 + n.len()].copy_from_slice(n);
    b[n.len() + 2] = 15;
    b[n.len() + 3] = 15;
    b[n.len() + 4] = n.len() as u8;
    Scalar::from_bytes_mod_order(b)
}

pub fn enc(p: &RistrettoPoint) -> [u8; 32] {
    p.compress().to_bytes()
}

pub fn dec(b: &[u8]) -> Option<RistrettoPoint> {
    if b.len() != 32 {
        return None;
    }
    CompressedRistretto::from_slice(b).decompress()
}

pub fn scalar(b: &[u8]) -> Option<Scalar> {
    let mut t = [0u8; 32];
    if b.len() != 32 {
        return None;
    }
    t.copy_from_slice(b);
    Scalar::from_canonical_bytes(t)
}

pub fn rpoint<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> RistrettoPoint {
    RistrettoPoint::random(rng)
}

/// A scalar which is often a special one.
pub fn special<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> Scalar {
    match rng.next_u32() % 14 {
        0 => Scalar::zero(),
        1 => Scalar::one(),
        2 => -Scalar::one(),
        3 => Scalar::from(rng.next_u32() as u64),
        4 => -Scalar::from(rng.next_u32() as u64),
        5 => {
            let mut b = [0xffu8; 32];
            b[31] = 0x0f;
            Scalar::from_bytes_mod_order(b)
        }
        6 | 7 | 8 => patterned(rng),
        _ => Scalar::random(rng),
    }
}

/// A scalar, not zero, with a run of bytes which are all zero, all one or equal, somewhere; or with a single bit.
pub fn patterned<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> Scalar {
    let mut b = Scalar::random(rng).to_bytes();
    let fill = [0u8, 0, 0, 0xff, 0x80, 1][rng.next_u32() as usize % 6];
    let n = match rng.next_u32() % 3 { 0 => 1 + rng.next_u32() as usize % 4, 1 => 8 * (1 + rng.next_u32() as usize % 3), _ => 1 + rng.next_u32() as usize % 31 };
    match rng.next_u32() % 5 {
        0 | 1 => for x in &mut b[32 - n..] { *x = fill },
        2 => for x in &mut b[..n] { *x = fill },
        3 => { let at = rng.next_u32() as usize % (33 - n); for x in &mut b[at..at + n] { *x = fill } }
        _ => { b = [0u8; 32]; let bit = rng.next_u32() as usize % 252; b[bit / 8] = 1 << (bit % 8); }
    }
    let s = Scalar::from_bytes_mod_order(b);
    let s = if rng.next_u32() % 4 == 0 { -s } else { s };
    if s == Scalar::zero() { Scalar::one() } else { s }
}

/// Points, with their logarithms, whose encodings have bytes which are seldom what they are: zeros, or like others, at the
/// ends or in a row.  Not the identity or the basepoint.
pub fn odd_points() -> &'static Vec<(Scalar, RistrettoPoint)> {
    static ONCE: std::sync::Once = std::sync::Once::new();
    static mut POINTS: Option<Vec<(Scalar, RistrettoPoint)>> = None;
    ONCE.call_once(|| {
        let hs: Vec<_> = (0..8u64).map(|t| std::thread::spawn(move || {
            let mut out = Vec::new();
            let first = Scalar::from(2 + (t << 14));
            let mut p = first * G;
            for i in 0..1u64 << 14 {
                let b = enc(&p);
                let run = |v: u8| b.windows(2).any(|w| w == [v, v]);
                let odd = b[31] == 0 || b[31] == 0x7f || b[30] == 0 || b[0] == 0 || b[0] == 0xfe || b[1] == 0
                    || run(0) || run(0xff) || b[0] == b[31] || b[..2] == b[2..4] || b[15] == b[16] && b[16] == b[17];
                // the commonest of these are many
                let rare = b[31] == 0 && b[30] < 16 || b[0] == 0 && b[1] < 16 || b.windows(3).any(|w| w[0] == w[1] && w[1] == w[2]);
                if rare || odd && i % 64 == 0 { out.push((first + Scalar::from(i), p)); }
                p += G;
            }
            out
        })).collect();
        let v = hs.into_iter().flat_map(|h| h.join().expect("HARNESS: points")).collect();
        unsafe { POINTS = Some(v); }
    });
    unsafe { POINTS.as_ref().unwrap() }
}

pub fn odd_point<R: RngCore>(rng: &mut R) -> (Scalar, RistrettoPoint) {
    let v = odd_points();
    v[rng.next_u32() as usize % v.len()]
}

/// System parameters for which `log_g h` is known to the tester.
pub fn known_params<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> (SystemParameters, Scalar) {
    let a = Scalar::random(rng);
    (SystemParameters { g: G, h: a * G }, a)
}

pub struct World {
    pub params: SystemParameters,
    pub issuer: SignalIssuer,
    pub ip: IssuerParameters,
}

impl World {
    pub fn new<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> World {
        let params = SystemParameters::hunt_and_peck(rng);
        World::with(params, rng)
    }

    pub fn with<R: RngCore + rand_core::CryptoRng>(params: SystemParameters, rng: &mut R) -> World {
        let issuer = SignalIssuer::create(params, rng);
        let ip = issuer.get_issuer_parameters();
        World { params, issuer, ip }
    }

    /// A world whose issuer has a certain key.
    pub fn keyed(params: SystemParameters, x0: Scalar, x1: Scalar) -> World {
        let secret = amacs::SecretKey { x0, xn: vec![x1] };
        let public = secret.get_public_key(&params.h);
        let issuer = SignalIssuer::new(params, amacs::Keypair { public, secret });
        let ip = issuer.get_issuer_parameters();
        World { params, issuer, ip }
    }

    /// As `with`, but half of the issuers have keys which an honest one has with negligible probability, such as 1 or -1.
    pub fn unusual<R: RngCore + rand_core::CryptoRng>(params: SystemParameters, rng: &mut R) -> World {
        if rng.next_u32() % 2 == 0 {
            return World::with(params, rng);
        }
        loop {
            // Without x1 the MAC would be the same for all attributes.
            let (x0, x1) = (special(rng), special(rng));
            if x1 != Scalar::zero() {
                return World::keyed(params, x0, x1);
            }
        }
    }

    pub fn user(&self, n: &[u8]) -> SignalUser {
        SignalUser::new(self.params, self.ip.clone(), None, n).expect("a user with a valid number")
    }

    /// A user with a credential for `n`.
    pub fn enrolled<R: RngCore + rand_core::CryptoRng>(&self, n: &[u8], rng: &mut R) -> SignalUser {
        let mut u = self.user(n);
        let i = self.issuer.issue(n, rng).expect("issuing for a valid number");
        u.obtain_finish(Some(&i)).expect("accepting an honest issuance");
        u
    }

    pub fn entry<R: RngCore + rand_core::CryptoRng>(&self, n: &[u8], rng: &mut R) -> RosterEntryCommitment {
        RosterEntryCommitment::create(n, &self.params, rng).expect("a roster entry for a valid number")
    }
}

pub fn fmt_number(n: &[u8]) -> String {
    n.iter().map(|d| d.to_string()).collect()
}

/// Would the parts of the issuer's secret key, and its public key, be what they should be?
pub fn key_consistent(w: &World) -> bool {
    let s = &w.issuer.issuer.keypair.secret;
    let p = &w.issuer.issuer.keypair.public;
    s.xn.len() == 1 && p.Xn.len() == 1 && s.xn[0] * w.params.h == p.Xn[0]
}
