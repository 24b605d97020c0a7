//! Every serialisable type, behind one interface.

use crate::proto::*;
use crate::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;

/// What a decoder made of some bytes: what it encodes to, or an error.
pub type Reencoded = Option<Vec<u8>>;

pub struct Kind {
    pub name: &'static str,
    /// The length every encoding has, if there is one.
    pub len: Option<usize>,
    pub decode: fn(&[u8]) -> Reencoded,
    /// Decode twice and compare the values (by `==` where there is one).
    pub equal: fn(&[u8], &[u8]) -> Option<bool>,
    pub bincode_of: fn(&[u8]) -> Option<Vec<u8>>,
    pub from_bincode: fn(&[u8]) -> Reencoded,
    pub from_bincode_reader: fn(&[u8]) -> Reencoded,
    pub json_of: fn(&[u8]) -> Option<String>,
    pub from_json: fn(&str) -> Reencoded,
    pub from_json_reader: fn(&[u8]) -> Reencoded,
    pub from_value: fn(Value) -> Reencoded,
}

fn bincode_of<T: Serialize>(x: &T) -> Option<Vec<u8>> { bincode::serialize(x).ok() }
fn from_bincode<T: DeserializeOwned>(b: &[u8]) -> Option<T> { bincode::deserialize(b).ok() }
fn from_bincode_reader<T: DeserializeOwned>(b: &[u8]) -> Option<T> { bincode::deserialize_from(std::io::Cursor::new(b)).ok() }
fn json_of<T: Serialize>(x: &T) -> Option<String> { serde_json::to_string(x).ok() }
fn from_json<T: DeserializeOwned>(s: &str) -> Option<T> { serde_json::from_str(s).ok() }
fn from_json_reader<T: DeserializeOwned>(s: &[u8]) -> Option<T> { serde_json::from_reader(std::io::Cursor::new(s)).ok() }
fn from_value<T: DeserializeOwned>(v: Value) -> Option<T> { serde_json::from_value(v).ok() }

macro_rules! kind {
    ($name:expr, $t:ty, $len:expr, $eq:expr) => {{
        fn d(b: &[u8]) -> Option<$t> { <$t>::from_bytes(b).ok() }
        Kind {
            name: $name,
            len: $len,
            decode: |b| d(b).map(|x| x.to_bytes()),
            equal: |a, b| { let (a, b) = (d(a)?, d(b)?); let f: fn(&$t, &$t) -> bool = $eq; Some(f(&a, &b)) },
            bincode_of: |b| bincode_of(&d(b)?),
            from_bincode: |b| from_bincode::<$t>(b).map(|x| x.to_bytes()),
            from_bincode_reader: |b| from_bincode_reader::<$t>(b).map(|x| x.to_bytes()),
            json_of: |b| json_of(&d(b)?),
            from_json: |s| from_json::<$t>(s).map(|x| x.to_bytes()),
            from_json_reader: |s| from_json_reader::<$t>(s).map(|x| x.to_bytes()),
            from_value: |v| from_value::<$t>(v).map(|x| x.to_bytes()),
        }
    }};
}

macro_rules! proof_kind {
    ($name:expr, $which:ident, $len:expr) => {{
        type T = aeonflux::proofs::$which::Proof;
        fn d(b: &[u8]) -> Option<T> { if b.len() != $len { return None; } bincode::deserialize(b).ok() }
        fn e(x: T) -> Option<Vec<u8>> { bincode::serialize(&x).ok() }
        Kind {
            name: $name,
            len: Some($len),
            decode: |b| d(b).and_then(e),
            equal: |a, b| Some(d(a)? == d(b)?),
            bincode_of: |b| bincode_of(&d(b)?),
            from_bincode: |b| from_bincode::<T>(b).and_then(e),
            from_bincode_reader: |b| from_bincode_reader::<T>(b).and_then(e),
            json_of: |b| json_of(&d(b)?),
            from_json: |s| from_json::<T>(s).and_then(e),
            from_json_reader: |s| from_json_reader::<T>(s).and_then(e),
            from_value: |v| from_value::<T>(v).and_then(e),
        }
    }};
}

pub fn kinds() -> Vec<Kind> {
    vec![
        kind!("amacs::Tag", amacs::Tag, Some(64), |a, b| a == b),
        kind!("amacs::PublicKey", amacs::PublicKey, None, |a, b| a == b),
        kind!("amacs::SecretKey", amacs::SecretKey, None, |a, b| a.x0 == b.x0 && a.xn == b.xn),
        kind!("amacs::Keypair", amacs::Keypair, None,
              |a, b| a.public == b.public && a.secret.x0 == b.secret.x0 && a.secret.xn == b.secret.xn),
        kind!("Credential", Credential, Some(96), |a, b| a == b),
        kind!("CredentialRequest", CredentialRequest, None, |a, b| a == b),
        kind!("CredentialIssuance", CredentialIssuance, Some(328), |a, b| a == b),
        kind!("CredentialPresentation", CredentialPresentation, Some(256), |a, b| a == b),
        kind!("VerifiedCredential", VerifiedCredential, Some(256), |a, b| a == b),
        kind!("elgamal::PublicKey", elgamal::PublicKey, Some(32), |a, b| a == b),
        kind!("elgamal::SecretKey", elgamal::SecretKey, Some(32), |a, b| a == b),
        kind!("elgamal::Keypair", elgamal::Keypair, Some(64), |a, b| a == b),
        kind!("Issuer", Issuer, None, |a, b| a.system_parameters == b.system_parameters
              && a.keypair.public == b.keypair.public && a.keypair.secret.x0 == b.keypair.secret.x0
              && a.keypair.secret.xn == b.keypair.secret.xn),
        kind!("SystemParameters", SystemParameters, Some(64), |a, b| a == b),
        kind!("pedersen::Commitment", pedersen::Commitment, Some(32), |a, b| a == b),
        kind!("User", User, Some(256), |a, b| a == b),
        kind!("SignalCredentialPresentation", SignalCredentialPresentation, Some(448), |a, b| a == b),
        kind!("VerifiedSignalCredential", VerifiedSignalCredential, Some(448), |a, b| a == b),
        kind!("SignalIssuer", SignalIssuer, None, |a, b| a.issuer.system_parameters == b.issuer.system_parameters
              && a.issuer.keypair.public == b.issuer.keypair.public
              && a.issuer.keypair.secret.x0 == b.issuer.keypair.secret.x0
              && a.issuer.keypair.secret.xn == b.issuer.keypair.secret.xn),
        kind!("PhoneNumber", PhoneNumber, Some(32), |a, b| a == b),
        kind!("CommittedPhoneNumber", CommittedPhoneNumber, Some(32), |a, b| a == b),
        kind!("RosterEntryCommitment", RosterEntryCommitment, Some(64),
              |a, b| a.commitment == b.commitment && a.opening.to_bytes() == b.opening.to_bytes()),
        kind!("SignalUser", SignalUser, Some(288), |a, b| a == b),
        proof_kind!("issuance_revealed::Proof", issuance_revealed, 200),
        proof_kind!("attributes_blinded::Proof", attributes_blinded, 200),
        proof_kind!("issuance_blinded::Proof", issuance_blinded, 280),
        proof_kind!("valid_credential::Proof", valid_credential, 160),
        proof_kind!("committed_values_equal::Proof", committed_values_equal, 160),
    ]
}

/// One or more valid encodings of each kind, made by the library itself, along with the value's encoding as it was
/// computed from the value in memory.
pub fn values<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> Vec<(&'static str, Vec<u8>)> {
    let mut out: Vec<(&'static str, Vec<u8>)> = Vec::new();
    let w = World::new(rng);
    let n = number(rng);
    let issuance = w.issuer.issue(&n, rng).expect("issue");
    let key = if rng.next_u32() % 2 == 0 { Some(elgamal::Keypair::generate(rng)) } else { None };
    let mut user = SignalUser::new(w.params, w.ip.clone(), key, &n).expect("user");
    out.push(("SignalUser", user.to_bytes()));
    out.push(("User", user.user.to_bytes()));
    user.obtain_finish(Some(&issuance)).expect("obtain_finish");
    let entry = w.entry(&n, rng);
    let pres = user.show(rng, &entry).expect("show");
    out.push(("SignalUser", user.to_bytes()));
    out.push(("User", user.user.to_bytes()));
    out.push(("CredentialIssuance", issuance.to_bytes()));
    out.push(("Credential", issuance.credential.to_bytes()));
    out.push(("amacs::Tag", issuance.credential.mac.to_bytes()));
    out.push(("SignalCredentialPresentation", pres.to_bytes()));
    out.push(("CredentialPresentation", pres.presentation.to_bytes()));
    let v = w.issuer.issuer.verify(&pres.presentation).expect("verify");
    out.push(("VerifiedCredential", v.to_bytes()));
    let v = w.issuer.verify(pres.clone()).expect("verify");
    out.push(("VerifiedSignalCredential", v.to_bytes()));
    out.push(("SignalIssuer", w.issuer.to_bytes()));
    out.push(("Issuer", w.issuer.issuer.to_bytes()));
    out.push(("SystemParameters", w.params.to_bytes()));
    out.push(("amacs::Keypair", w.issuer.issuer.keypair.to_bytes()));
    out.push(("amacs::PublicKey", w.ip.to_bytes()));
    out.push(("amacs::SecretKey", w.issuer.issuer.keypair.secret.to_bytes()));
    let k = if rng.next_u32() % 16 == 0 { 6 + rng.next_u32() as usize % 40 } else { rng.next_u32() as usize % 6 };
    let sk = amacs::SecretKey::new(k, rng);
    let pk = sk.get_public_key(&w.params.h);
    out.push(("amacs::PublicKey", pk.to_bytes()));
    out.push(("amacs::SecretKey", sk.to_bytes()));
    out.push(("amacs::Keypair", amacs::Keypair { public: pk, secret: sk }.to_bytes()));
    let k = 1 + rng.next_u32() as usize % 4;
    let sk = amacs::SecretKey::new(k, rng);
    let pk = sk.get_public_key(&w.params.h);
    out.push(("Issuer", Issuer::new(w.params, amacs::Keypair { public: pk, secret: sk }).to_bytes()));
    out.push(("pedersen::Commitment", pres.presentation.rerandomized_mac_commitment.to_bytes()));
    out.push(("PhoneNumber", user.phone_number.to_bytes()));
    out.push(("RosterEntryCommitment", entry.to_bytes()));
    out.push(("CommittedPhoneNumber", entry.commitment.to_bytes()));
    let e = elgamal::Keypair::generate(rng);
    out.push(("elgamal::Keypair", e.to_bytes()));
    out.push(("elgamal::PublicKey", e.public.to_bytes()));
    out.push(("elgamal::SecretKey", e.secret.to_bytes()));
    let k = if rng.next_u32() % 16 == 0 { 5 + rng.next_u32() as usize % 80 } else { rng.next_u32() as usize % 5 };
    let attributes_revealed = (0..k).map(|_| special(rng)).collect();
    out.push(("CredentialRequest", CredentialRequest { attributes_revealed }.to_bytes()));
    out.push(("issuance_revealed::Proof", bincode::serialize(&issuance.proof).expect("serialize")));
    out.push(("valid_credential::Proof", bincode::serialize(&pres.presentation.proof).expect("serialize")));
    out.push(("committed_values_equal::Proof", bincode::serialize(&pres.roster_membership_proof).expect("serialize")));
    let specs = nizk::specs();
    for (kind, name) in &[(1usize, "attributes_blinded::Proof"), (2, "issuance_blinded::Proof")] {
        let s = &specs[*kind];
        let secrets: Vec<Scalar> = s.secrets.iter().map(|_| Scalar::random(rng)).collect();
        let d = s.statement(rng, &secrets, &[], None);
        out.push((*name, nizk::lib_prove(*kind, s.context, &nizk::points(&d), &secrets)));
    }
    out
}

/// Write a value and read it back, in one of the formats, or not.
pub fn reload<T, R, E>(x: T, rng: &mut R, to: fn(&T) -> Vec<u8>, from: fn(&[u8]) -> Result<T, E>) -> T
where
    T: Serialize + DeserializeOwned,
    R: RngCore,
    E: std::fmt::Debug,
{
    match rng.next_u32() % 5 {
        0 => from(&to(&x)).expect("what was written is read back"),
        1 => bincode::deserialize(&bincode::serialize(&x).expect("serialises")).expect("what was written is read back"),
        2 => serde_json::from_str(&serde_json::to_string(&x).expect("serialises")).expect("what was written is read back"),
        _ => x,
    }
}

#[macro_export]
macro_rules! reload {
    ($t:ty, $x:expr, $rng:expr) => {
        $crate::types::reload::<$t, _, _>($x, $rng, |x| x.to_bytes(), |b| <$t>::from_bytes(b))
    };
}
