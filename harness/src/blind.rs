//! The randomness of presentations: tables of what was seen, and taking the blindings out of a presentation.
#![allow(non_snake_case)]

use crate::proto::*;
use crate::*;
use aeonflux::amacs::Tag;
use std::collections::HashMap;
use std::sync::Mutex;

pub struct Table {
    pub what: &'static str,
    pub seen: Mutex<HashMap<[u8; 32], String>>,
}

impl Table {
    pub fn new(what: &'static str) -> Table { Table { what, seen: Mutex::new(HashMap::new()) } }

    pub fn fresh(&self, ctx: &'static Ctx, key: [u8; 32], here: &str) {
        ctx.eval(self.what);
        ctx.seen(self.what, &key);
        if let Some(old) = self.seen.lock().unwrap().insert(key, here.to_string()) {
            ctx.violation("repeated", format!("{}: {} is also {}: {}", self.what, here, old, hex(&key)));
        }
    }

    pub fn point(&self, ctx: &'static Ctx, p: &RistrettoPoint, here: &str) {
        let id = RistrettoPoint::identity();
        ctx.check(*p != id, "identity", || format!("{}: {} is the identity", self.what, here));
        let (a, b) = (enc(p), enc(&-p));
        if *p != id {
            self.fresh(ctx, if a < b { a } else { b }, here);
        }
    }

    pub fn scalar(&self, ctx: &'static Ctx, s: &Scalar, here: &str) {
        ctx.check(*s != Scalar::zero(), "zero", || format!("{}: {} is zero", self.what, here));
        let (a, b) = (s.to_bytes(), (-s).to_bytes());
        self.fresh(ctx, if a < b { a } else { b }, here);
    }
}

/// A user whose credential has a nonce with known logarithm.
pub fn known_user(w: &World, n: &[u8], t: &Scalar) -> SignalUser {
    let mut u = w.user(n);
    let m = encode(n);
    let key = &w.issuer.issuer.keypair.secret;
    u.user.credential = Some(Credential { mac: Tag { nonce: t * G, mac: (t * (key.x0 + m * key.xn[0])) * G }, attributes: vec![m] });
    u
}

/// u G, z0 G and zQ G.
pub fn factors(w: &World, n: &[u8], p: &CredentialPresentation, t: &Scalar, a: &Scalar) -> Vec<(&'static str, RistrettoPoint)> {
    let m = encode(n);
    let key = &w.issuer.issuer.keypair.secret;
    let P = p.rerandomized_nonce;
    let cm: RistrettoPoint = p.attributes_blinded[0].into();
    let cq: RistrettoPoint = p.rerandomized_mac_commitment.into();
    vec![("the rerandomisation factor", t.invert() * P), ("the blinding of the attribute", a.invert() * (cm - m * P)),
         ("the blinding of the MAC", a.invert() * (cq - (key.x0 + m * key.xn[0]) * P))]
}
