//! The operations of the C and JavaScript interfaces, done with the library itself, and their arguments.

use crate::capi::*;
use crate::capi::K::*;
use crate::proto::*;
use crate::*;

pub fn seeded(a: &[u8]) -> ChaChaRng {
    let mut s = [0u8; 32];
    s.copy_from_slice(&a[..32]);
    ChaChaRng::from_seed(s)
}

/// The corresponding operation of the library.
pub fn lib_call(f: usize, a: &[Vec<u8>]) -> Option<Vec<u8>> {
    // Nothing is the value of an empty argument.
    if FNS[f].1.iter().zip(a).any(|(k, b)| *k != Seed && b.is_empty()) {
        return if f == 11 { Some(vec![0]) } else { None };
    }
    Some(match f {
        0 => SystemParameters::hunt_and_peck(&mut seeded(&a[0])).to_bytes(),
        1 => {
            let p = SystemParameters::from_bytes(&a[0]).ok()?;
            SignalIssuer::create(p, &mut seeded(&a[1])).issuer.keypair.to_bytes()
        }
        2 => {
            let p = SystemParameters::from_bytes(&a[0]).ok()?;
            SignalIssuer::new(p, amacs::Keypair::from_bytes(&a[1]).ok()?).to_bytes()
        }
        3 => SignalIssuer::from_bytes(&a[0]).ok()?.get_issuer_parameters().to_bytes(),
        4 => SignalIssuer::from_bytes(&a[0]).ok()?.issue(&a[1], &mut seeded(&a[2])).ok()?.to_bytes(),
        5 => {
            let p = SignalCredentialPresentation::from_bytes(&a[1]).ok()?;
            SignalIssuer::from_bytes(&a[0]).ok()?.verify(p).ok()?.to_bytes()
        }
        6 => {
            let v = VerifiedSignalCredential::from_bytes(&a[1]).ok()?;
            SignalIssuer::from_bytes(&a[0]).ok()?.verify_roster_membership(&v).ok()?.to_bytes()
        }
        7 => {
            let p = SystemParameters::from_bytes(&a[1]).ok()?;
            let ip = IssuerParameters::from_bytes(&a[2]).ok()?;
            let i = SignalCredentialIssuance::from_bytes(&a[3]).ok()?;
            let mut u = SignalUser::new(p, ip, None, &a[0]).ok()?;
            u.obtain_finish(Some(&i)).ok()?;
            u.to_bytes()
        }
        8 => {
            let u = SignalUser::from_bytes(&a[0]).ok()?;
            let e = RosterEntryCommitment::from_bytes(&a[1]).ok()?;
            u.show(&mut seeded(&a[2]), &e).ok()?.to_bytes()
        }
        9 => {
            let p = SystemParameters::from_bytes(&a[1]).ok()?;
            RosterEntryCommitment::create(&a[0], &p, &mut seeded(&a[2])).ok()?.to_bytes()
        }
        10 => RosterEntryCommitment::from_bytes(&a[0]).ok()?.commitment.to_bytes(),
        _ => {
            let ok = (|| {
                let p = SystemParameters::from_bytes(&a[2]).ok()?;
                RosterEntryCommitment::from_bytes(&a[0]).ok()?.open(&a[1], &p).ok()
            })();
            vec![ok.is_some() as u8]
        }
    })
}

/// How many bytes of the result are a function of the arguments: the proofs in the rest have randomness of their own.
pub fn determined(f: usize, len: usize) -> usize {
    if f == 4 || f == 8 { len.min(128) } else { len }
}

#[derive(Clone)]
pub struct Objects(pub Vec<Vec<u8>>);

impl Objects {
    pub fn new<R: RngCore + rand_core::CryptoRng>(rng: &mut R) -> Objects {
        Objects::of(None, rng)
    }

    /// Objects for this number, or for any.
    pub fn of<R: RngCore + rand_core::CryptoRng>(n: Option<&[u8]>, rng: &mut R) -> Objects {
        let w = if rng.next_u32() % 2 == 0 { World::new(rng) } else { let p = known_params(rng).0; World::with(p, rng) };
        let n = match n { Some(n) => n.to_vec(), None => number(rng) };
        let key = if rng.next_u32() % 2 == 0 { Some(elgamal::Keypair::generate(rng)) } else { None };
        let mut u = SignalUser::new(w.params, w.ip.clone(), key, &n).expect("HARNESS: user");
        let i = w.issuer.issue(&n, rng).expect("honest issuance");
        u.obtain_finish(Some(&i)).expect("honest issuance accepted");
        let e = w.entry(&n, rng);
        let p = u.show(rng, &e).expect("honest presentation");
        let pb = p.to_bytes();
        let v = w.issuer.verify(p).expect("honest presentation accepted");
        let mut seed = vec![0u8; 32];
        rng.fill_bytes(&mut seed);
        Objects(vec![seed, w.params.to_bytes(), w.issuer.issuer.keypair.to_bytes(), w.issuer.to_bytes(), n, pb, v.to_bytes(),
                     w.ip.to_bytes(), i.to_bytes(), u.to_bytes(), e.to_bytes()])
    }

    pub fn args(&self, f: usize) -> Vec<Vec<u8>> {
        FNS[f].1.iter().map(|k| self.0[*k as usize].clone()).collect()
    }
}

/// Seeds which are not like those a random generator gives.
pub fn odd_seeds<R: RngCore>(rng: &mut R) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xff; 32], vec![0x80; 32], vec![1; 32], (0..32).collect(), (0..32).rev().collect(),
                                     b"a seed which someone has typed in".to_vec()[..32].to_vec()];
    for i in 0..32 {
        let mut s = vec![0; 32];
        s[i] = 1 << (rng.next_u32() % 8);
        out.push(s);
    }
    for k in &[1usize, 2, 4, 8, 16] {
        // the same again and again
        let mut part = vec![0; *k];
        rng.fill_bytes(&mut part);
        out.push(part.iter().cloned().cycle().take(32).collect());
    }
    for k in &[1usize, 2, 4, 8, 16, 24, 31] {
        // partly zeros or ones, at the start or the end
        for end in 0..2 { for x in &[0u8, 0xff] {
            let mut s = vec![0; 32];
            rng.fill_bytes(&mut s);
            for i in 0..*k { s[if end == 1 { 31 - i } else { i }] = *x; }
            out.push(s);
        } }
    }
    out
}

/// Numbers of this length which are not like random ones.
pub fn odd_numbers<R: RngCore>(rng: &mut R, len: usize) -> Vec<Vec<u8>> {
    let random = |rng: &mut R| -> Vec<u8> { (0..len).map(|_| (rng.next_u32() % 10) as u8).collect() };
    let (h, mut out) = (len / 2, vec![vec![0; len], vec![9; len], (0..len).map(|i| (i % 10) as u8).collect()]);
    let mut n = random(rng); for x in &mut n[..h] { *x = 0; } out.push(n);
    let mut n = random(rng); for x in &mut n[len - h..] { *x = 0; } out.push(n);
    let mut n = vec![0; len]; n[0] = 1; out.push(n);
    let mut n = vec![0; len]; n[len - 1] = 1; out.push(n);
    let mut n = random(rng); n[0] = 0; out.push(n);
    out.push(random(rng));
    out
}

pub fn alter<R: RngCore + rand_core::CryptoRng>(rng: &mut R, k: K, b: &mut Vec<u8>, other: &Objects, len_too: bool) {
    if k == Seed || b.is_empty() {
        for x in b.iter_mut() { if rng.next_u32() % 8 == 0 { *x ^= 1 << (rng.next_u32() % 8); } }
        return;
    }
    if k == Number && rng.next_u32() % 2 == 0 {
        *b = match rng.next_u32() % 5 {
            0 => near(rng, b),
            1 => number(rng),
            2 => digits(rng, 26),
            3 => digits(rng, 27),
            _ => { let n = 1 + rng.next_u32() as usize % 40; let mut v = vec![0u8; n]; rng.fill_bytes(&mut v); v }
        };
        return;
    }
    let n = b.len();
    let at = |rng: &mut R| rng.next_u32() as usize % n;
    match rng.next_u32() % if len_too { 12 } else { 9 } {
        0 | 1 => { let i = at(rng); b[i] ^= 1 << (rng.next_u32() % 8); }
        2 => { let i = at(rng); b[i] = rng.next_u32() as u8; }
        3 if n >= 32 => { let i = 32 * (at(rng) / 32); if i + 32 <= n { let p = enc(&rpoint(rng)); b[i..i + 32].copy_from_slice(&p); } }
        4 if n >= 32 => { let i = 32 * (at(rng) / 32); if i + 32 <= n { let s = Scalar::random(rng); b[i..i + 32].copy_from_slice(s.as_bytes()); } }
        5 if n >= 32 => { let i = at(rng) / 32 * 32; for x in &mut b[i..n.min(i + 32)] { *x = 0; } }
        6 => {
            // a field of another object of the same kind
            let o = &other.0[k as usize];
            let i = at(rng) / 32 * 32;
            let e = n.min(i + 32).min(o.len());
            if i < e { b[i..e].copy_from_slice(&o[i..e]); }
        }
        7 => *b = other.0[k as usize].clone(),
        8 => { let o = &other.0[rng.next_u32() as usize % KINDS]; *b = o.clone(); }
        9 => { let m = at(rng); b.truncate(m); }
        10 => { let m = 1 + rng.next_u32() as usize % 64; for _ in 0..m { b.push(if m % 2 == 0 { 0 } else { rng.next_u32() as u8 }); } }
        _ => { b.clear(); }
    }
}

