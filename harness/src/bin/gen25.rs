//! Makes the recorded artefacts of C25.  Run with the library of the published version (see golden/README), writes JSON
//! lines to the file in VH_GOLDEN.
use serde_json::{json, Value};
use std::io::Write;
use vh::nizk::*;
use vh::proto::*;
use vh::types::*;
use vh::*;

fn seed(b: &[u8; 32]) -> ChaChaRng { ChaChaRng::from_seed(*b) }

fn main() {
    let mut out = std::fs::File::create(std::env::var("VH_GOLDEN").expect("VH_GOLDEN")).expect("create");
    let mut put = |v: Value| { out.write_all(format!("{}\n", v).as_bytes()).expect("write") };
    let mut master = seed(&[25; 32]);
    let rng = &mut master;
    for i in 0..30usize {
        let mut seeds = [[0u8; 32]; 3];
        for s in seeds.iter_mut() { rng.fill_bytes(s) }
        match i {
            0 => for (j, s) in seeds.iter_mut().enumerate() { *s = [j as u8; 32] },
            1 => for (j, s) in seeds.iter_mut().enumerate() { *s = [255 - j as u8; 32] },
            2 => for s in seeds.iter_mut() { for (j, b) in s.iter_mut().enumerate() { *b = j as u8 } },
            _ => {}
        }
        let n = if i < MAX_DIGITS { digits(rng, i + 1) } else { number(rng) };
        let params = SystemParameters::hunt_and_peck(&mut seed(&seeds[0]));
        let w = World::with(params, &mut seed(&seeds[1]));
        let entry = RosterEntryCommitment::create(&n, &params, &mut seed(&seeds[2])).unwrap();
        let elgamal_key = elgamal::Keypair::generate(&mut seed(&seeds[1]));
        let key = if i % 2 == 0 { Some(elgamal::Keypair::generate(rng)) } else { None };
        let mut user = SignalUser::new(params, w.ip.clone(), key, &n).unwrap();
        let fresh = user.to_bytes();
        let issuance = w.issuer.issue(&n, rng).unwrap();
        user.obtain_finish(Some(&issuance)).unwrap();
        let pres = user.show(rng, &entry).unwrap();
        let pb = pres.to_bytes();
        let ver = w.issuer.verify(pres).unwrap();
        w.issuer.verify_roster_membership(&ver).unwrap();
        let e = Ephemeral::new(rng);
        let ms = special(rng);
        let m = elgamal::Message::from(&ms);
        let c = elgamal_key.encrypt(&m, &e);
        put(json!({
            "t": "world", "seeds": seeds.iter().map(|s| hex(s)).collect::<Vec<_>>(), "number": hex(&n),
            "params": hex(&params.to_bytes()), "issuer": hex(&w.issuer.to_bytes()), "keypair": hex(&w.issuer.issuer.keypair.to_bytes()),
            "ip": hex(&w.ip.to_bytes()), "entry": hex(&entry.to_bytes()), "elgamal": hex(&elgamal_key.to_bytes()),
            "fresh": hex(&fresh), "issuance": hex(&issuance.to_bytes()), "user": hex(&user.to_bytes()), "presentation": hex(&pb),
            "verified": hex(&ver.to_bytes()), "phone": hex(&user.phone_number.to_bytes()),
            "nonce": hex(&e.to_bytes()), "message": hex(ms.as_bytes()), "c0": hex(&enc(&c.commitment)), "c1": hex(&enc(&c.encryption)),
        }));
    }
    // Every type in every form.
    let kinds = kinds();
    for _ in 0..3 {
        for (name, native) in values(rng) {
            let k = kinds.iter().find(|k| k.name == name).unwrap();
            let b = (k.bincode_of)(&native);
            let j = (k.json_of)(&native);
            put(json!({ "t": "form", "kind": name, "native": hex(&native), "bincode": b.map(|b| hex(&b)), "json": j }));
        }
    }
    // Proofs of each kind, on statements and contexts of their own.
    for (kind, s) in specs().iter().enumerate() {
        for i in 0..6 {
            let secrets: Vec<Scalar> = s.secrets.iter().map(|_| if i < 3 { Scalar::random(rng) } else { special(rng) }).collect();
            let p = points(&s.statement(rng, &secrets, &[], None));
            put(json!({ "t": "proof", "kind": kind, "publics": p.iter().map(|p| hex(&enc(p))).collect::<Vec<_>>(),
                        "proof": hex(&lib_prove(kind, s.context, &p, &secrets)) }));
        }
    }
    // Keys of several lengths, tags made with them, and their public keys.
    for n in 0..6usize {
        let mut s = [0u8; 32];
        rng.fill_bytes(&mut s);
        let sk = amacs::SecretKey::new(n, &mut seed(&s));
        let h = rpoint(rng);
        let m: Vec<Scalar> = (0..n).map(|_| special(rng)).collect();
        let tag = sk.mac(&amacs::Message::from(m.clone()), rng).unwrap();
        put(json!({ "t": "mac", "seed": hex(&s), "key": hex(&sk.to_bytes()), "h": hex(&enc(&h)), "public": hex(&sk.get_public_key(&h).to_bytes()),
                    "message": m.iter().map(|x| hex(x.as_bytes())).collect::<Vec<_>>(), "tag": hex(&tag.to_bytes()) }));
    }
}
