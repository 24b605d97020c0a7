//! C16: seeded operations are reproducible and depend on the whole seed.
use std::collections::HashMap;
use std::process::Command;
use vh::capi::{c_call, open_api, Api};
use vh::proto::*;
use vh::*;

type Parts = Vec<(&'static str, Vec<u8>)>;

struct Bench {
    w: World,
    n: Vec<u8>,
    m: Scalar,
    u: SignalUser,
    e: RosterEntryCommitment,
    k: usize,
}

impl Bench {
    fn new(rng: &mut ChaChaRng, case: u64) -> Bench {
        let w = World::new(rng);
        let n = number(rng);
        let u = w.enrolled(&n, rng);
        let e = w.entry(&n, rng);
        Bench { m: encode(&n), u, e, n, w, k: if case / N_OPS as u64 % 3 == 2 { 5 + rng.next_u32() as usize % 60 } else { case as usize % 5 } }
    }
}

fn key_parts(v: &mut Parts, k: &amacs::SecretKey) {
    v.push(("x0", k.x0.to_bytes().to_vec()));
    let names = ["x1", "x2", "x3", "x4", "a later x"];
    for (i, x) in k.xn.iter().enumerate() { v.push((names[i.min(4)], x.to_bytes().to_vec())); }
}

fn show_parts(p: &CredentialPresentation) -> Parts {
    let mut v = vec![("rerandomised nonce", enc(&p.rerandomized_nonce).to_vec()),
                     ("MAC commitment", p.rerandomized_mac_commitment.to_bytes())];
    for c in &p.attributes_blinded { v.push(("attribute commitment", c.to_bytes())); }
    v
}

const OPS: [&str; 18] = [
    "system parameters", "issuer", "MAC key", "key pair", "roster entry", "issuance", "issuance without a number", "presentation",
    "presentation without a number", "elgamal key", "nonce", "nonces", "rerandomisation", "MAC",
    "C parameters", "C issuer", "C roster entry", "C issuance",
];
const C_SHOW: usize = 18;
const N_OPS: usize = 19;

fn name(op: usize) -> &'static str { if op == C_SHOW { "C presentation" } else { OPS[op] } }

/// The randomised parts of what operation `op` makes from a seed.
fn op(b: &Bench, api: &Api, op: usize, seed: &[u8; 32]) -> Parts {
    let mut rng = ChaChaRng::from_seed(*seed);
    let rng = &mut rng;
    let c = |f: usize, a: &[Vec<u8>], names: &[&'static str], skip: usize| -> Parts {
        let v = c_call(api, f, a).expect("C call").expect("C call with valid arguments");
        names.iter().enumerate().map(|(i, n)| (*n, v[skip + 32 * i..skip + 32 * i + 32].to_vec())).collect()
    };
    let s = || seed.to_vec();
    match op {
        0 => {
            let p = SystemParameters::hunt_and_peck(rng);
            vec![("h", enc(&p.h).to_vec())]
        }
        1 => {
            let i = SignalIssuer::create(b.w.params, rng);
            let mut v = vec![];
            key_parts(&mut v, &i.issuer.keypair.secret);
            v.push(("public key", i.get_issuer_parameters().to_bytes()));
            v
        }
        2 => {
            let mut v = vec![];
            key_parts(&mut v, &amacs::SecretKey::new(b.k, rng));
            v
        }
        3 => {
            let k = amacs::Keypair::new(&b.w.params.h, rng);
            let mut v = vec![("public key", k.public.to_bytes())];
            key_parts(&mut v, &k.secret);
            v
        }
        4 => {
            let e = b.w.entry(&b.n, rng);
            vec![("commitment", e.commitment.to_bytes()), ("opening", e.opening.to_bytes())]
        }
        5 | 6 => {
            let i = if op == 5 { b.w.issuer.issue(&b.n, rng).expect("issue") }
                else { b.w.issuer.issuer.issue(&CredentialRequest { attributes_revealed: vec![b.m] }, rng).expect("issue") };
            vec![("MAC nonce", enc(&i.credential.mac.nonce).to_vec()), ("MAC", enc(&i.credential.mac.mac).to_vec()),
                 ("key commitment", i.secret_key_commitment.to_bytes())]
        }
        7 => show_parts(&b.u.show(rng, &b.e).expect("show").presentation),
        8 => {
            let nonces = Nonces::new(rng, 1);
            show_parts(&b.u.user.show(&nonces, rng).expect("show"))
        }
        9 => {
            let k = elgamal::Keypair::generate(rng);
            vec![("secret", k.secret.to_bytes()), ("public", k.public.to_bytes())]
        }
        10 => vec![("nonce", Ephemeral::new(rng).to_bytes())],
        11 => Nonces::new(rng, 4).iter().zip(&["first", "second", "third", "fourth"]).map(|(x, n)| (*n, x.to_bytes())).collect(),
        12 => {
            let t = amacs::Rerandomization::new(rng).apply_to_tag(&b.u.user.credential.as_ref().unwrap().mac);
            vec![("nonce", enc(&t.nonce).to_vec()), ("MAC", enc(&t.mac).to_vec())]
        }
        13 => {
            let t = b.w.issuer.issuer.keypair.secret.mac(&amacs::Message::from(b.m), rng).expect("mac");
            vec![("nonce", enc(&t.nonce).to_vec()), ("MAC", enc(&t.mac).to_vec())]
        }
        14 => c(0, &[s()], &["h"], 32),
        15 => c(1, &[b.w.params.to_bytes(), s()], &["public key", "secret x0", "secret x1"], 0),
        16 => c(9, &[b.n.clone(), b.w.params.to_bytes(), s()], &["commitment", "opening"], 0),
        17 => c(4, &[b.w.issuer.to_bytes(), b.n.clone(), s()], &["key commitment", "MAC nonce", "MAC"], 0),
        _ => c(8, &[b.u.to_bytes(), b.e.to_bytes(), s()], &["MAC commitment", "rerandomised nonce", "attribute commitment"], 32),
    }
}

fn flat(p: &Parts) -> Vec<u8> {
    p.iter().flat_map(|x| x.1.clone()).collect()
}

/// What another process, which was given the same seeds, makes of them.
fn child(case: u64, api: &Api, ctx: &Ctx) -> String {
    let mut rng = ctx.rng("processes", case);
    let b = Bench::new(&mut rng, case);
    let mut out = vec![];
    for o in 0..N_OPS {
        let mut seed = [0u8; 32];
        rng.fill_bytes(&mut seed);
        out.push(hex(&flat(&op(&b, api, o, &seed))));
    }
    out.join(" ")
}

fn main() {
    let ctx = Ctx::new("C16");
    let api: &'static Api = Box::leak(Box::new(open_api()));
    if let Ok(c) = std::env::var("VH_CHILD") {
        let s = child(c.parse().unwrap(), api, ctx);
        std::fs::write(std::env::var("VH_CHILD_OUT").unwrap(), s).unwrap();
        return;
    }

    // Every bit of the seed, and seeds which a careless use of the seed would confuse.
    ctx.par("bits", ctx.n(38), move |case, rng| {
        let b = Bench::new(rng, case);
        let o = case as usize % N_OPS;
        let mut seed = [0u8; 32];
        match case / N_OPS as u64 % 4 { 1 => {} , 2 => seed = [0xff; 32], _ => rng.fill_bytes(&mut seed) }
        let base = op(&b, api, o, &seed);
        let mut seeds: Vec<(String, [u8; 32])> = Vec::new();
        for i in 0..256 {
            let mut s = seed;
            s[i / 8] ^= 1 << (i % 8);
            seeds.push((format!("bit {} changed", i), s));
        }
        let mut all: HashMap<Vec<u8>, String> = HashMap::new();
        for (n, p) in &base { all.insert([n.as_bytes(), &p[..]].concat(), "the seed itself".to_string()); }
        let mut r = seed; r.reverse(); seeds.push(("reversed".to_string(), r));
        for k in 1..32 {
            let mut s = seed;
            s.rotate_left(k);
            seeds.push((format!("rotated by {}", k), s));
            let mut s = seed;
            s.swap(0, k);
            seeds.push((format!("bytes 0 and {} swapped", k), s));
            let mut s = seed;
            let d = 1 + (rng.next_u32() % 255) as u8;
            s[k - 1] = s[k - 1].wrapping_add(d);
            s[k] = s[k].wrapping_sub(d);
            seeds.push((format!("{} from byte {} to byte {}", d, k, k - 1), s));
            let mut s = seed;
            s[k - 1] ^= d;
            s[k] ^= d;
            seeds.push((format!("{:02x} in bytes {} and {}", d, k - 1, k), s));
        }
        seeds.retain(|x| x.1 != seed);
        seeds.sort_by(|x, y| x.1.cmp(&y.1));
        seeds.dedup_by(|x, y| x.1 == y.1);
        for (what, s) in &seeds {
            let x = op(&b, api, o, s);
            ctx.check(x.len() == base.len(), "shape", || name(o).to_string());
            for ((n, p), (_, q)) in x.iter().zip(&base) {
                ctx.eval("parts compared between seeds");
                ctx.seen(name(o), p);
                ctx.check(p != q, "seed-ignored", || format!("{} of {} is the same with {}: seed {}", n, name(o), what, hex(&seed)));
                if let Some(old) = all.insert([n.as_bytes(), &p[..]].concat(), what.clone()) {
                    ctx.violation("seeds-collide", format!("{} of {} is the same with {} and with {}: seed {}", n, name(o), what, old, hex(&seed)));
                }
            }
        }
        ctx.sample("seeds", || format!("{} with {} variations of seed {}", name(o), seeds.len(), hex(&seed)));
    });

    // The same result every time: again, after others, in another thread.
    ctx.par("again", ctx.n(150), move |case, rng| {
        let b = Bench::new(rng, case);
        for o in 0..N_OPS {
            let mut seed = [0u8; 32];
            rng.fill_bytes(&mut seed);
            let one = op(&b, api, o, &seed);
            let mut other = [0u8; 32];
            rng.fill_bytes(&mut other);
            let q = rng.next_u32() as usize % N_OPS;
            op(&b, api, q, &other);
            let two = op(&b, api, o, &seed);
            let b = &b;
            let three = {
                // a thread with state of its own
                let (bp, seed) = (b as *const Bench as usize, seed);
                std::thread::spawn(move || op(unsafe { &*(bp as *const Bench) }, api, o, &seed)).join().expect("operation")
            };
            ctx.evals("results compared with the same seed again", 2);
            ctx.seen("again", &flat(&one));
            ctx.check(one == two, "not-reproducible", || format!("{} differs with the same seed {}", name(o), hex(&seed)));
            ctx.check(one == three, "not-reproducible", || format!("{} differs in another thread with the same seed {}", name(o), hex(&seed)));
            // All parts of one result differ, and a generator which goes on gives something else.
            for i in 0..one.len() { for j in 0..i {
                ctx.check(one[i].1 != one[j].1, "parts-equal", || format!("{} and {} of {} are the same", one[i].0, one[j].0, name(o)));
            } }
            // The C interface and the library make the same of a seed.
            let same = match o { 14 => Some(0), 16 => Some(4), _ => None };
            if let Some(l) = same {
                ctx.check(op(b, api, l, &seed) == one, "c-differs", || format!("{} differs from the library's", name(o)));
            }
        }
        // One generator used twice.
        let mut g = ChaChaRng::from_seed([case as u8; 32]);
        let x = SignalIssuer::create(b.w.params, &mut g).to_bytes();
        let y = SignalIssuer::create(b.w.params, &mut g).to_bytes();
        ctx.check(x != y, "generator-not-used", || "two issuers from one generator are the same".to_string());
        let x = b.w.entry(&b.n, &mut g).to_bytes();
        let y = b.w.entry(&b.n, &mut g).to_bytes();
        ctx.check(x != y, "generator-not-used", || "two entries from one generator are the same".to_string());
        let x = b.w.issuer.issue(&b.n, &mut g).expect("issue").to_bytes();
        let y = b.w.issuer.issue(&b.n, &mut g).expect("issue").to_bytes();
        ctx.check(x[..96] != y[..96], "generator-not-used", || "two issuances from one generator are the same".to_string());
        ctx.evals("generators used twice", 3);
    });

    // In another process, which has another address space, environment and start.
    ctx.par("processes", ctx.n(24), move |case, _| {
        let here = child(case, api, ctx);
        let out = format!("{}.child-{}", std::env::var("VH_OUT").unwrap_or_else(|_| "/tmp/c16".to_string()), case);
        let st = Command::new(std::env::current_exe().expect("HARNESS: exe"))
            .env("VH_CHILD", case.to_string()).env("VH_CHILD_OUT", &out).env_remove("VH_OUT")
            .env("C16_PADDING", "x".repeat(case as usize * 37)).status().expect("HARNESS: child");
        let there = std::fs::read_to_string(&out).unwrap_or_default();
        let _ = std::fs::remove_file(&out);
        if there.is_empty() { panic!("HARNESS: child ended with {:?}", st.code()); }
        ctx.evals("results compared with another process", N_OPS as u64);
        let (h, t): (Vec<&str>, Vec<&str>) = (here.split(' ').collect(), there.split(' ').collect());
        ctx.check(h.len() == t.len(), "processes-differ", || "a different number of results".to_string());
        for (i, (x, y)) in h.iter().zip(&t).enumerate() {
            ctx.seen("process", x.as_bytes());
            ctx.check(x == y, "processes-differ", || format!("{} is {} here and {} in another process", name(i), x, y));
        }
    });
    ctx.finish("19 seeded operations of the library and the C interface, each with one seed and hundreds of seeds close to it; distinct by \
                the randomised parts of the results");
}
