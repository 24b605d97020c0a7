//! C26: every configuration of the library computes the same.
//! Oracle: the other configurations; each answers the same questions (see node.rs) in a process of its own.
use std::cell::RefCell;
use vh::capi::*;
use vh::nizk::*;
use vh::node::*;
use vh::ops::*;
use vh::proto::*;
use vh::types::*;
use vh::*;

thread_local! { static NODES: RefCell<Vec<Node>> = RefCell::new(Vec::new()); }

fn with<T, F: FnOnce(&mut Vec<Node>) -> T>(f: F) -> T {
    NODES.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_empty() { *n = nodes() }
        f(&mut n)
    })
}

/// Put a question to every configuration, and to this one.
fn ask(op: &str, args: &[&[u8]]) -> Vec<Out> {
    with(|nodes| {
        for n in nodes.iter_mut() { n.ask(op, args) }
        let owned: Vec<Vec<u8>> = args.iter().map(|a| a.to_vec()).collect();
        let mut all = vec![match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(op, &owned))) {
            Ok(Some(b)) => Out::Some(b), Ok(None) => Out::None, Err(_) => Out::Panic }];
        for n in nodes.iter_mut() { all.push(n.answer()) }
        all
    })
}

fn names() -> Vec<String> { with(|n| std::iter::once("std u64 nightly".to_string()).chain(n.iter().map(|n| n.name.clone())).collect()) }

fn show(op: &str, args: &[&[u8]], all: &[Out]) -> String {
    let a: Vec<String> = args.iter().map(|a| hex(a)).collect();
    let o: Vec<String> = names().iter().zip(all).map(|(n, o)| format!("{}: {}", n, match o {
        Out::Some(b) => hex(b), Out::None => "refused".to_string(), Out::Panic => "panic".to_string() })).collect();
    format!("{} {}: {}", op, a.join(" "), o.join("; "))
}

/// Ask, and compare the answers up to `determined` bytes.
fn agree(ctx: &Ctx, class: &str, op: &str, args: &[&[u8]], determined: usize) -> Vec<Out> {
    let all = ask(op, args);
    ctx.evals(class, all.len() as u64);
    ctx.seen(op, &args.concat());
    let cut = |o: &Out| match o { Out::Some(b) => Out::Some(b[..b.len().min(determined)].to_vec()), x => x.clone() };
    let len = |o: &Out| match o { Out::Some(b) => b.len(), _ => 0 };
    if all.iter().any(|o| cut(o) != cut(&all[0]) || len(o) != len(&all[0])) {
        ctx.violation("configurations-differ", show(op, args, &all));
    }
    ctx.sample(op, || show(op, args, &all).chars().take(600).collect());
    all
}

fn value(ctx: &Ctx, op: &str, args: &[&[u8]], o: &Out) -> Option<Vec<u8>> {
    match o {
        Out::Some(b) => Some(b.clone()),
        _ => { ctx.violation("honest-refused", format!("{} {}", op, args.iter().map(|a| hex(a)).collect::<Vec<_>>().join(" "))); None }
    }
}

fn refs(a: &[Vec<u8>]) -> Vec<&[u8]> { a.iter().map(|x| &x[..]).collect() }

fn main() {
    let ctx = Ctx::new("C26");
    let configurations = nodes().len() + 1;
    ctx.evals("configurations", configurations as u64);
    const ALL: usize = usize::max_value();

    // The operations, on honest and altered objects; what they make is used in every other configuration.
    ctx.par("operations", ctx.n(96), move |case, rng| {
        let (o, other) = (Objects::new(rng), Objects::new(rng));
        for f in 0..FNS.len() {
            for round in 0..4 {
                let mut a = vec![vec![f as u8]];
                a.extend(o.args(f));
                if round > 0 {
                    let i = rng.next_u32() as usize % FNS[f].1.len();
                    alter(rng, FNS[f].1[i], &mut a[i + 1], &other, true);
                }
                let all = agree(ctx, if round == 0 { "operations on honest objects" } else { "operations on altered objects" }, "op", &refs(&a), determined(f, ALL));
                if round == 0 && f != 11 {
                    ctx.check(all[0] != Out::None && all[0] != Out::Panic, "honest-refused", || show("op", &refs(&a), &all));
                }
                // Which configuration made it must not matter.
                if (f == 4 || f == 8) && round < 2 {
                    for (made, b) in all.iter().enumerate().filter(|(m, _)| (*m as u64 + case) % 2 == 0) {
                        if let Out::Some(b) = b {
                            let q: Vec<Vec<u8>> = if f == 4 {
                                vec![vec![7], a[2].clone(), o.0[K::Params as usize].clone(), o.0[K::Ip as usize].clone(), b.clone()]
                            } else {
                                vec![vec![5], o.0[K::Issuer as usize].clone(), b.clone()]
                            };
                            let r = agree(ctx, "made by one configuration, used by all", "op", &refs(&q), ALL);
                            if round == 0 {
                                ctx.check(r[0] != Out::None, "honest-refused", || format!("made by {}: {}", names()[made], show("op", &refs(&q), &r)));
                            }
                            if f == 8 && r[0] != Out::None {
                                let q = vec![vec![6], o.0[K::Issuer as usize].clone(), b.clone()];
                                agree(ctx, "made by one configuration, used by all", "op", &refs(&q), ALL);
                            }
                        }
                    }
                }
            }
        }
    });

    // A run of the protocol in which every step is done by some configuration.
    ctx.par("mixed", ctx.n(200), move |_, rng| {
        let mut seed = || { let mut s = vec![0u8; 32]; rng.fill_bytes(&mut s); s };
        let (s0, s1, s2, s3, s4) = (seed(), seed(), seed(), seed(), seed());
        let n = number(rng);
        let mut path = Vec::new();
        let mut step = |f: u8, args: &[&[u8]]| -> Option<Vec<u8>> {
            let mut a: Vec<&[u8]> = vec![std::slice::from_ref(&f)];
            a.extend(args);
            let (name, o) = with(|nodes| {
                let i = rng.next_u32() as usize % nodes.len();
                (nodes[i].name.clone(), nodes[i].call("op", &a))
            });
            path.push(name);
            ctx.eval("steps of mixed runs");
            value(ctx, &format!("mixed run: {}: op", path.join(", ")), &a, &o)
        };
        let mut run = || -> Option<()> {
            let p = step(0, &[&s0])?;
            let k = step(1, &[&p, &s1])?;
            let i = step(2, &[&p, &k])?;
            let ip = step(3, &[&i])?;
            let c = step(4, &[&i, &n, &s2])?;
            let u = step(7, &[&n, &p, &ip, &c])?;
            let e = step(9, &[&n, &p, &s3])?;
            let s = step(8, &[&u, &e, &s4])?;
            let v = step(5, &[&i, &s])?;
            let m = step(6, &[&i, &v])?;
            let b = step(10, &[&e])?;
            let o = step(11, &[&e, &n, &p])?;
            ctx.check(m == b && o == [1], "mixed-run", || "membership".to_string());
            Some(())
        };
        run();
        ctx.seen("mixed", path.join(",").as_bytes());
    });

    // Every decoder and writer.
    ctx.par("decoders", ctx.n(10), move |_, rng| {
        let all: Vec<(u8, Kind)> = kinds().into_iter().enumerate().map(|(i, k)| (i as u8, k)).collect();
        for (name, b) in values(rng) {
            let (i, k) = all.iter().find(|(_, k)| k.name == name).expect("HARNESS: kind");
            let i = std::slice::from_ref(i);
            agree(ctx, "valid encodings", "decode", &[i, &b], ALL);
            for (write, read) in &[("bincode-of", "from-bincode"), ("json-of", "from-json")] {
                let w = agree(ctx, "values written", write, &[i, &b], ALL);
                if let Out::Some(w) = &w[0] {
                    agree(ctx, "values read", read, &[i, w], ALL);
                    let mut x = w.clone();
                    let at = rng.next_u32() as usize % x.len();
                    x[at] ^= 1 << (rng.next_u32() % 7);
                    // Claimed lengths are kept from being enormous: memory is what C13 is about.
                    if *read == "from-json" || (x[..8.min(x.len())] == w[..8.min(w.len())] && !k.name.ends_with("Proof")) {
                        agree(ctx, "altered values read", read, &[i, &x], ALL);
                    }
                }
            }
            for _ in 0..4 {
                let mut x = b.clone();
                if x.is_empty() { continue }
                let at = rng.next_u32() as usize % x.len();
                match rng.next_u32() % 5 {
                    0 => { x.truncate(at) }
                    1 => { x.push(0) }
                    2 => { let at = at / 32 * 32; for y in x[at..].iter_mut().take(32) { *y = rng.next_u32() as u8 } }
                    3 => { let at = at / 32 * 32; for y in x[at..].iter_mut().take(32) { *y = 0xff } }
                    _ => { x[at] ^= 1 << (rng.next_u32() % 8) }
                }
                agree(ctx, "altered encodings", "decode", &[i, &x], ALL);
            }
        }
    });

    // Proofs: made by each, verified by all.
    ctx.par("proofs", ctx.n(24), move |_, rng| {
        for (kind, s) in specs().iter().enumerate() {
            let k = [kind as u8];
            let secrets: Vec<Scalar> = s.secrets.iter().map(|_| special(rng)).collect();
            let d = s.statement(rng, &secrets, &[], None);
            let cat = |d: &[Scalar]| -> Vec<u8> { points(d).iter().flat_map(|p| enc(p).to_vec()).collect() };
            let p = cat(&d);
            let sb: Vec<u8> = secrets.iter().flat_map(|x| x.to_bytes().to_vec()).collect();
            let made = agree(ctx, "proofs made", "prove", &[&k, &p, &sb], 8);
            let mut false_d = d.clone();
            let i = rng.next_u32() as usize % d.len();
            false_d[i] += Scalar::one();
            for (m, proof) in made.iter().enumerate() {
                let proof = match proof { Out::Some(b) => b, _ => { ctx.violation("honest-refused", show("prove", &[&k, &p, &sb], &made)); continue } };
                let r = agree(ctx, "proofs verified", "verify", &[&k, &[0], &p, proof], ALL);
                ctx.check(r[0] == Out::Some(vec![1]), "honest-refused", || format!("made by {}: {}", names()[m], show("verify", &[&k, &[0], &p, proof], &r)));
                agree(ctx, "proofs verified", "verify", &[&k, &[1], &p, proof], ALL);
                agree(ctx, "proofs verified", "verify", &[&k, &[0], &cat(&false_d), proof], ALL);
                let mut x = proof.clone();
                let at = 40 * (rng.next_u32() as usize % (x.len() / 40)) + 8 + rng.next_u32() as usize % 32;
                x[at] ^= 1 << (rng.next_u32() % 8);
                agree(ctx, "proofs verified", "verify", &[&k, &[0], &p, &x], ALL);
            }
        }
    });

    // The primitives.
    ctx.par("primitives", ctx.n(300), move |_, rng| {
        let mut seed = vec![0u8; 32];
        rng.fill_bytes(&mut seed);
        let class = "primitives";
        let some = |o: &Vec<Out>| match &o[0] { Out::Some(b) => b.clone(), _ => Vec::new() };
        let n = rng.next_u32() as u8 % 7;
        let key = some(&agree(ctx, class, "mac-key", &[&[n], &seed], ALL));
        let (h, v) = (enc(&rpoint(rng)), if rng.next_u32() % 4 == 0 { [0u8; 32] } else { enc(&rpoint(rng)) });
        agree(ctx, class, "mac-public", &[&key, &h], ALL);
        let m: Vec<u8> = (0..n).flat_map(|_| special(rng).to_bytes().to_vec()).collect();
        let tag = some(&agree(ctx, class, "mac", &[&key, &m, &seed], ALL));
        if !tag.is_empty() {
            let r = agree(ctx, class, "mac-verify", &[&key, &m, &tag], ALL);
            ctx.check(r[0] == Out::Some(vec![1]), "honest-refused", || show("mac-verify", &[&key, &m, &tag], &r));
            let t2 = some(&agree(ctx, class, "mac-rerandomise", &[&tag, &seed], ALL));
            agree(ctx, class, "mac-verify", &[&key, &m, &t2], ALL);
            if !m.is_empty() {
                let mut m2 = m.clone();
                let at = 32 * (rng.next_u32() as usize % n as usize);
                m2[at..at + 32].copy_from_slice(special(rng).as_bytes());
                agree(ctx, class, "mac-verify", &[&key, &m2, &tag], ALL);
            }
            let mut t = tag.clone();
            t[..32].copy_from_slice(&v);
            agree(ctx, class, "mac-verify", &[&key, &m, &t], ALL);
        }
        let (z, z2) = (special(rng), special(rng));
        let c = some(&agree(ctx, class, "commit", &[&v, z.as_bytes(), &h], ALL));
        agree(ctx, class, "commit-open", &[&v, z.as_bytes(), &h, &c], ALL);
        agree(ctx, class, "commit-open", &[&v, z2.as_bytes(), &h, &c], ALL);
        let kp = some(&agree(ctx, class, "elgamal-key", &[&seed], ALL));
        if kp.len() == 64 {
            let e = some(&agree(ctx, class, "encrypt", &[&kp[32..], z.as_bytes(), z2.as_bytes()], ALL));
            if e.len() == 64 { agree(ctx, class, "decrypt", &[&kp[..32], &e[..32], &e[32..]], ALL); }
        }
        agree(ctx, class, "ephemeral", &[&seed], ALL);
        let len = rng.next_u32() as usize % 30;
        let num = if rng.next_u32() % 2 == 0 { digits(rng, len) } else { let mut x = vec![0u8; len]; rng.fill_bytes(&mut x); x };
        let p = some(&agree(ctx, class, "number-of-bytes", &[&num], ALL));
        agree(ctx, class, "string-of-number", &[&p], ALL);
        let s: String = num.iter().map(|d| if *d < 10 { (b'0' + d) as char } else { (*d % 128) as char }).collect();
        agree(ctx, class, "number-of-string", &[s.as_bytes()], ALL);
        agree(ctx, class, "string-of-number", &[Scalar::random(rng).as_bytes()], ALL);
    });

    ctx.finish("the same question to every configuration, about honest, altered and random objects, and what one made \
        given to the others; distinct: questions by operation and arguments");
}
