//! C22: the JavaScript interface does exactly what the library does.
//!
//! The interface is compiled for this machine with its own backend (32-bit); a stand-in for wasm-bindgen carries values as
//! JSON text, which is how the real one carries them.
use credential::js;
use rand_core::RngCore;
use serde_json::{json, Value};
use vh::capi::K::*;
use vh::capi::K;
use vh::ops::*;
use vh::proto::*;
use vh::*;
use wasm_bindgen::JsValue;

/// The functions, the operation of `ops` each stands for, and the kinds of its arguments.
const JS: [(&str, usize, &[K]); 9] = [
    ("system_parameters_create", 0, &[Seed]),
    ("issuer_create", 1, &[Params, Seed]),
    ("issuer_new", 2, &[Params, Keypair]),
    ("issuer_get_issuer_parameters", 3, &[Issuer]),
    ("issuer_issue", 4, &[Issuer, Number, Seed]),
    ("issuer_verify", 5, &[Issuer, Presentation]),
    ("issuer_verify_roster_membership", 6, &[Issuer, Verified]),
    ("user_obtain_finish", 7, &[Number, Params, Ip, Issuance]),
    ("user_show", 8, &[User, Entry, Seed]),
];

/// An argument: bytes (for seeds and numbers), or a JavaScript value.
#[derive(Clone, Debug)]
enum Arg { Bytes(Vec<u8>), Js(JsValue) }

fn is_bytes(k: K) -> bool { k == Seed || k == Number }

fn js_of(b: &[u8]) -> JsValue { JsValue::from_text(&serde_json::to_string(b).unwrap()) }

fn arg(k: K, b: &[u8]) -> Arg { if is_bytes(k) { Arg::Bytes(b.to_vec()) } else { Arg::Js(js_of(b)) } }

fn call(f: usize, a: &[Arg]) -> JsValue {
    let b = |i: usize| match a[i] { Arg::Bytes(ref b) => &b[..], _ => panic!("HARNESS: bytes") };
    let j = |i: usize| match a[i] { Arg::Js(ref v) => v.clone(), _ => panic!("HARNESS: a value") };
    match f {
        0 => js::system_parameters_create(b(0)),
        1 => js::issuer_create(j(0), b(1)),
        2 => js::issuer_new(j(0), j(1)),
        3 => js::issuer_get_issuer_parameters(j(0)),
        4 => js::issuer_issue(j(0), b(1), b(2)),
        5 => js::issuer_verify(j(0), j(1)),
        6 => js::issuer_verify_roster_membership(j(0), j(1)),
        7 => js::user_obtain_finish(b(0), j(1), j(2), j(3)),
        _ => js::user_show(j(0), j(1), b(2)),
    }
}

/// The bytes a JSON text stands for, if it is a list of bytes, whoever wrote it.
fn bytes_of(v: &JsValue) -> Option<Vec<u8>> {
    let v: Value = serde_json::from_str(v.text()).ok()?;
    v.as_array()?.iter().map(|x| x.as_u64().and_then(|x| if x < 256 { Some(x as u8) } else { None })).collect()
}

/// What the function should return: `None` for 0.
fn expected(f: usize, a: &[Arg]) -> Option<Vec<u8>> {
    let mut bytes = Vec::new();
    for (k, x) in JS[f].2.iter().zip(a) {
        let b = match x { Arg::Bytes(b) => b.clone(), Arg::Js(v) => bytes_of(v)? };
        if *k == Seed && b.len() != 32 { return None; }
        bytes.push(b);
    }
    lib_call(JS[f].1, &bytes)
}

fn show(a: &[Arg]) -> String {
    a.iter().map(|x| match x {
        Arg::Bytes(b) => hex(b),
        Arg::Js(v) => match bytes_of(v) { Some(b) => format!("[{}]", hex(&b)), None => v.text().chars().take(300).collect() },
    }).collect::<Vec<_>>().join(" ")
}

fn compare(ctx: &Ctx, f: usize, a: &[Arg], what: &str) -> Option<Vec<u8>> {
    let about = || format!("{} ({}) {}", JS[f].0, what, show(a));
    let want = ctx.guarded("the library", || expected(f, a))?;
    let got = match ctx.panics(|| call(f, a)) {
        Ok(x) => x,
        Err(e) => { ctx.violation("panic", format!("{}: {}", about(), e)); return None; }
    };
    ctx.eval(&format!("{} {}", JS[f].0, if want.is_some() { "succeeds" } else { "fails" }));
    ctx.seen(JS[f].0, show(a).as_bytes());
    match want {
        None => {
            ctx.check(got == JsValue::from(0), "success", || format!("{} instead of 0 from {}", got.text().chars().take(2000).collect::<String>(), about()));
            None
        }
        Some(w) => {
            if got == JsValue::from(0) {
                ctx.violation("failure", format!("0 instead of {} from {}", hex(&w), about()));
                return None;
            }
            let g = match bytes_of(&got) {
                Some(g) => g,
                None => { ctx.violation("form", format!("{} from {}", got.text().chars().take(500).collect::<String>(), about())); return None; }
            };
            let d = determined(JS[f].1, w.len());
            ctx.check(g.len() == w.len() && g[..d] == w[..d], "differs", || format!("{} and from the library {}: {}", hex(&g), hex(&w), about()));
            if d < w.len() {
                ctx.check(w[d..] != g[d..], "proof-repeats", about);
            }
            Some(g)
        }
    }
}

fn args(o: &Objects, f: usize) -> Vec<Arg> {
    JS[f].2.iter().map(|k| arg(*k, &o.0[*k as usize])).collect()
}

/// A value no decoder should take, or one near a valid one, in JSON.
fn malformed<R: RngCore>(rng: &mut R, b: &[u8]) -> JsValue {
    let n = b.len().max(1);
    let i = rng.next_u32() as usize % n;
    let mut list: Vec<Value> = b.iter().map(|x| json!(x)).collect();
    let put = |list: &mut Vec<Value>, v: Value| { if i < list.len() { list[i] = v; } else { list.push(v); } };
    let v = match rng.next_u32() % 26 {
        0 => return JsValue::undefined(),
        1 => Value::Null,
        2 => json!(0),
        3 => json!(1),
        4 => json!(true),
        5 => json!(""),
        6 => json!(hex(b)),
        7 => json!(b.iter().map(|x| *x as char).collect::<String>()),
        8 => json!([]),
        9 => json!({}),
        10 => { put(&mut list, json!(256)); json!(list) }
        11 => { put(&mut list, json!(-1)); json!(list) }
        12 => { put(&mut list, json!(1.5)); json!(list) }
        13 => { put(&mut list, json!("1")); json!(list) }
        14 => { put(&mut list, Value::Null); json!(list) }
        15 => { let x = b.get(i).cloned().unwrap_or(0); put(&mut list, json!([x])); json!(list) }
        16 => { list.truncate(i); json!(list) }
        17 => { for _ in 0..1 + rng.next_u32() % 40 { list.push(json!(0)); } json!(list) }
        18 => json!([list]),
        19 => json!({"0": list}),
        20 => Value::Object(b.iter().enumerate().map(|(i, x)| (i.to_string(), json!(x))).collect()),
        21 => { let x = u64::from(b.get(i).cloned().unwrap_or(0)); put(&mut list, json!(x + 256)); json!(list) }
        22 => { let x = u64::from(b.get(i).cloned().unwrap_or(0)); put(&mut list, json!(x + (1u64 << 32))); json!(list) }
        23 => json!(vec![0u8; rng.next_u32() as usize % 20000]),
        24 => { // deep
            let depth = rng.next_u32() as usize % 400;
            return JsValue::from_text(&format!("{}{}", "[".repeat(depth), "]".repeat(depth)));
        }
        _ => json!({"bytes": list, "x": 1}),
    };
    JsValue::from_text(&v.to_string())
}

/// For `js/c22.js`: each line on the standard input is a question, answered by a line in another file.
/// (The library writes to the standard output itself.)
fn serve(to: &str) {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let mut out = std::fs::OpenOptions::new().write(true).open(to).expect("HARNESS: answers");
    for line in stdin.lock().lines() {
        let q: Value = serde_json::from_str(&line.expect("HARNESS: a line")).expect("HARNESS: a question");
        let list = |v: &Value| v.as_array().expect("HARNESS: bytes").iter().map(|x| x.as_u64().expect("HARNESS: a byte") as u8).collect::<Vec<u8>>();
        let args = || q["a"].as_array().expect("HARNESS: arguments").iter().map(|a| match a.get("b") {
            Some(b) => Arg::Bytes(list(b)),
            None => Arg::Js(JsValue::from_text(a["j"].as_str().expect("HARNESS: a text"))),
        }).collect::<Vec<_>>();
        let f = q["f"].as_u64().unwrap_or(0) as usize;
        let reply = match q["q"].as_str() {
            Some("call") => {
                let a = args();
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(f, &a).text().to_string())) {
                    Ok(text) => json!({"text": text}),
                    Err(_) => json!({"panic": true}),
                }
            }
            Some("expect") => match expected(f, &args()) {
                Some(w) => json!({"det": determined(JS[f].1, w.len()), "want": w}),
                None => json!({"want": Value::Null}),
            },
            _ => match JsValue::from_text(q["params"].as_str().unwrap()).into_serde::<SystemParameters>() {
                Ok(p) => {
                    let e = RosterEntryCommitment::create(&list(&q["n"]), &p, &mut seeded(&list(&q["seed"]))).expect("HARNESS: an entry");
                    json!({"entry": serde_json::to_value(&e).unwrap(), "commitment": serde_json::to_value(&e.commitment).unwrap()})
                }
                Err(_) => json!({}),
            },
        };
        out.write_all(format!("{}\n", reply).as_bytes()).expect("HARNESS: an answer");
    }
}

fn main() {
    if std::env::args().nth(1).map(|a| a == "serve").unwrap_or(false) {
        return serve(&std::env::args().nth(2).expect("HARNESS: where answers go"));
    }
    let ctx = Ctx::new("C22");

    // Honest arguments, each other seed; and the whole protocol through the interface alone.
    ctx.par("honest", ctx.n(120), move |case, rng| {
        let o = Objects::new(rng);
        for f in 0..9 {
            let a = args(&o, f);
            let got = match compare(ctx, f, &a, "honest") { Some(x) => x, None => { ctx.violation("honest-fails", JS[f].0.to_string()); continue } };
            if JS[f].2.contains(&Seed) {
                let mut b = a.clone();
                let bit = (case as usize * 9 + f) % 256;
                if let Some(Arg::Bytes(ref mut s)) = b.last_mut() { s[bit / 8] ^= 1 << (bit % 8); }
                if let Some(other) = compare(ctx, f, &b, "another seed") {
                    ctx.check(other[..determined(JS[f].1, other.len()).min(64)] != got[..determined(JS[f].1, got.len()).min(64)],
                              "seed-ignored", || format!("{} gives the same with bit {} of the seed changed", JS[f].0, bit));
                }
            }
            // Seeds of other lengths.
            for n in [0usize, 1, 31, 33, 64, 256].iter() {
                for (i, k) in JS[f].2.iter().enumerate() {
                    if *k == Seed {
                        let mut b = a.clone();
                        b[i] = Arg::Bytes(vec![7; *n]);
                        compare(ctx, f, &b, "a seed of another length");
                    }
                }
            }
        }
        // What each function returns goes to the next as it is.
        let n = number(rng);
        let mut seed = || Arg::Bytes({ let mut s = vec![0u8; 32]; rng.fill_bytes(&mut s); s });
        let params = call(0, &[seed()]);
        let keypair = call(1, &[Arg::Js(params.clone()), seed()]);
        let issuer = call(2, &[Arg::Js(params.clone()), Arg::Js(keypair)]);
        let ip = call(3, &[Arg::Js(issuer.clone())]);
        let issuance = call(4, &[Arg::Js(issuer.clone()), Arg::Bytes(n.clone()), seed()]);
        let user = call(7, &[Arg::Bytes(n.clone()), Arg::Js(params.clone()), Arg::Js(ip.clone()), Arg::Js(issuance.clone())]);
        let p: SystemParameters = match params.into_serde() { Ok(p) => p, Err(e) => { ctx.violation("not-read-back", format!("parameters: {}", e)); return; } };
        let s = seed();
        let sd = seed();
        let e = RosterEntryCommitment::create(&n, &p, &mut seeded(match s { Arg::Bytes(ref b) => b, _ => unreachable!() })).expect("an entry");
        let entry = JsValue::from_serde(&e).expect("an entry serialises");
        let shown = call(8, &[Arg::Js(user.clone()), Arg::Js(entry), sd]);
        let verified = call(5, &[Arg::Js(issuer.clone()), Arg::Js(shown.clone())]);
        let member = call(6, &[Arg::Js(issuer.clone()), Arg::Js(verified.clone())]);
        ctx.evals("steps of whole runs", 9);
        let commitment = JsValue::from_serde(&e.commitment).expect("a commitment serialises");
        ctx.check(member == commitment, "whole-run", || format!("a whole run ends with {}", member.text().chars().take(300).collect::<String>()));
        // And the library reads it all.
        ctx.check(issuer.into_serde::<SignalIssuer>().is_ok() && ip.into_serde::<IssuerParameters>().is_ok() && user.into_serde::<SignalUser>().is_ok()
                  && issuance.into_serde::<SignalCredentialIssuance>().is_ok() && shown.into_serde::<SignalCredentialPresentation>().is_ok()
                  && verified.into_serde::<VerifiedSignalCredential>().is_ok(), "not-read-back", || "by the library".to_string());
    });

    // Seeds and numbers which are not like random ones.
    ctx.par("odd", ctx.n(26), move |case, rng| {
        let len = case as usize % 26 + 1;
        for n in &odd_numbers(rng, len) {
            let o = Objects::of(Some(n), rng);
            for f in 0..9 {
                if rng.next_u32() % 2 == 0 || JS[f].2.contains(&Number) { compare(ctx, f, &args(&o, f), "an odd number"); }
            }
        }
        let o = Objects::new(rng);
        for (j, s) in odd_seeds(rng).into_iter().enumerate() {
            for f in 0..9 {
                if (j as u64 + case + f as u64) % 3 != 0 { continue; }
                if let Some(i) = JS[f].2.iter().position(|k| *k == Seed) {
                    let mut a = args(&o, f);
                    a[i] = Arg::Bytes(s.clone());
                    compare(ctx, f, &a, "an odd seed");
                }
            }
        }
    });

    // Altered contents, arguments from elsewhere, wrong kinds.
    ctx.par("altered", ctx.n(200), move |_, rng| {
        let o = Objects::new(rng);
        let other = Objects::new(rng);
        for f in 0..9 {
            for (i, k) in JS[f].2.iter().enumerate() {
                for _ in 0..3 {
                    let mut b = o.0[*k as usize].clone();
                    let len_too = rng.next_u32() % 3 == 0;
                    alter(rng, *k, &mut b, &other, len_too);
                    let mut a = args(&o, f);
                    a[i] = arg(*k, &b);
                    compare(ctx, f, &a, "altered");
                }
                let mut a = args(&o, f);
                a[i] = arg(*k, &other.0[*k as usize]);
                compare(ctx, f, &a, "one argument from elsewhere");
                if !is_bytes(*k) {
                    for _ in 0..6 {
                        let mut a = args(&o, f);
                        a[i] = Arg::Js(malformed(rng, &o.0[*k as usize]));
                        compare(ctx, f, &a, "malformed");
                    }
                } else if *k == Number {
                    let over = 256 << (rng.next_u32() % 9);
                    for n in [0usize, 1, 26, 27, 28, 32, 64, 300, 256 + o.0[Number as usize].len(), over + o.0[Number as usize].len()].iter() {
                        let mut a = args(&o, f);
                        let b = digits(rng, *n);
                        // Its start may be the number itself.
                        a[i] = Arg::Bytes(if *n > 255 { o.0[Number as usize].iter().cloned().chain(b[o.0[Number as usize].len()..].iter().cloned()).collect() } else { b });
                        compare(ctx, f, &a, "another number");
                    }
                }
            }
        }
    });

    // Requests that fail for what they say and not for how they are written.
    ctx.par("refused", ctx.n(120), move |_, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let m = other_number(rng, &n);
        let u = w.enrolled(&n, rng);
        let e = w.entry(&m, rng);
        let x = World::with(w.params, rng);
        let js = |b: Vec<u8>| Arg::Js(js_of(&b));
        if let Ok(p) = u.show(rng, &e) {
            let b = p.to_bytes();
            if let Some(v) = compare(ctx, 5, &[js(w.issuer.to_bytes()), js(b.clone())], "an entry for another number") {
                compare(ctx, 6, &[js(w.issuer.to_bytes()), js(v)], "an entry for another number");
            }
            compare(ctx, 5, &[js(x.issuer.to_bytes()), js(b.clone())], "another issuer");
            compare(ctx, 6, &[js(x.issuer.to_bytes()), js(b)], "another issuer");
        }
        let i = w.issuer.issue(&m, rng).expect("honest issuance").to_bytes();
        compare(ctx, 7, &[Arg::Bytes(n.clone()), js(w.params.to_bytes()), js(w.ip.to_bytes()), js(i.clone())], "an issuance for another number");
        compare(ctx, 7, &[Arg::Bytes(m.clone()), js(w.params.to_bytes()), js(x.ip.to_bytes()), js(i)], "another issuer's");
        let none = SignalUser::new(w.params, w.ip.clone(), None, &n).expect("HARNESS: user").to_bytes();
        compare(ctx, 8, &[js(none), js(e.to_bytes()), Arg::Bytes(vec![7; 32])], "no credential");
        let k = rng.next_u32() as usize % 4;
        let sk = amacs::SecretKey::new(k, rng);
        let kp = amacs::Keypair { public: sk.get_public_key(&w.params.h), secret: sk };
        if let Some(ib) = compare(ctx, 2, &[js(w.params.to_bytes()), js(kp.to_bytes())], "a key for another number of attributes") {
            compare(ctx, 3, &[js(ib.clone())], "a key for another number of attributes");
            compare(ctx, 4, &[js(ib), Arg::Bytes(n.clone()), Arg::Bytes(vec![9; 32])], "a key for another number of attributes");
        }
    });

    // Proofs made through the interface are good for the library.
    ctx.par("proofs", ctx.n(80), move |_, rng| {
        let o = Objects::new(rng);
        let issuance = bytes_of(&call(4, &args(&o, 4)));
        let shown = bytes_of(&call(8, &args(&o, 8)));
        ctx.evals("proofs made through the interface checked by the library", 3);
        let i = issuance.and_then(|i| { let mut a = o.args(7); a[3] = i; lib_call(7, &a) });
        ctx.check(i.is_some(), "issuance-not-accepted", || "the library rejects an issuance".to_string());
        let v = shown.and_then(|p| lib_call(5, &[o.0[Issuer as usize].clone(), p]));
        ctx.check(v.is_some(), "presentation-not-accepted", || "the library rejects a presentation".to_string());
        if let Some(v) = v {
            let e = lib_call(6, &[o.0[Issuer as usize].clone(), v]);
            ctx.check(e.as_ref().map(|x| &x[..]) == Some(&o.0[Entry as usize][..32]), "membership-not-accepted", || "the library finds no membership".to_string());
        }
    });
    ctx.sample("compared", || "9 functions; honest, altered, from elsewhere, malformed JSON, seeds and numbers of other lengths".to_string());
    ctx.finish("calls of the 9 JavaScript functions compared with the library on the same arguments; distinct by function and arguments");
}
