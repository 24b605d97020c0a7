//! C10: phone number encoding is injective and reversible.
use std::collections::HashMap;
use std::sync::Mutex;
use vh::proto::*;
use vh::*;

type Map = Mutex<HashMap<[u8; 32], Vec<u8>>>;

fn text(n: &[u8]) -> String {
    n.iter().map(|d| (b'0' + d) as char).collect()
}

/// Encode a number in both forms, and convert it back.
fn one(ctx: &Ctx, maps: &[Map], n: &[u8]) {
    let s = text(n);
    let a = ctx.panics(|| PhoneNumber::try_from_string(&s));
    let b = ctx.panics(|| PhoneNumber::try_from_bytes(n));
    let (a, b) = match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
        (a, b) => {
            ctx.violation("number-refused", format!("{}: as a string {:?}, as bytes {:?}", s, a.map(|x| x.is_ok()), b.map(|x| x.is_ok())));
            return;
        }
    };
    ctx.check(a == b && a.0 == b.0 && a.to_bytes() == b.to_bytes(), "forms-differ", || format!("{}: {:?} {:?}", s, a, b));
    let bytes = a.to_bytes();
    let mut key = [0u8; 32];
    key.copy_from_slice(&bytes);
    {
        let mut m = maps[key[2] as usize * 16 % maps.len() + key[3] as usize % 16].lock().unwrap();
        let old = m.insert(key, n.to_vec());
        if let Some(old) = old {
            ctx.check(old[..] == *n, "collision", || format!("{} and {} are both {}", text(&old), s, hex(&key)));
        }
    }
    let back = ctx.panics(|| String::from(a.clone()));
    ctx.check(back == Ok(s.clone()), "not-reversible", || format!("{} becomes {:?}", s, back));
    let c = PhoneNumber::from_bytes(&bytes).ok();
    ctx.check(c.as_ref() == Some(&a), "not-reversible", || format!("{}: its encoding {} is not read back", s, hex(&bytes)));
}

fn nothing_panics(ctx: &Ctx, s: &str, b: &[u8]) {
    ctx.evals("arbitrary inputs", 2);
    ctx.seen("arbitrary", s.as_bytes());
    ctx.seen("arbitrary", b);
    let st = s.to_string();
    for (what, r) in &[("string", ctx.panics(|| PhoneNumber::try_from_string(&st).ok())), ("bytes", ctx.panics(|| PhoneNumber::try_from_bytes(b).ok()))] {
        match r {
            Err(e) => ctx.violation("panic", format!("{} {:?} / {}: {}", what, s, hex(b), e)),
            Ok(Some(p)) => {
                let r = ctx.panics(|| String::from(p.clone()));
                ctx.check(r.is_ok(), "panic", || format!("converting {:?} to a string: {:?}", p, r));
                ctx.eval("arbitrary values accepted");
            }
            Ok(None) => {}
        }
    }
}

fn main() {
    let ctx = Ctx::new("C10");
    let maps: &'static [Map] = Box::leak((0..256).map(|_| Mutex::new(HashMap::new())).collect::<Vec<_>>().into_boxed_slice());

    // Every number of up to 5 (6) digits.
    let top = if ctx.thorough { 6 } else { 5 };
    for len in 1..=top {
        let total = 10usize.pow(len as u32);
        let chunk = 5000.min(total);
        let phase: &'static str = Box::leak(format!("all-{}", len).into_boxed_str());
        ctx.par(phase, total / chunk, move |case, _| {
            for i in 0..chunk {
                let mut x = case as usize * chunk + i;
                let mut n = vec![0u8; len];
                for j in (0..len).rev() { n[j] = (x % 10) as u8; x /= 10; }
                ctx.eval("numbers (all of the short ones)");
                if i % 100 == 0 { ctx.seen("number", &n); }
                one(ctx, maps, &n);
            }
        });
    }

    // Longer ones, with all their near neighbours.
    ctx.par("neighbours", ctx.n(2000), move |case, rng| {
        let len = 1 + case as usize % 26;
        let mut n = digits(rng, len);
        match case / 26 % 6 { 0 => n.iter_mut().for_each(|x| *x = 0), 1 => n.iter_mut().for_each(|x| *x = 9), 2 => n[0] = 0, 3 => n[len - 1] = 0, _ => {} }
        ctx.sample("number", || text(&n));
        let mut all = vec![n.clone()];
        for i in 0..len {
            let mut m = n.clone(); m[i] = (m[i] + 1 + (rng.next_u32() % 9) as u8) % 10; all.push(m);
            let mut m = n.clone(); m.remove(i); all.push(m);
            for d in &[0u8, 1, 9] { let mut m = n.clone(); m.insert(i, *d); all.push(m); }
            if i > 0 { let mut m = n.clone(); m.swap(i - 1, i); all.push(m); }
        }
        for k in 1..=(26 - len) { let mut m = vec![0u8; k]; m.extend(&n); all.push(m); let mut m = n.clone(); m.extend(vec![0u8; k]); all.push(m); }
        let mut m = n.clone(); m.reverse(); all.push(m);
        // as the length, or the ends, of another number would be encoded
        for d in 1..10u8 { let mut m = n.clone(); m.push(d); all.push(m); }
        for m in all {
            if m.is_empty() || m.len() > 26 { continue; }
            ctx.eval("numbers (near others)");
            ctx.seen("number", &m);
            one(ctx, maps, &m);
        }
    });

    // What is too short or too long.
    ctx.par("lengths", 120, move |case, rng| {
        let len = if case == 0 { 0 } else { 26 + case as usize + if case > 100 { 1000 * (case as usize - 100) } else { 0 } };
        let w = World::new(rng);
        for k in 0..4 {
            let n = match k { 0 => vec![0; len], 1 => vec![9; len], _ => digits(rng, len) };
            let s = text(&n);
            ctx.evals("numbers of a wrong length", 6);
            ctx.seen("wrong length", &n);
            let u = ctx.panics(|| SignalUser::new(w.params, w.ip.clone(), None, &n).is_ok());
            let i = ctx.panics(|| w.issuer.issue(&n, &mut rng.clone()).is_ok());
            let e = ctx.panics(|| RosterEntryCommitment::create(&n, &w.params, &mut rng.clone()).is_ok());
            let o = { let en = w.entry(&[1], rng); ctx.panics(|| en.open(&n, &w.params).is_ok()) };
            let a = ctx.panics(|| PhoneNumber::try_from_string(&s).is_ok());
            let b = ctx.panics(|| PhoneNumber::try_from_bytes(&n).is_ok());
            let all = [a, b, u, i, e, o];
            ctx.check(all.iter().all(|r| *r == Ok(false)), "wrong-length-accepted", || format!("{} digits: string, bytes, user, issue, entry, open: {:?}", len, all));
        }
    });

    // The same number through the protocol.
    ctx.par("uses", ctx.n(300), move |case, rng| {
        let mut n = number(rng);
        n.resize(1 + case as usize % 26, 3);
        let w = World::new(rng);
        let p = PhoneNumber::try_from_string(&text(&n)).expect("a number");
        ctx.eval("numbers given to users, issuers and entries");
        ctx.seen("used", &n);
        let u = w.user(&n);
        ctx.check(u.phone_number == p, "forms-differ", || text(&n));
        let i = w.issuer.issue(&n, rng).expect("issue");
        ctx.check(i.credential.attributes.len() == 1 && i.credential.attributes[0] == p.0, "forms-differ", || text(&n));
        let e = w.entry(&n, rng);
        ctx.check(e.commitment.open(&p, &e.opening, &w.params.g, &w.params.h).is_ok(), "forms-differ", || text(&n));
        ctx.check(String::from(PhoneNumber(i.credential.attributes[0])) == text(&n), "not-reversible", || text(&n));
    });

    // Anything at all.
    ctx.par("arbitrary", ctx.n(1000), move |_, rng| {
        for _ in 0..20 {
            let len = match rng.next_u32() % 4 { 0 => 26, 1 => rng.next_u32() as usize % 400, _ => rng.next_u32() as usize % 30 };
            let mut s = String::new();
            while s.len() < len {
                let c = match rng.next_u32() % 8 {
                    0 => std::char::from_u32(rng.next_u32() % 0x11_0000).unwrap_or('\u{fffd}'),
                    1 => (rng.next_u32() % 128) as u8 as char,
                    2 => ['\u{0660}', '+', ' ', '-', '\0', '\u{ff11}', '\u{1d7ce}'][rng.next_u32() as usize % 7],
                    _ => (b'0' + (rng.next_u32() % 10) as u8) as char,
                };
                s.push(c);
            }
            let mut b = vec![0u8; len];
            rng.fill_bytes(&mut b);
            if rng.next_u32() % 2 == 0 { b.iter_mut().for_each(|x| *x %= 17); }
            nothing_panics(ctx, &s, &b);
        }
        let len = rng.next_u32() as usize % 30;
        for x in 0..=255u8 { nothing_panics(ctx, &String::from_utf8_lossy(&[x]), &vec![x; len]); }
    });

    // Every decodable value: each place of the last byte, with each value of it, over different contents.
    ctx.par("values", 32 * ctx.n(8), move |case, rng| {
        let place = case as usize % 32;
        for v in 0..=255u8 {
            let mut b = [0u8; 32];
            rng.fill_bytes(&mut b[..place]);
            match rng.next_u32() % 4 { 0 => b.iter_mut().for_each(|x| *x %= 10), 1 => b.iter_mut().for_each(|x| *x = 0), _ => {} }
            b[place] = v;
            let p = match PhoneNumber::from_bytes(&b) { Ok(p) => p, Err(_) => continue };
            ctx.eval("decoded values converted to strings");
            ctx.seen("value", &b);
            let r = ctx.panics(|| String::from(p.clone()));
            ctx.check(r.is_ok(), "panic", || format!("converting {} to a string: {:?}", hex(&b), r));
        }
        for _ in 0..20 {
            let p = PhoneNumber(special(rng));
            ctx.eval("decoded values converted to strings");
            let r = ctx.panics(|| String::from(p.clone()));
            ctx.check(r.is_ok(), "panic", || format!("converting {:?} to a string: {:?}", p, r));
        }
    });
    ctx.single("enough", |_| {
        let total: usize = maps.iter().map(|m| m.lock().unwrap().len()).sum();
        ctx.evals("different encodings in the collision monitor", total as u64);
        if total < 100_000 { ctx.harness_error(format!("only {} encodings seen", total)); }
    });
    ctx.finish("all numbers of up to 5 digits (6 in a thorough run), neighbourhoods of longer ones, wrong lengths, arbitrary strings and bytes, and values by the place and value of their last byte; distinct by input");
}
