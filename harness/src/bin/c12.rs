//! C12: decoding is strict: one byte string per value.
use vh::proto::*;
use vh::types::*;
use vh::*;

/// The order of the group, and the field prime, little-endian.
const ELL: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0x10];
const P: [u8; 32] = [0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f];

fn add(a: &[u8], b: &[u8; 32]) -> Option<[u8; 32]> {
    let mut out = [0u8; 32];
    let mut c = 0u16;
    for i in 0..32 {
        c += a[i] as u16 + b[i] as u16;
        out[i] = c as u8;
        c >>= 8;
    }
    if c == 0 { Some(out) } else { None }
}

fn sub(a: &[u8; 32], b: &[u8]) -> Option<[u8; 32]> {
    let mut out = [0u8; 32];
    let mut c = 0i16;
    for i in 0..32 {
        c += a[i] as i16 - b[i] as i16;
        out[i] = (c & 255) as u8;
        c >>= 8;
    }
    if c == 0 { Some(out) } else { None }
}

/// Other ways to write what stands in a block of 32 bytes, and things which are nothing at all.
fn blocks(b: &[u8], rng: &mut ChaChaRng) -> Vec<(&'static str, [u8; 32])> {
    let mut out = Vec::new();
    let mut x = [0u8; 32];
    x.copy_from_slice(b);
    let mut s = x;
    while let Some(y) = add(&s, &ELL) { out.push(("a multiple of ell added", y)); s = y; }
    let mut s = x;
    while let Some(y) = add(&s, &P) { out.push(("the prime added", y)); s = y; }
    if let Some(y) = sub(&P, &x) { out.push(("the negated field element", y)); }
    if let Some(y) = sub(&ELL, &x) { out.push(("the negated scalar", y)); }
    for bit in 248..256 { let mut y = x; y[bit / 8] ^= 1 << (bit % 8); out.push(("a high bit changed", y)); }
    let mut y = x; y.reverse(); out.push(("reversed", y));
    for (name, v) in &[("ell", ELL), ("the prime", P)] {
        for d in -2i16..=2 { let mut y = *v; y[0] = (y[0] as i16 + d) as u8; out.push((name, y)); }
        if let Some(y) = add(v, v) { out.push((name, y)); }
        let mut y = *v; y[31] |= 0x80; out.push((name, y));
    }
    out.push(("zero", [0u8; 32]));
    out.push(("all ones", [0xff; 32]));
    let mut y = [0u8; 32]; y[0] = 1; out.push(("one", y));
    y[31] = 0x80; out.push(("one and the high bit", y));
    let mut y = [0u8; 32]; y[31] = 0x80; out.push(("minus zero", y));
    let mut y = [0u8; 32]; rng.fill_bytes(&mut y); out.push(("random", y));
    y[31] &= 0x1f; out.push(("random", y));
    out.push(("another point", enc(&rpoint(rng))));
    out.push(("an unusual point", enc(&odd_point(rng).1)));
    out.push(("an unusual scalar", patterned(rng).to_bytes()));
    out.push(("another scalar", Scalar::random(rng).to_bytes()));
    out
}

fn judge(ctx: &Ctx, k: &Kind, what: &str, valid: &[u8], b: &[u8], framed: bool) {
    ctx.eval(what);
    ctx.seen(k.name, b);
    let r = ctx.panics(|| (k.decode)(b));
    let r = match r {
        // a panic is what C13 is about, but it is no decoding either
        Err(e) => { ctx.violation("panic", format!("{} of {}: {}", k.name, hex(b), e)); return; }
        Ok(r) => r,
    };
    if let Some(ref x) = r {
        ctx.eval("accepted");
        ctx.check(x[..] == *b, "accepted-another-encoding", || format!(
            "{}: {} of {}: {} is accepted, but is encoded as {}", k.name, what, hex(valid), hex(b), hex(x)));
        if let Some(n) = k.len { ctx.check(b.len() == n, "accepted-wrong-length", || format!("{}: {}", k.name, hex(b))); }
    } else {
        ctx.eval("rejected");
    }
    if framed {
        let mut v = (b.len() as u64).to_le_bytes().to_vec();
        v.extend(b);
        let s = ctx.panics(|| (k.from_bincode)(&v));
        ctx.check(s == Ok(r.clone()), "serde-differs", || format!("{}: {} of {}: {} through bincode gives {:?}, but from bytes {:?}", k.name, what, hex(valid), hex(b),
            s.as_ref().ok().and_then(|x| x.as_ref()).map(|x| hex(x)), r.as_ref().map(|x| hex(x))));
        if b.len() % 7 == 0 || r.is_some() {
            let j = serde_json::to_string(&b.to_vec()).expect("HARNESS: json");
            let s = ctx.panics(|| (k.from_json)(&j));
            ctx.check(s == Ok(r.clone()), "serde-differs", || format!("{}: {} of {}: {} through JSON gives {:?}, but from bytes {:?}", k.name, what, hex(valid), hex(b),
                s.as_ref().ok().and_then(|x| x.as_ref()).map(|x| hex(x)), r.as_ref().map(|x| hex(x))));
        }
    }
}

fn main() {
    let ctx = Ctx::new("C12");
    ctx.par("mutations", ctx.n(36), move |case, rng| {
        let kinds = kinds();
        let values = values(rng);
        let pool: Vec<Vec<u8>> = values.iter().map(|(_, b)| b.clone()).collect();
        for (i, (name, b)) in values.iter().enumerate() {
            // each case looks at a part of the values only
            if (i as u64 + case) % 4 != 0 { continue; }
            let k = kinds.iter().find(|k| k.name == *name).expect("HARNESS: kind");
            ctx.sample(name, || hex(b));
            let framed = match (k.bincode_of)(b) { Some(f) => f[..8] == (b.len() as u64).to_le_bytes()[..] && f[8..] == b[..], None => { ctx.violation("not-read-back", format!("{} {}", name, hex(b))); continue; } };
            ctx.eval("values");
            judge(ctx, k, "itself", b, b, framed);
            // every bit, or every byte at once
            for bit in 0..8 * b.len() {
                if b.len() > 128 && bit % 4 != (case as usize / 4) % 4 { continue; }
                let mut m = b.clone();
                m[bit / 8] ^= 1 << (bit % 8);
                judge(ctx, k, "one bit changed", b, &m, framed);
            }
            // every block at every place a block may be
            let mut o = 0;
            while o + 32 <= b.len() {
                for (what, y) in blocks(&b[o..o + 32], rng) {
                    let mut m = b.clone();
                    m[o..o + 32].copy_from_slice(&y);
                    judge(ctx, k, what, b, &m, framed);
                }
                o += 8;
            }
            // every prefix of eight bytes
            for o in (0..b.len() / 8).map(|x| 8 * x) {
                for p in &[0u64, 1, 31, 33, 64, 32 + (1 << 8), 32 + (1 << 32), 32 + (1 << 63), u64::max_value(), 40, 160, 200] {
                    let mut m = b.clone();
                    m[o..o + 8].copy_from_slice(&p.to_le_bytes());
                    judge(ctx, k, "eight bytes changed", b, &m, framed);
                }
            }
            // lengths
            for l in 0..b.len() {
                if b.len() > 100 && l % 32 != 0 && l % 8 != case as usize % 8 && b.len() - l > 40 { continue; }
                judge(ctx, k, "bytes missing at the end", b, &b[..l], framed);
                judge(ctx, k, "bytes missing at the start", b, &b[b.len() - l..], framed);
            }
            for extra in 1..=100 {
                let mut m = b.clone();
                m.extend(vec![0u8; extra]);
                judge(ctx, k, "zeros added", b, &m, framed);
                let mut e = vec![0u8; extra];
                rng.fill_bytes(&mut e);
                let mut m = b.clone();
                m.extend(&e);
                judge(ctx, k, "bytes added", b, &m, framed);
                e.extend(b);
                judge(ctx, k, "bytes added at the start", b, &e, framed);
            }
            for other in &pool {
                let mut m = b.clone();
                m.extend(other);
                judge(ctx, k, "another value added", b, &m, framed);
                judge(ctx, k, "another value", b, other, framed);
                for cut in (0..=b.len().min(other.len())).filter(|x| x % 32 == 0) {
                    let mut m = b[..cut].to_vec();
                    m.extend(&other[cut..]);
                    judge(ctx, k, "spliced", b, &m, framed);
                }
            }
            // blocks removed, swapped, doubled, zeroed
            for x in 0..b.len() / 32 {
                let mut m = b.clone(); m.drain(32 * x..32 * x + 32); judge(ctx, k, "a block removed", b, &m, framed);
                let mut m = b.clone(); for y in &mut m[..32 * x] { *y = 0; } judge(ctx, k, "zeroed", b, &m, framed);
                let mut m = b.clone(); for y in &mut m[32 * x..] { *y = 0; } judge(ctx, k, "zeroed", b, &m, framed);
                for y in 0..b.len() / 32 {
                    let mut m = b.clone(); let t = b[32 * x..32 * x + 32].to_vec(); m[32 * y..32 * y + 32].copy_from_slice(&t);
                    judge(ctx, k, "a block copied", b, &m, framed);
                }
            }
            // one more byte in the middle
            for at in (0..b.len()).filter(|x| x % 8 == 0) {
                let mut m = b.clone(); m.insert(at, 0); judge(ctx, k, "a byte inserted", b, &m, framed);
                let mut m = b.clone(); m.remove(at); judge(ctx, k, "a byte removed", b, &m, framed);
            }
        }
    });
    ctx.par("arbitrary", ctx.n(100), move |case, rng| {
        let kinds = kinds();
        for k in &kinds {
            for j in 0..20 {
                let len = match j % 4 { 0 => k.len.unwrap_or(32 * (case as usize % 12)), 1 => 32 * (rng.next_u32() as usize % 16), _ => rng.next_u32() as usize % 520 };
                let mut b = vec![0u8; len];
                match rng.next_u32() % 5 {
                    0 => {}
                    1 => rng.fill_bytes(&mut b),
                    2 => { for c in b.chunks_mut(32) { let s = special(rng).to_bytes(); let n = c.len(); c.copy_from_slice(&s[..n]); } }
                    3 => { for c in b.chunks_mut(32) { let s = enc(&rpoint(rng)); let n = c.len(); c.copy_from_slice(&s[..n]); } }
                    _ => { for c in b.chunks_mut(32) { let s = if rng.next_u32() % 2 == 0 { enc(&rpoint(rng)) } else { special(rng).to_bytes() }; let n = c.len(); c.copy_from_slice(&s[..n]); } }
                }
                let framed = !k.name.ends_with("Proof");
                judge(ctx, k, "arbitrary bytes", &[], &b, framed);
            }
        }
    });
    ctx.finish("valid encodings of all 28 types changed in every bit, block, prefix and length, and arbitrary ones; what decodes is encoded again; distinct by type and bytes");
}
