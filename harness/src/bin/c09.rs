//! C09: a commitment opens only to the committed value.
#![allow(non_snake_case)]

use vh::proto::*;
use vh::*;

/// Does any part of the opening, in either byte order, stand in `out`?
fn leaks(opening: &[u8], out: &[u8]) -> bool {
    let rev: Vec<u8> = opening.iter().rev().cloned().collect();
    let not: Vec<u8> = opening.iter().map(|x| !x).collect();
    [opening, &rev[..], &not[..]].iter().any(|o| o.windows(4).any(|w| out.windows(4).any(|v| v == w)))
}

fn main() {
    let ctx = Ctx::new("C09");

    // Pedersen commitments, over points with known logarithms.
    ctx.par("pedersen", ctx.n(800), move |_, rng| {
        let (v, n, b) = (special(rng), special(rng), special(rng));
        let (V, N, B) = (v * G, Ephemeral::from(n), b * G);
        let c = pedersen::Commitment::to(&V, &N, &B);
        let c = if rng.next_u32() % 4 == 0 { pedersen::Commitment::from_bytes(&c.to_bytes()).expect("commitment") } else { c };
        ctx.eval("commitments");
        ctx.seen("commitment", &c.to_bytes());
        ctx.sample("commitment", || format!("to {} G with nonce {} on {} G: {}", hex(v.as_bytes()), hex(n.as_bytes()), hex(b.as_bytes()), hex(&c.to_bytes())));
        let p: RistrettoPoint = c.into();
        ctx.check(p == (v + n * b) * G, "wrong-commitment", || format!("v={:?} n={:?} b={:?}", v, n, b));
        let mut opens = |v2: Scalar, n2: Scalar, b2: Scalar, c2: &pedersen::Commitment, x: Scalar| {
            let want = v2 + n2 * b2 == x;
            let got = ctx.panics(|| c2.open(&(v2 * G), &Ephemeral::from(n2), &(b2 * G)).is_ok());
            ctx.eval(if want { "right openings" } else { "wrong openings" });
            ctx.seen("opening", &[v2.as_bytes()[..].to_vec(), n2.as_bytes().to_vec(), b2.as_bytes().to_vec(), c2.to_bytes()].concat());
            ctx.check(got == Ok(want), if want { "right-opening-refused" } else { "wrong-opening-accepted" },
                      || format!("committed to v={:?} n={:?} b={:?}, opened as v={:?} n={:?} b={:?}: {:?}", v, n, b, v2, n2, b2, got));
        };
        let x = v + n * b;
        let d = Scalar::random(rng);
        let one = Scalar::one();
        opens(v, n, b, &c, x);
        for y in &[d, -v, v + one, v - one, Scalar::zero(), n, b, v + b, n * b] { opens(*y, n, b, &c, x); }
        for y in &[d, -n, n + one, n - one, Scalar::zero(), v, b] { opens(v, *y, b, &c, x); }
        for y in &[d, -b, b + one, Scalar::zero(), one, v, n] { opens(v, n, *y, &c, x); }
        opens(n, v, b, &c, x);
        opens(v, b, n, &c, x);
        opens(-v, -n, b, &c, x);
        opens(v, -n, -b, &c, x);
        opens(d, d, b, &c, x);
        // a truly different opening of the same commitment, which only one who knows b can find
        opens(v + d * b, n - d, b, &c, x);
        // another commitment
        for y in &[-x, x + one, Scalar::zero(), x + b, x + x, d] {
            let c2 = pedersen::Commitment::from_bytes(&enc(&(y * G))).expect("commitment");
            opens(v, n, b, &c2, *y);
        }
        // each coset representative of the same value must be the same value
        for t in 0..4 {
            let shifted = RistrettoPoint::from(pedersen::Commitment::from_bytes(&c.to_bytes()).unwrap());
            let c2 = if t == 0 { pedersen::Commitment::from_bytes(&enc(&shifted)).unwrap() } else { pedersen::Commitment::to(&(shifted - t_times(t, &B)), &Ephemeral::from(Scalar::from(t)), &B) };
            opens(v, n, b, &c2, x);
        }
    });

    // Roster entries and committed numbers.
    ctx.par("entries", ctx.n(450), move |case, rng| {
        let (params, h) = known_params(rng);
        let n = number(rng);
        let m = encode(&n);
        let e = if case % 5 == 0 {
            // any scalar may be an opening
            let o = special(rng);
            RosterEntryCommitment { commitment: CommittedPhoneNumber(pedersen::Commitment::from_bytes(&enc(&((m * h + o) * G))).unwrap()), opening: o.into() }
        } else {
            RosterEntryCommitment::create(&n, &params, rng).expect("entry")
        };
        let e = if case % 3 == 0 { RosterEntryCommitment::from_bytes(&e.to_bytes()).expect("entry") } else { e };
        let o = scalar(&e.opening.to_bytes()).expect("HARNESS: opening");
        let x = m * h + o;
        let C: RistrettoPoint = e.commitment.0.into();
        ctx.eval("roster entries");
        ctx.seen("entry", &e.to_bytes());
        ctx.sample("entry", || format!("for {}: {}", fmt_number(&n), hex(&e.to_bytes())));
        ctx.check(C == x * G, "wrong-commitment", || format!("{} for {:?}", hex(&e.to_bytes()), n));
        // The entry without its opening.
        let sans = e.commitment.to_bytes();
        ctx.eval("openings removed");
        ctx.check(sans == &e.to_bytes()[..32], "commitment-changed", || hex(&e.to_bytes()));
        let o_bytes = e.opening.to_bytes();
        if o_bytes[8..].iter().any(|x| *x != 0) {
            ctx.check(!leaks(&o_bytes[..24], &sans), "opening-revealed", || hex(&e.to_bytes()));
        }
        ctx.check(CommittedPhoneNumber::from_bytes(&sans).map(|c| c == e.commitment).unwrap_or(false), "commitment-changed", || hex(&sans));

        let opens = |what: &str, c: &pedersen::Commitment, y: Scalar, n2: &[u8], o2: Scalar, g2: Scalar, h2: Scalar| {
            let want = encode(n2) * h2 + o2 * g2 == y;
            let p2 = SystemParameters { g: g2 * G, h: h2 * G };
            let e2 = RosterEntryCommitment { commitment: CommittedPhoneNumber(*c), opening: o2.into() };
            let a = ctx.panics(|| e2.open(n2, &p2).is_ok());
            let b = ctx.panics(|| e2.commitment.open(&PhoneNumber::try_from_bytes(n2).unwrap(), &o2.into(), &p2.g, &p2.h).is_ok());
            ctx.evals(if want { "right openings" } else { "wrong openings" }, 2);
            ctx.seen("opening", &[what.as_bytes(), n2, o2.as_bytes(), g2.as_bytes(), h2.as_bytes(), &c.to_bytes()].concat());
            ctx.check(a == Ok(want) && b == Ok(want), if want { "right-opening-refused" } else { "wrong-opening-accepted" }, || format!(
                "{}: entry {} for {:?}, opened for {:?} with {} under g={:?} h={:?}: {:?} {:?}", what, hex(&e.to_bytes()), n, n2, hex(o2.as_bytes()), g2, h2, a, b));
        };
        let c = e.commitment.0;
        let one = Scalar::one();
        opens("the right one", &c, x, &n, o, one, h);
        for _ in 0..8 {
            let n2 = other_number(rng, &n);
            opens("another number", &c, x, &n2, o, one, h);
            // with an opening adjusted by someone who knows log_g h
            opens("another number, adjusted", &c, x, &n2, x - encode(&n2) * h, one, h);
        }
        // every digit
        for i in 0..n.len() {
            let mut n2 = n.clone();
            n2[i] = (n2[i] + 1) % 10;
            opens("one digit", &c, x, &n2, o, one, h);
            let mut n2 = n.clone();
            n2.remove(i);
            if !n2.is_empty() && n2 != n { opens("one digit less", &c, x, &n2, o, one, h); }
        }
        // every bit of the opening
        for bit in 0..252 {
            let mut b = o.to_bytes();
            b[bit / 8] ^= 1 << (bit % 8);
            if let Some(o2) = Scalar::from_canonical_bytes(b) { opens("one bit of the opening", &c, x, &n, o2, one, h); }
        }
        for o2 in &[-o, o + one, o - one, Scalar::zero(), m, o + h, o - h, Scalar::random(rng)] { opens("another opening", &c, x, &n, *o2, one, h); }
        let d = Scalar::random(rng);
        for (g2, h2) in &[(one, d), (d, h), (h, one), (-one, h), (one, -h), (-one, -h), (one, h + one), (one + one, h), (h, h), (one, one)] {
            opens("other parameters", &c, x, &n, o, *g2, *h2);
        }
        for y in &[-x, x + one, x + h, Scalar::zero(), m * h, o, m + o * h, d] {
            let c2 = pedersen::Commitment::from_bytes(&enc(&(y * G))).unwrap();
            opens("another commitment", &c2, *y, &n, o, one, h);
        }
        // numbers which are not numbers
        for n2 in &[vec![], vec![1u8; 27], vec![0u8; 300]] {
            ctx.eval("wrong openings");
            let r = ctx.panics(|| e.open(n2, &params).is_ok());
            ctx.check(r == Ok(false), "wrong-opening-accepted", || format!("a number of {} digits: {:?}", n2.len(), r));
            let r = ctx.panics(|| RosterEntryCommitment::create(n2, &params, rng).is_ok());
            ctx.check(r == Ok(false), "bad-number-accepted", || format!("a number of {} digits: {:?}", n2.len(), r));
        }
    });
    ctx.finish("commitments to known multiples of the basepoint, opened rightly and wrongly; distinct by commitment and by attempted opening");
}

fn t_times(t: u64, p: &RistrettoPoint) -> RistrettoPoint {
    Scalar::from(t) * p
}
