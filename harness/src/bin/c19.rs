//! C19: system parameters are always two independent generators.
use rand::{CryptoRng, Error};
use vh::proto::*;
use vh::*;

/// A generator whose output is written down, and goes on at random.
struct Script {
    bytes: Vec<u8>,
    at: usize,
    then: ChaChaRng,
    calls: usize,
    limit: usize,
}

impl Script {
    fn take(&mut self, n: usize) -> Vec<u8> {
        while self.bytes.len() < self.at + n {
            let mut b = [0u8; 32];
            self.then.fill_bytes(&mut b);
            self.bytes.extend_from_slice(&b);
        }
        self.at += n;
        self.calls += 1;
        if self.at > self.limit {
            panic!("no end after {} bytes of generator output", self.at);
        }
        self.bytes[self.at - n..self.at].to_vec()
    }
}

impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let b = self.take(4);
        u32::from(b[0]) | u32::from(b[1]) << 8 | u32::from(b[2]) << 16 | u32::from(b[3]) << 24
    }
    fn next_u64(&mut self) -> u64 {
        u64::from(self.next_u32()) | u64::from(self.next_u32()) << 32
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let b = self.take(dest.len());
        dest.copy_from_slice(&b);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for Script {}

fn identity() -> [u8; 32] { [0u8; 32] }

/// The encoding of a point, as an integer, plus the prime of the field, if that fits.
fn plus_p(b: &[u8; 32]) -> Option<[u8; 32]> {
    let p = { let mut p = [0xffu8; 32]; p[0] = 0xed; p[31] = 0x7f; p };
    let mut out = [0u8; 32];
    let mut carry = 0u16;
    for i in 0..32 {
        let x = u16::from(b[i]) + u16::from(p[i]) + carry;
        out[i] = x as u8;
        carry = x >> 8;
    }
    if carry == 0 { Some(out) } else { None }
}

/// A block of generator output, of a kind by name.
fn block(rng: &mut ChaChaRng) -> (&'static str, [u8; 32]) {
    let mut b = [0u8; 32];
    match rng.next_u32() % 16 {
        0 => ("identity", identity()),
        1 => ("basepoint", RISTRETTO_BASEPOINT_COMPRESSED.to_bytes()),
        2 => ("all ones", [0xff; 32]),
        3 => { // the field's prime, and a little more: non-canonical encodings of small numbers, the identity's among them
            b = [0xff; 32];
            b[31] = 0x7f;
            b[0] = 0xed + (rng.next_u32() % 19) as u8;
            ("prime and more", b)
        }
        4 => { // the identity's and small encodings with the top bit
            b[31] = 0x80;
            b[0] = (rng.next_u32() % 4) as u8;
            ("top bit", b)
        }
        5 => { // the negative of the basepoint's encoding
            let bp = RISTRETTO_BASEPOINT_COMPRESSED.to_bytes();
            let mut borrow = 0i32;
            let mut p = [0xffu8; 32];
            p[0] = 0xed;
            p[31] = 0x7f;
            for i in 0..32 {
                let x = i32::from(p[i]) - i32::from(bp[i]) - borrow;
                b[i] = (x & 0xff) as u8;
                borrow = if x < 0 { 1 } else { 0 };
            }
            ("negated basepoint encoding", b)
        }
        6 => { // basepoint with the top bit set
            b = RISTRETTO_BASEPOINT_COMPRESSED.to_bytes();
            b[31] |= 0x80;
            ("basepoint, top bit", b)
        }
        7 => {
            b[0] = (rng.next_u32() % 40) as u8;
            ("small", b)
        }
        8 => { // the basepoint with one bit changed
            b = RISTRETTO_BASEPOINT_COMPRESSED.to_bytes();
            let i = rng.next_u32() as usize % 256;
            b[i / 8] ^= 1 << (i % 8);
            ("basepoint, one bit", b)
        }
        9 => { // a small multiple of the basepoint: a valid encoding like any other
            ("multiple of the basepoint", enc(&(Scalar::from(2 + u64::from(rng.next_u32() % 5)) * G)))
        }
        10 => ("negative of the basepoint", enc(&-G)),
        11 => { // a valid encoding, one bit changed
            b = enc(&rpoint(rng));
            let i = rng.next_u32() as usize % 256;
            b[i / 8] ^= 1 << (i % 8);
            ("valid, one bit", b)
        }
        12 => {
            b = enc(&rpoint(rng));
            match plus_p(&b) { Some(c) => ("valid, plus the prime", c), None => ("valid", b) }
        }
        _ => {
            rng.fill_bytes(&mut b);
            ("random", b)
        }
    }
}

fn good(b: &[u8]) -> bool {
    match dec(b) {
        // Encodings are canonical if they are valid; compare them all the same.
        Some(p) => p != RistrettoPoint::identity() && p != G && enc(&p)[..] == *b,
        None => false,
    }
}

fn generators(p: &SystemParameters) -> bool {
    let i = RistrettoPoint::identity();
    p.g != p.h && p.g != i && p.h != i && enc(&p.g) != enc(&p.h) && enc(&p.g) != identity() && enc(&p.h) != identity()
}

fn judge(ctx: &Ctx, mut s: Script, about: &str) {
    let r = ctx.panics(|| { let p = SystemParameters::hunt_and_peck(&mut s); (p, s) });
    let (p, mut s) = match r {
        Ok(x) => x,
        Err(e) => { ctx.violation("generation-fails", format!("{}: {}", about, e)); return; }
    };
    ctx.eval("generations from a given output");
    while s.bytes.len() < s.at + 64 * 32 {
        let mut b = [0u8; 32];
        s.then.fill_bytes(&mut b);
        s.bytes.extend_from_slice(&b);
    }
    let first = s.bytes.chunks(32).find(|b| b.len() == 32 && good(b));
    ctx.evals("blocks of generator output judged", (s.at / 32) as u64);
    ctx.seen("output", &s.bytes[..s.at.min(4096)]);
    ctx.check(generators(&p), "not-generators", || format!("{}: g {} h {}", about, hex(&enc(&p.g)), hex(&enc(&p.h))));
    ctx.check(enc(&p.g) == RISTRETTO_BASEPOINT_COMPRESSED.to_bytes(), "first-generator", || format!("{}: g {}", about, hex(&enc(&p.g))));
    ctx.check(first.map(|b| enc(&p.h)[..] == *b) == Some(true), "second-generator",
              || format!("{}: h is {} and not {}, the first valid block of the output", about, hex(&enc(&p.h)), hex(first.unwrap_or(&[]))));
}

fn main() {
    let ctx = Ctx::new("C19");

    ctx.par("scripts", ctx.n(4000), move |_, rng| {
        let mut bytes = Vec::new();
        let mut names = Vec::new();
        for _ in 0..rng.next_u32() % 24 {
            let (n, b) = block(rng);
            let repeat = if rng.next_u32() % 8 == 0 { 1 + rng.next_u32() % 40 } else { 1 };
            for _ in 0..repeat { bytes.extend_from_slice(&b); }
            ctx.eval(&format!("blocks: {}", n));
            names.push(n);
        }
        let then = ChaChaRng::from_seed(rng.gen());
        let s = Script { bytes, at: 0, then, calls: 0, limit: 1 << 20 };
        judge(ctx, s, &format!("{:?}", names));
    });

    // Each special block alone in front, many times over.
    ctx.par("long", ctx.n(40), move |case, rng| {
        let mut b;
        let mut name;
        loop {
            let x = block(rng);
            name = x.0;
            b = x.1;
            if !good(&b) { break; }
        }
        let times = match case % 4 {
            0 => 1000 + rng.next_u32() as usize % 9000,
            1 => 256,
            2 if case < 4 => 300_000,
            2 if case >= 40 && case < 44 => 3_000_000,
            2 => 65536,
            _ => 1 + rng.next_u32() as usize % 300,
        };
        let mut bytes = Vec::with_capacity(times * 32);
        for _ in 0..times { bytes.extend_from_slice(&b); }
        if case % 3 == 0 {
            // different ones in turn
            for ch in bytes.chunks_mut(32) {
                loop {
                    let mut t = [0u8; 32];
                    rng.fill_bytes(&mut t);
                    t[31] |= 0x80;
                    if !good(&t) { ch.copy_from_slice(&t); break; }
                }
            }
        }
        ctx.eval("long streaks of useless output");
        let then = ChaChaRng::from_seed(rng.gen());
        let limit = bytes.len() + (1 << 20);
        judge(ctx, Script { bytes, at: 0, then, calls: 0, limit }, &format!("{} times {}", times, name));
    });

    // Ordinary generators.
    ctx.par("seeds", ctx.n(2000), move |_, rng| {
        let seed: [u8; 32] = rng.gen();
        let mut r = ChaChaRng::from_seed(seed);
        let p = SystemParameters::hunt_and_peck(&mut r);
        ctx.eval("generations from a seed");
        ctx.seen("h", &enc(&p.h));
        ctx.check(generators(&p) && p.g == G, "not-generators", || format!("seed {}", hex(&seed)));
        let mut r = ChaChaRng::from_seed(seed);
        loop {
            let mut b = [0u8; 32];
            r.fill_bytes(&mut b);
            if good(&b) {
                ctx.check(enc(&p.h) == b, "second-generator", || format!("seed {}", hex(&seed)));
                break;
            }
        }
        let q = SystemParameters::from(p.h);
        ctx.check(q == p, "from-point", || format!("seed {}", hex(&seed)));
        let q = SystemParameters::from(enc(&p.h));
        ctx.check(q == p, "from-point", || format!("seed {}", hex(&seed)));
    });

    // Decoded parameters, alone and inside of everything that contains them.
    ctx.par("decoded", ctx.n(1500), move |_, rng| {
        let pick = |rng: &mut ChaChaRng| -> [u8; 32] {
            match rng.next_u32() % 8 {
                0 => identity(),
                1 => RISTRETTO_BASEPOINT_COMPRESSED.to_bytes(),
                2 => block(rng).1,
                3 => enc(&-G),
                _ => enc(&rpoint(rng)),
            }
        };
        let g = pick(rng);
        let h = match rng.next_u32() % 4 {
            0 => g,
            1 => match dec(&g) { Some(p) => enc(&-p), None => pick(rng) },
            _ => pick(rng),
        };
        let mut b = g.to_vec();
        b.extend_from_slice(&h);
        let fine = |x: &[u8; 32]| dec(x).map(|p| p != RistrettoPoint::identity()).unwrap_or(false);
        let ok = fine(&g) && fine(&h) && g != h;
        ctx.eval(if ok { "decodings of generators" } else { "decodings of what are not two generators" });
        ctx.seen("encoding", &b);
        let one = |what: &str, p: Option<SystemParameters>| {
            ctx.eval("decoded");
            match p {
                Some(p) => {
                    ctx.check(generators(&p), "decoded-not-generators", || format!("{}: {}", what, hex(&b)));
                    ctx.check(ok && enc(&p.g) == g && enc(&p.h) == h, "decoded-other", || format!("{}: {}", what, hex(&b)));
                }
                None => { ctx.check(!ok, "not-decoded", || format!("{}: {}", what, hex(&b))); }
            }
        };
        one("bytes", SystemParameters::from_bytes(&b).ok());
        let mut bc = 64u64.to_le_bytes().to_vec();
        bc.extend_from_slice(&b);
        one("bincode", bincode::deserialize::<SystemParameters>(&bc).ok());
        one("bincode, from a reader", bincode::deserialize_from::<_, SystemParameters>(std::io::Cursor::new(&bc)).ok());
        one("JSON", serde_json::from_str::<SystemParameters>(&serde_json::to_string(&b).unwrap()).ok());
        one("JSON value", serde_json::from_value::<SystemParameters>(serde_json::to_value(&b).unwrap()).ok());

        let w = World::new(rng);
        let mut i = w.issuer.to_bytes();
        i[..64].copy_from_slice(&b);
        one("Issuer", Issuer::from_bytes(&i).ok().map(|x| x.system_parameters));
        one("SignalIssuer", SignalIssuer::from_bytes(&i).ok().map(|x| x.issuer.system_parameters));
        let n = number(rng);
        let u = if rng.next_u32() % 2 == 0 { w.user(&n) } else { w.enrolled(&n, rng) };
        let mut x = u.to_bytes();
        let at = x.windows(64).position(|y| *y == w.params.to_bytes()[..]).expect("HARNESS: a user contains its parameters");
        x[at..at + 64].copy_from_slice(&b);
        one("SignalUser", SignalUser::from_bytes(&x).ok().map(|x| x.user.system_parameters));
        let mut x = u.user.to_bytes();
        let at = x.windows(64).position(|y| *y == w.params.to_bytes()[..]).expect("HARNESS: a user contains its parameters");
        x[at..at + 64].copy_from_slice(&b);
        one("User", User::from_bytes(&x).ok().map(|x| x.system_parameters));
    });
    ctx.finish("generator outputs are written down block by block (identity, basepoint, non-canonical and nearly valid encodings, streaks of \
                up to 300000, or 3000000 when thorough); each distinct output, encoding or generated point counts once")
}
