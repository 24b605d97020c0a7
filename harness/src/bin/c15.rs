//! C15: the C interface does exactly what the library does.
//!
//! The C interface is the shared library built from /repo/ffi with its default features, opened with dlopen; the library
//! it is compared with is linked here.
use vh::capi::*;
use vh::capi::K::*;
use vh::ops::*;
use vh::proto::*;
use vh::*;

fn compare(ctx: &Ctx, api: &Api, f: usize, a: &[Vec<u8>], what: &str) -> Option<Vec<u8>> {
    let show = || format!("{} ({}) {}", FNS[f].0, what, a.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" "));
    let want = ctx.guarded("the library", || lib_call(f, a))?;
    let got = match c_call(api, f, a) {
        Ok(x) => x,
        Err(e) => { ctx.violation("result", format!("{} from {}", e, show())); return None; }
    };
    ctx.eval(match (&want, f) { (Some(_), 11) => "opening checks compared", (Some(_), _) => "successes compared", _ => "failures compared" });
    ctx.seen(FNS[f].0, &a.concat());
    match (&want, &got) {
        (None, None) => {}
        (Some(w), Some(g)) => {
            if w.len() != g.len() {
                ctx.violation("length", format!("{} bytes instead of {} from {}", g.len(), w.len(), show()));
            } else {
                let d = determined(f, w.len());
                ctx.check(w[..d] == g[..d], "differs", || format!("C gives {}, the library {}: {}", hex(g), hex(w), show()));
                if d < w.len() {
                    // The rest are proofs: they must not be the same, and must be good for the same things.
                    ctx.check(w[d..] != g[d..], "proof-repeats", show);
                }
            }
        }
        _ => ctx.violation("success", format!("C {}, the library {}: {}", if got.is_some() { "succeeds" } else { "fails" },
                                              if want.is_some() { "succeeds" } else { "fails" }, show())),
    }
    got
}

fn cpu_seconds() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

/// A long argument: some bytes, and zeros after them.
struct Mapped { at: *mut u8, len: usize }

impl Mapped {
    fn new(start: &[u8], len: usize) -> Option<Mapped> {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE,
                               libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            if p == libc::MAP_FAILED { return None; }
            let at = p as *mut u8;
            std::ptr::copy_nonoverlapping(start.as_ptr(), at, start.len());
            Some(Mapped { at, len })
        }
    }
    /// To be read only, while this lives.
    fn as_vec(&self) -> std::mem::ManuallyDrop<Vec<u8>> {
        std::mem::ManuallyDrop::new(unsafe { Vec::from_raw_parts(self.at, self.len, self.len) })
    }
}

impl Drop for Mapped {
    fn drop(&mut self) { unsafe { libc::munmap(self.at as *mut libc::c_void, self.len); } }
}

fn header_lengths() -> Vec<(String, u64)> {
    std::env::var("VH_LENGTHS").expect("HARNESS: VH_LENGTHS").split_whitespace().map(|s| {
        let mut it = s.splitn(2, '=');
        (it.next().unwrap().to_string(), it.next().unwrap().parse().unwrap())
    }).collect()
}

fn main() {
    let ctx = Ctx::new("C15");
    let api = open_api();
    let api: &'static Api = Box::leak(Box::new(api));
    let lengths = header_lengths();
    let lengths: &'static Vec<(String, u64)> = Box::leak(Box::new(lengths));

    // Honest runs, wholly through C, and mixed with the library at every step.
    ctx.par("honest", ctx.n(240), move |case, rng| {
        let o = Objects::new(rng);
        let of: [(&str, usize); 12] = [
            ("SYSTEM_PARAMETERS", 0), ("ISSUER_KEYPAIR", 1), ("ISSUER", 2), ("ISSUER_PARAMETERS", 3), ("CREDENTIAL_ISSUANCE", 4),
            ("VERIFIED_CREDENTIAL", 5), ("ROSTER_ENTRY_COMMITMENT_SANS_OPENING", 6), ("USER", 7), ("CREDENTIAL_PRESENTATION", 8),
            ("ROSTER_ENTRY_COMMITMENT", 9), ("ROSTER_ENTRY_COMMITMENT_SANS_OPENING", 10), ("", 11)];
        for f in 0..12 {
            let a = o.args(f);
            let got = match compare(ctx, api, f, &a, "honest") { Some(x) => x, None => continue };
            if f == 11 {
                ctx.check(got == [1], "open", || "an honest opening is not accepted".to_string());
                continue;
            }
            let want = lengths.iter().find(|(n, _)| *n == format!("LENGTH_{}", of[f].0)).map(|x| x.1);
            ctx.check(want == Some(got.len() as u64), "documented-length",
                      || format!("{} returns {} bytes, the header says {:?}", FNS[f].0, got.len(), want));
            ctx.eval("lengths compared with the header");
            // A second call with everything the same, and one with another seed.
            if let Ok(Some(again)) = c_call(api, f, &a) {
                let d = determined(f, got.len());
                ctx.check(again.len() == got.len() && again[..d] == got[..d], "not-a-function", || FNS[f].0.to_string());
            }
            if FNS[f].1.contains(&Seed) {
                let mut b = a.clone();
                let bit = (case as usize + f) % 256;
                b.last_mut().unwrap()[bit / 8] ^= 1 << (bit % 8);
                if let Some(other) = compare(ctx, api, f, &b, "another seed") {
                    ctx.check(other[..determined(f, other.len()).min(64)] != got[..determined(f, got.len()).min(64)],
                              "seed-ignored", || format!("{} gives the same with bit {} of the seed changed", FNS[f].0, bit));
                }
            }
        }
        // The whole protocol, every step from C or from the library, at random.
        let mut w = Objects(vec![Vec::new(); KINDS]);
        w.0[Number as usize] = number(rng);
        for (f, k) in [(0, Params), (1, Keypair), (2, Issuer), (3, Ip), (4, Issuance), (7, User), (9, Entry), (8, Presentation), (5, Verified)].iter() {
            let mut seed = vec![0u8; 32];
            rng.fill_bytes(&mut seed);
            w.0[Seed as usize] = seed;
            let a = w.args(*f);
            let r = if rng.next_u32() % 2 == 0 { c_call(api, *f, &a).unwrap_or(None) } else { lib_call(*f, &a) };
            match r {
                Some(b) => w.0[*k as usize] = b,
                None => { ctx.violation("mixed-run", format!("{} failed in an honest run through C and the library", FNS[*f].0)); return; }
            }
        }
        let entry = w.0[Entry as usize][..32].to_vec();
        for f in [6usize, 10].iter() {
            let r = c_call(api, *f, &w.args(*f));
            ctx.check(r == Ok(Some(entry.clone())), "mixed-run", || format!("{} gives {:?}, not the entry {}", FNS[*f].0, r, hex(&entry)));
        }
        let other = other_number(rng, &w.0[Number as usize]);
        let mut a = w.args(11);
        ctx.check(c_call(api, 11, &a) == Ok(Some(vec![1])), "open", || "a correct opening is reported as wrong".to_string());
        a[1] = other;
        ctx.check(c_call(api, 11, &a) == Ok(Some(vec![0])), "open", || "a wrong number is reported as a correct opening".to_string());
        ctx.evals("steps of mixed runs", 13);
    });

    // Presentations of other entries and numbers, so that membership fails for another reason than malformed input.
    ctx.par("other-entries", ctx.n(120), move |_, rng| {
        let w = World::new(rng);
        let n = number(rng);
        let u = w.enrolled(&n, rng);
        let m = other_number(rng, &n);
        let e = w.entry(&m, rng);
        if let Ok(p) = u.show(rng, &e) {
            let b = p.to_bytes();
            let v = compare(ctx, api, 5, &[w.issuer.to_bytes(), b.clone()], "an entry for another number");
            if let Some(v) = v {
                compare(ctx, api, 6, &[w.issuer.to_bytes(), v], "an entry for another number");
            }
            let x = World::with(w.params, rng);
            compare(ctx, api, 5, &[x.issuer.to_bytes(), b.clone()], "another issuer");
            compare(ctx, api, 6, &[x.issuer.to_bytes(), b.clone()], "another issuer");
        }
        // Issuances for other numbers and from other issuers.
        let i = w.issuer.issue(&m, rng).expect("honest issuance").to_bytes();
        compare(ctx, api, 7, &[n.clone(), w.params.to_bytes(), w.ip.to_bytes(), i.clone()], "an issuance for another number");
        compare(ctx, api, 7, &[m.clone(), w.params.to_bytes(), World::with(w.params, rng).ip.to_bytes(), i], "another issuer's");
        // Users without a credential, and keys for other numbers of attributes.
        let none = SignalUser::new(w.params, w.ip.clone(), None, &n).expect("HARNESS: user").to_bytes();
        compare(ctx, api, 8, &[none, e.to_bytes(), vec![7; 32]], "no credential");
        let k = rng.next_u32() as usize % 4;
        let sk = amacs::SecretKey::new(k, rng);
        let kp = amacs::Keypair { public: sk.get_public_key(&w.params.h), secret: sk };
        let kb = kp.to_bytes();
        if let Some(ib) = compare(ctx, api, 2, &[w.params.to_bytes(), kb], "a key for another number of attributes") {
            compare(ctx, api, 3, &[ib.clone()], "a key for another number of attributes");
            compare(ctx, api, 4, &[ib, n.clone(), vec![9; 32]], "a key for another number of attributes");
        }
    });

    // Seeds and numbers which are not like random ones.
    ctx.par("odd", ctx.n(52), move |case, rng| {
        let len = case as usize % 26 + 1;
        for n in &odd_numbers(rng, len) {
            let o = Objects::of(Some(n), rng);
            for f in 0..12 { compare(ctx, api, f, &o.args(f), "an odd number"); }
            for f in [4usize, 7, 9, 11].iter() {
                // in place of another
                let i = FNS[*f].1.iter().position(|k| *k == Number).expect("HARNESS: a number");
                let mut a = Objects::new(rng).args(*f);
                a[i] = n.clone();
                compare(ctx, api, *f, &a, "an odd number");
            }
        }
        let o = Objects::new(rng);
        for (j, s) in odd_seeds(rng).into_iter().enumerate() {
            for f in 0..12 {
                if !FNS[f].1.contains(&Seed) || (j as u64 + case + f as u64) % 3 != 0 { continue; }
                let mut a = o.args(f);
                let i = FNS[f].1.iter().position(|k| *k == Seed).expect("HARNESS: a seed");
                a[i] = s.clone();
                compare(ctx, api, f, &a, "an odd seed");
            }
        }
    });

    // Altered arguments: both succeed, or both fail.
    ctx.par("altered", ctx.n(600), move |_, rng| {
        let o = Objects::new(rng);
        let other = Objects::new(rng);
        for f in 0..12 {
            for i in 0..FNS[f].1.len() {
                for _ in 0..3 {
                    let mut a = o.args(f);
                    let len_too = rng.next_u32() % 3 == 0;
                    alter(rng, FNS[f].1[i], &mut a[i], &other, len_too);
                    if rng.next_u32() % 6 == 0 {
                        let j = rng.next_u32() as usize % a.len();
                        alter(rng, FNS[f].1[j], &mut a[j], &other, false);
                    }
                    compare(ctx, api, f, &a, "altered");
                }
                // One argument wholly from elsewhere: what the function ignores would show.
                let mut a = o.args(f);
                a[i] = other.0[FNS[f].1[i] as usize].clone();
                compare(ctx, api, f, &a, "one argument from elsewhere");
            }
        }
    });

    // Lengths that are a valid one plus a power of two: a length kept in a narrower type would pass for the valid one.
    // What follows the valid bytes is a mapping of zeros which nothing fills.
    ctx.par_on("lengths", ctx.n(4), 1, move |_, rng| {
        let o = Objects::new(rng);
        for f in 0..12 {
            for i in 0..FNS[f].1.len() {
                if FNS[f].1[i] == Seed { continue; }
                let valid = o.args(f)[i].clone();
                let (mut first, mut slow) = (None, false);
                for shift in [8u32, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33].iter() {
                    // What reads all it is given takes too long for the largest.
                    if slow { ctx.eval("long arguments left out, as the library reads all of them"); break; }
                    let long = match Mapped::new(&valid, valid.len() + (1usize << shift)) { Some(m) => m, None => { ctx.eval("mappings refused"); continue } };
                    let mut a: Vec<_> = o.args(f).into_iter().map(std::mem::ManuallyDrop::new).collect();
                    a[i] = long.as_vec();
                    let a: &[Vec<u8>] = unsafe { &*(&a[..] as *const _ as *const [Vec<u8>]) };
                    let what = || format!("{}, argument {}, valid but followed by 2^{} zeros", FNS[f].0, i, shift);
                    let t = cpu_seconds();
                    let want = match ctx.guarded("the library", || lib_call(f, a)) { Some(x) => x, None => continue };
                    let t = cpu_seconds() - t;
                    let first = *first.get_or_insert(t);
                    slow = *shift >= 15 && (t - first) * f64::from(1u32 << (33 - shift.min(&33))) > 10.0;
                    let got = match c_call(api, f, a) {
                        Ok(x) => x,
                        Err(e) => { ctx.violation("result", format!("{} from {}", e, what())); continue; }
                    };
                    let same = match (&want, &got) {
                        (None, None) => true,
                        (Some(w), Some(g)) => w.len() == g.len() && w[..determined(f, w.len())] == g[..determined(f, g.len())],
                        _ => false,
                    };
                    ctx.eval("long arguments compared");
                    ctx.seen("length", format!("{} {} {}", f, i, shift).as_bytes());
                    ctx.check(same, "long-argument", || format!("C gives {:?}, the library {:?}: {}", got.map(|x| hex(&x)), want.map(|x| hex(&x)), what()));
                }
            }
        }
    });

    // What C made is good for the library, and the other way round, wherever the bytes cannot be compared.
    ctx.par("proofs", ctx.n(150), move |_, rng| {
        let o = Objects::new(rng);
        if let Ok(Some(i)) = c_call(api, 4, &o.args(4)) {
            let mut a = o.args(7);
            a[3] = i;
            ctx.check(lib_call(7, &a).is_some(), "issuance-not-accepted", || "the library rejects an issuance made through C".to_string());
            ctx.eval("proofs made through C checked by the library");
            if let Some(u) = compare(ctx, api, 7, &a, "issued through C") {
                let mut s = o.args(8);
                s[0] = u;
                if let Ok(Some(p)) = c_call(api, 8, &s) {
                    let v = lib_call(5, &[o.0[Issuer as usize].clone(), p.clone()]);
                    ctx.check(v.is_some(), "presentation-not-accepted", || "the library rejects a presentation made through C".to_string());
                    if let Some(v) = v {
                        let e = lib_call(6, &[o.0[Issuer as usize].clone(), v]);
                        ctx.check(e.as_ref().map(|x| &x[..]) == Some(&o.0[Entry as usize][..32]), "membership-not-accepted",
                                  || "the library finds no membership in a presentation made through C".to_string());
                    }
                    ctx.eval("proofs made through C checked by the library");
                }
            }
        }
    });
    ctx.sample("compared", || "12 functions, honest, one argument from elsewhere, altered in content and length".to_string());
    ctx.finish("calls of the 12 C functions compared with the library on the same arguments; distinct by function and arguments");
}
