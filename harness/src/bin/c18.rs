//! C18: operations on secrets do not branch or index memory by secret values.  To run under valgrind.
//! Oracle: memcheck, which reports every jump and address that depends on memory marked undefined; secrets are marked.
use std::ffi::CString;
use std::mem;
use vh::nizk::*;
use vh::proto::*;
use vh::*;

#[derive(Clone, Copy)]
struct Taint {
    mark: extern "C" fn(*mut u8, usize),
    clear: extern "C" fn(*mut u8, usize),
    errors: extern "C" fn() -> u32,
    count: extern "C" fn(*const u8, usize) -> usize,
    say: extern "C" fn(*const libc::c_char),
}

static mut TAINT: Option<Taint> = None;

fn t() -> Taint { unsafe { TAINT.expect("HARNESS: taint") } }

/// Mark all of the memory of a value.
fn secret<T: ?Sized>(x: &T) { (t().mark)(x as *const T as *const u8 as *mut u8, mem::size_of_val(x)) }
fn public<T: ?Sized>(x: &T) { (t().clear)(x as *const T as *const u8 as *mut u8, mem::size_of_val(x)) }

/// Random numbers, all of them secret.
struct SecretRng<'a>(&'a mut ChaChaRng);

impl<'a> RngCore for SecretRng<'a> {
    fn next_u32(&mut self) -> u32 { let x = self.0.next_u32(); secret(&x); unsafe { std::ptr::read_volatile(&x) } }
    fn next_u64(&mut self) -> u64 { let x = self.0.next_u64(); secret(&x); unsafe { std::ptr::read_volatile(&x) } }
    fn fill_bytes(&mut self, b: &mut [u8]) { self.0.fill_bytes(b); secret(b) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(b); Ok(()) }
}

impl<'a> rand_core::CryptoRng for SecretRng<'a> {}

/// Run one operation, count what valgrind reports meanwhile, and see that the secrets went into what came out.
fn watch<T, F: FnOnce() -> T>(ctx: &Ctx, name: &str, f: F) -> T {
    let s = CString::new(name).unwrap();
    (t().say)(s.as_ptr());
    let before = (t().errors)();
    let r = f();
    let after = (t().errors)();
    ctx.eval(name);
    if after != before {
        ctx.violation("secret-dependent", format!("{}: {} jumps or addresses depend on secrets (see the report of valgrind)", name, after - before));
    }
    r
}

/// The secrets went into this result.
fn reached<T: ?Sized>(ctx: &Ctx, name: &str, x: &T) {
    let n = (t().count)(x as *const T as *const u8, mem::size_of_val(x));
    ctx.evals("secret bytes in results", n as u64);
    if n == 0 { ctx.harness_error(format!("{}: no secret in the result", name)) }
    public(x);
}

#[inline(never)]
fn control(x: &Scalar) -> u32 { if x[0] & 1 == 1 { unsafe { std::ptr::read_volatile(&3) } } else { unsafe { std::ptr::read_volatile(&7) } } }

fn main() {
    let ctx = Ctx::new("C18");
    unsafe {
        let path = CString::new(std::env::var("VH_TAINT").expect("HARNESS: VH_TAINT")).unwrap();
        let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() { panic!("HARNESS: dlopen failed"); }
        TAINT = Some(Taint { mark: capi::sym(h, "taint_mark"), clear: capi::sym(h, "taint_clear"), errors: capi::sym(h, "taint_errors"),
                             count: capi::sym(h, "taint_count"), say: capi::sym(h, "taint_say") });
        let running: extern "C" fn() -> u32 = capi::sym(h, "taint_running");
        if running() == 0 { ctx.inconclusive("not running under valgrind".to_string()) }
    }
    // Does valgrind see what it is to see?
    let x = Scalar::one();
    let name = CString::new("control").unwrap();
    (t().say)(name.as_ptr());
    let before = (t().errors)();
    secret(&x);
    let r = control(&x);
    public(&r);
    if (t().errors)() == before { ctx.inconclusive("valgrind does not see a jump which depends on a secret".to_string()) }

    let reps = if ctx.thorough { 40 } else { 3 };
    let mut master = ctx.rng("c18", 0);
    let rng = &mut master;
    for rep in 0..reps {
        let params = SystemParameters::hunt_and_peck(rng);
        let n = number(rng);
        ctx.seen("number", &n);
        let w = World::with(params, rng);
        // values which are special are secrets as well
        let value = |rng: &mut ChaChaRng| { let s = if rep % 3 == 0 { Scalar::random(rng) } else { special(rng) }; secret(&s); s };

        for len in 0..4usize {
            let k = watch(ctx, "amacs::SecretKey::new", || amacs::SecretKey::new(len, &mut SecretRng(rng)));
            let pk = watch(ctx, "amacs::SecretKey::get_public_key", || k.get_public_key(&params.h));
            if len > 0 { reached(ctx, "get_public_key", &pk.Xn[..]) }
            let m: Vec<Scalar> = (0..len).map(|_| value(rng)).collect();
            secret(&m[..]);
            let m = amacs::Message::from(m);
            let tag = watch(ctx, "amacs::SecretKey::mac", || k.mac(&m, &mut SecretRng(rng))).expect("mac");
            let r = watch(ctx, "amacs::Rerandomization::new", || amacs::Rerandomization::new(&mut SecretRng(rng)));
            let tag2 = watch(ctx, "amacs::Rerandomization::apply_to_tag", || r.apply_to_tag(&tag));
            reached(ctx, "mac", &tag);
            reached(ctx, "apply_to_tag", &tag2);
            watch(ctx, "dropping secrets", || { drop(r); drop(k) });
        }
        let kp = watch(ctx, "amacs::Keypair::new", || amacs::Keypair::new(&params.h, &mut SecretRng(rng)));
        reached(ctx, "Keypair::new", &kp.public.Xn[..]);
        let i = watch(ctx, "Issuer::create", || Issuer::create(params, &mut SecretRng(rng)));
        reached(ctx, "Issuer::create", &i.keypair.public.Xn[..]);

        let e = watch(ctx, "Ephemeral::new", || Ephemeral::new(&mut SecretRng(rng)));
        let v = value(rng) * G;
        let c = watch(ctx, "pedersen::Commitment::to", || pedersen::Commitment::to(&v, &e, &params.h));
        reached(ctx, "Commitment::to", &c);
        let e = watch(ctx, "arithmetic with nonces", || -e);
        let p = watch(ctx, "arithmetic with nonces", || &e * &params.g);
        reached(ctx, "nonces", &p);
        let ns = watch(ctx, "Nonces::new", || Nonces::new(&mut SecretRng(rng), 3));
        reached(ctx, "Nonces::new", &ns[1]);
        watch(ctx, "dropping secrets", || { drop(ns); drop(e) });

        let ek = watch(ctx, "elgamal::Keypair::generate", || elgamal::Keypair::generate(&mut SecretRng(rng)));
        let m = value(rng);
        let m = watch(ctx, "elgamal::Message::from", || elgamal::Message::from(&m));
        let e: elgamal::Ephemeral = value(rng).into();
        let c = watch(ctx, "elgamal::Keypair::encrypt", || ek.encrypt(&m, &e));
        let c2 = watch(ctx, "elgamal::PublicKey::encrypt", || ek.public.encrypt(&m, &e));
        let sum = watch(ctx, "elgamal::Encryption::add", || &c + &c2);
        reached(ctx, "encrypt", &sum.encryption);
        let d = watch(ctx, "elgamal::SecretKey::decrypt", || ek.secret.decrypt(&c));
        reached(ctx, "encrypt", &c.commitment);
        reached(ctx, "encrypt", &c.encryption);
        reached(ctx, "decrypt", &d);
        public(&ek.public);
        let number = PhoneNumber::try_from_bytes(&n).expect("number");
        secret(&number);
        let c = watch(ctx, "PhoneNumber::encrypt", || number.encrypt(&ek, &e));
        reached(ctx, "PhoneNumber::encrypt", &c.0.encryption);
        public(&c.0.commitment);
        watch(ctx, "dropping secrets", || drop(ek));
        let o = Ephemeral::new(&mut SecretRng(rng));
        let c = watch(ctx, "CommittedPhoneNumber::from_phone_number", || CommittedPhoneNumber::from_phone_number(&number, &o, &params.g, &params.h));
        reached(ctx, "from_phone_number", &c);
        public(&number);

        // the digits are the attribute, their number is not
        let hidden = n.clone();
        secret(&hidden[..]);
        let entry = watch(ctx, "RosterEntryCommitment::create", || RosterEntryCommitment::create(&hidden, &params, &mut SecretRng(rng))).expect("entry");
        public(&hidden[..]);
        reached(ctx, "RosterEntryCommitment::create", &entry.commitment);

        let mut issuer = SignalIssuer::create(params, rng);
        secret(&issuer.issuer.keypair.secret.x0);
        secret(&issuer.issuer.keypair.secret.xn[..]);
        let m = encode(&n);
        secret(&m);
        let request = CredentialRequest { attributes_revealed: vec![m] };
        secret(&request.attributes_revealed[..]);
        let low = watch(ctx, "Issuer::issue", || issuer.issuer.issue(&request, &mut SecretRng(rng))).expect("issue");
        secret(&hidden[..]);
        let issued = watch(ctx, "SignalIssuer::issue", || issuer.issue(&hidden, &mut SecretRng(rng))).expect("issue");
        public(&hidden[..]);
        for i in vec![low, issued] {
            for s in i.credential.attributes.iter() { public(s) }
            reached(ctx, "issue", &i.proof);
            reached(ctx, "issue", &i.credential.mac);
            reached(ctx, "issue", &i.secret_key_commitment);
            // Is it one?
            let mut u = SignalUser::new(params, issuer.get_issuer_parameters(), None, &n).expect("user");
            ctx.check(u.obtain_finish(Some(&i)).is_ok(), "not-an-issuance", || "the issuance made under valgrind is not accepted".to_string());
        }
        watch(ctx, "dropping secrets", || { issuer.issuer.keypair.secret.xn.clear(); });

        let user = w.enrolled(&n, rng);
        {
            let c = user.user.credential.as_ref().expect("HARNESS: credential");
            secret(&c.mac);
            secret(&c.attributes[..]);
        }
        let entry = w.entry(&n, rng);
        secret(&entry.opening);
        let nonces = Nonces::new(&mut SecretRng(rng), 1);
        let low = watch(ctx, "User::show", || user.user.show(&nonces, &mut SecretRng(rng))).expect("show");
        reached(ctx, "show", &low.attributes_blinded[..]);
        let shown = watch(ctx, "SignalUser::show", || user.show(&mut SecretRng(rng), &entry)).expect("show");
        reached(ctx, "show", &shown.presentation.proof);
        reached(ctx, "show", &shown.presentation.rerandomized_nonce);
        reached(ctx, "show", &shown.presentation.rerandomized_mac_commitment);
        reached(ctx, "show", &shown.presentation.attributes_blinded[..]);
        reached(ctx, "show", &shown.roster_membership_proof);
        ctx.check(w.issuer.verify(shown).ok().map_or(false, |v| w.issuer.verify_roster_membership(&v).is_ok()), "not-a-presentation",
                  || "the presentation made under valgrind is not accepted".to_string());

        for (kind, s) in specs().iter().enumerate() {
            let secrets: Vec<Scalar> = s.secrets.iter().map(|_| if rep % 3 == 0 { Scalar::random(rng) } else { special(rng) }).collect();
            let p = points(&s.statement(rng, &secrets, &[], None));
            let hidden = secrets.clone();
            secret(&hidden[..]);
            let proof = watch(ctx, &format!("{}::Proof::create", s.name), || lib_prove(kind, s.context, &p, &hidden));
            reached(ctx, s.name, &proof[..]);
            ctx.seen(s.name, &proof);
            ctx.check(lib_verify(kind, s.context, &p, &proof) == Some(true), "not-a-proof", || format!("{}: {}", s.name, hex(&proof)));
        }
    }
    ctx.finish("every operation on secrets, with secrets and random numbers marked as undefined memory; distinct: numbers \
        and proofs made from them");
}
