//! C01: honest issuance, presentation and verification always succeed, also when everything is stored and restored
//! between the steps.
use vh::proto::*;
use vh::*;

fn main() {
    let ctx = Ctx::new("C01");

    ctx.par("signal", ctx.n(3000), move |i, rng| {
        let params = if rng.next_u32() % 5 == 0 { SystemParameters { g: G, h: odd_point(rng).1 } } else { SystemParameters::hunt_and_peck(rng) };
        let params = reload!(SystemParameters, params, rng);
        let kind = rng.next_u32() % 5;
        let issuer = if kind == 4 {
            // A key which will not come up by chance.
            World::unusual(params, rng).issuer
        } else if kind % 2 == 0 {
            SignalIssuer::create(params, rng)
        } else {
            // The way the foreign interfaces do it: the key pair is kept, and the issuer made from it.
            let k = SignalIssuer::create(params, rng).issuer.keypair.clone();
            SignalIssuer::new(params, reload!(amacs::Keypair, k, rng))
        };
        let mut issuer = reload!(SignalIssuer, issuer, rng);
        let ip = reload!(IssuerParameters, issuer.get_issuer_parameters(), rng);
        ctx.check(ip == issuer.get_issuer_parameters(), "issuer-parameters-changed", || String::new());
        // Every length comes up in every run, the two limits most often.
        let n = if i % 2 == 0 { let len = 1 + (i as usize / 2) % MAX_DIGITS; digits(rng, len) } else { number(rng) };
        let key = if rng.next_u32() % 4 == 0 { Some(elgamal::Keypair::generate(rng)) } else { None };
        let user = SignalUser::new(params, ip.clone(), key, &n).expect("a user for a valid number");
        let mut user = reload!(SignalUser, user, rng);
        let what = |s: &str| format!("number {} ({} digits): {}", fmt_number(&n), n.len(), s);
        for issue in 0..1 + rng.next_u32() % 2 {
            let issuance = match issuer.issue(&n, rng) {
                Ok(x) => x,
                Err(e) => { ctx.violation("honest-issue", what(&format!("{}", e))); return }
            };
            let issuance = reload!(SignalCredentialIssuance, issuance, rng);
            ctx.eval("issuances");
            if let Err(e) = user.obtain_finish(Some(&issuance)) {
                ctx.violation("honest-obtain", what(&format!("{}", e)));
                return;
            }
            user = reload!(SignalUser, user, rng);
            issuer = reload!(SignalIssuer, issuer, rng);
            let mut entries = Vec::new();
            for _ in 0..2 {
                let e = match RosterEntryCommitment::create(&n, &params, rng) {
                    Ok(e) => e,
                    Err(e) => { ctx.violation("honest-entry", what(&format!("{}", e))); return }
                };
                entries.push(reload!(RosterEntryCommitment, e, rng));
            }
            for show in 0..3 {
                let entry = &entries[rng.next_u32() as usize % 2];
                if entry.open(&n, &params).is_err() {
                    ctx.violation("honest-open", what("the entry does not open"));
                }
                let pres = match user.show(rng, entry) {
                    Ok(p) => p,
                    Err(e) => { ctx.violation("honest-show", what(&format!("{}", e))); return }
                };
                let pres = reload!(SignalCredentialPresentation, pres, rng);
                let bytes = pres.to_bytes();
                let again = pres.clone();
                let verified = match issuer.verify(pres) {
                    Ok(v) => v,
                    Err(e) => { ctx.violation("honest-verify", what(&format!("{}: {}", e, hex(&bytes)))); return }
                };
                // Nothing was used up by that.
                match issuer.verify(again) {
                    Ok(v) => { ctx.check(v == verified, "verified-differs", || what(&hex(&bytes))); }
                    Err(e) => ctx.violation("honest-verify", what(&format!("a second time: {}: {}", e, hex(&bytes)))),
                }
                if issuer.verify_roster_membership(&verified).is_err() {
                    ctx.violation("honest-membership", what(&format!("the first time: {}", hex(&bytes))));
                }
                let verified = reload!(VerifiedSignalCredential, verified, rng);
                ctx.check(verified.to_bytes() == bytes, "verified-differs", || what(&hex(&bytes)));
                match issuer.verify_roster_membership(&verified) {
                    Ok(c) => { ctx.check(c == entry.commitment, "membership-entry", || what(&hex(&bytes))); }
                    Err(e) => ctx.violation("honest-membership", what(&format!("{}: {}", e, hex(&bytes)))),
                }
                ctx.eval("presentations verified");
                ctx.seen("history", &bytes);
                ctx.sample("run", || what(&format!("issuance {}, presentation {}: {}", issue, show, hex(&bytes))));
            }
        }
    });

    // The same one level lower, where an attribute is any scalar.
    ctx.par("aeonflux", ctx.n(1500), move |_, rng| {
        let params = reload!(SystemParameters, SystemParameters::hunt_and_peck(rng), rng);
        let issuer = reload!(Issuer, Issuer::create(params, rng), rng);
        let mut user = reload!(User, User::new(params, issuer.get_issuer_parameters(), None), rng);
        let m = special(rng);
        let request = reload!(CredentialRequest, user.obtain(vec![m]), rng);
        let issuance = match issuer.issue(&request, rng) {
            Ok(x) => reload!(CredentialIssuance, x, rng),
            Err(e) => { ctx.violation("honest-issue", format!("attribute {:?}: {}", m, e)); return }
        };
        ctx.check(issuer.keypair.secret.verify(&issuance.credential.mac, &amacs::Message::from(m)).is_ok(), "honest-mac",
                  || format!("attribute {:?}", m));
        if let Err(e) = user.obtain_finish(Some(&issuance)) {
            ctx.violation("honest-obtain", format!("attribute {:?}: {}", m, e));
            return;
        }
        user = reload!(User, user, rng);
        for _ in 0..3 {
            let nonces = Nonces::new(rng, 1);
            let p = match user.show(&nonces, rng) {
                Ok(p) => reload!(CredentialPresentation, p, rng),
                Err(e) => { ctx.violation("honest-show", format!("attribute {:?}: {}", m, e)); return }
            };
            match issuer.verify(&p) {
                Ok(v) => {
                    let v = reload!(VerifiedCredential, v, rng);
                    ctx.check(v.0 == p, "verified-differs", || hex(&p.to_bytes()));
                }
                Err(e) => ctx.violation("honest-verify", format!("attribute {:?}: {}", m, e)),
            }
            ctx.eval("presentations verified");
            ctx.seen("aeonflux", &p.to_bytes());
        }
    });

    // Nothing is used up, counted down or worn out: one issuer, one user and one entry do it all many times over.
    {
        let rng = &mut ctx.rng("worn", 0);
        let params = SystemParameters::hunt_and_peck(rng);
        let issuer = SignalIssuer::create(params, rng);
        let n = number(rng);
        let mut user = SignalUser::new(params, issuer.get_issuer_parameters(), None, &n).expect("a user for a valid number");
        user.obtain_finish(Some(&issuer.issue(&n, rng).expect("issue"))).expect("obtain");
        let entry = RosterEntryCommitment::create(&n, &params, rng).expect("entry");
        let all = std::sync::Arc::new((params, issuer, n, user, entry));
        const BATCH: u64 = 50;
        // More than a counter of sixteen bits goes.
        ctx.par("worn", if ctx.thorough { 4000 } else { 1320 }, move |batch, rng| {
            let (params, issuer, n, user, entry) = &*all;
            let mut mine = SignalUser::new(*params, issuer.get_issuer_parameters(), None, n).expect("a user for a valid number");
            for j in 0..BATCH {
                let what = |s: &str, e: &dyn std::fmt::Debug| format!("{}, about the {}th time, with number {}: {:?}", s, batch * BATCH + j, fmt_number(n), e);
                match user.show(rng, entry) {
                    Ok(p) => match issuer.verify(p) {
                        Ok(v) => match issuer.verify_roster_membership(&v) {
                            Ok(c) => { ctx.check(c == entry.commitment, "membership-entry", || what("membership", &())); }
                            Err(e) => ctx.violation("honest-membership", what("membership", &e)),
                        },
                        Err(e) => ctx.violation("honest-verify", what("verify", &e)),
                    },
                    Err(e) => ctx.violation("honest-show", what("show", &e)),
                }
                if j % 4 == 0 { match issuer.issue(n, rng) {
                    Ok(i) => if let Err(e) = mine.obtain_finish(Some(&i)) { ctx.violation("honest-obtain", what("accept", &e)) },
                    Err(e) => ctx.violation("honest-issue", what("issue", &e)),
                } }
                ctx.eval("presentations by one user to one issuer");
            }
            if let Err(e) = entry.open(n, params) { ctx.violation("honest-open", format!("{:?}", e)) }
        });
    }

    ctx.finish("a case is one run of the protocol with fresh parameters, issuer, number and a random choice of what is \
                stored and restored in which format; distinct by the presentation which was verified");
}
