//! C24: histories of many users, issuers, parameters and messages against an ideal model.
//! Oracle: the model records who was issued what by whom, and says of each operation whether it succeeds.
use vh::proto::*;
use vh::*;

/// What a credential is, ideally.
#[derive(Clone, Debug, PartialEq)]
struct Cred { params: usize, key: usize, n: Vec<u8> }

struct Iss { params: usize, key: usize, key_params: usize, obj: SignalIssuer }

struct Usr { params: usize, ip_key: usize, ip_params: usize, n: Vec<u8>, obj: SignalUser, cred: Option<Cred>, saved: Vec<(Vec<u8>, Option<Cred>)> }

/// An issuance: unaltered ones are of some credential; what no issuer made is of none.
struct Msg { bytes: Vec<u8>, of: Option<Cred> }

struct Ent { params: usize, n: Vec<u8>, obj: RosterEntryCommitment }

/// A presentation: whose credential it shows (`None`: nobody's), and whether the membership proof in it was made for
/// what is in it.
#[derive(Clone)]
struct Pre { bytes: Vec<u8>, cred: Option<Cred>, member: bool, made: bool }

struct Ver { pre: Pre, obj: VerifiedSignalCredential }

fn pick<R: RngCore>(rng: &mut R, n: usize) -> usize { rng.next_u32() as usize % n }

fn cap<T, R: RngCore>(v: &mut Vec<T>, most: usize, rng: &mut R) {
    if v.len() > most {
        let i = pick(rng, v.len());
        v.swap_remove(i);
    }
}

fn main() {
    let ctx = Ctx::new("C24");

    let steps = 150;
    ctx.par("histories", ctx.n(1000), move |_, rng| {
        let params: Vec<SystemParameters> = (0..2 + pick(rng, 2)).map(|_| SystemParameters::hunt_and_peck(rng)).collect();
        // Numbers which are easily mistaken for each other.
        let mut numbers = vec![number(rng)];
        for _ in 0..2 + pick(rng, 3) {
            let near_to = numbers[pick(rng, numbers.len())].clone();
            let n = other_number(rng, &near_to);
            if !numbers.contains(&n) { numbers.push(n) }
        }
        let mut issuers: Vec<Iss> = Vec::new();
        for key in 0..2 + pick(rng, 2) {
            let p = pick(rng, params.len());
            let obj = SignalIssuer::create(params[p], rng);
            // A replica, and an issuer whose key was made for other parameters.
            let k = obj.issuer.keypair.clone();
            issuers.push(Iss { params: p, key, key_params: p, obj });
            if pick(rng, 3) == 0 {
                let q = pick(rng, params.len());
                issuers.push(Iss { params: q, key, key_params: p, obj: SignalIssuer::new(params[q], k) });
            }
        }
        let mut users: Vec<Usr> = Vec::new();
        let (mut msgs, mut ents, mut pres, mut vers): (Vec<Msg>, Vec<Ent>, Vec<Pre>, Vec<Ver>) = (vec![], vec![], vec![], vec![]);
        let mut log: Vec<String> = Vec::new();
        macro_rules! outcome {
            ($op:expr, $expected:expr, $got:expr, $rel:expr) => {{
                let (want, got): (bool, bool) = ($expected, $got);
                ctx.eval(if want { concat!($op, ": succeeds") } else { concat!($op, ": fails") });
                ctx.seen($op, format!("{} {:?}", want, $rel).as_bytes());
                log.push(format!("{} -> {}", $op, got));
                if want != got {
                    ctx.violation(concat!("outcome-", $op), format!("{} {} where the model says it {}; {:?}; history: {}", $op,
                        if got { "succeeds" } else { "fails" }, if want { "succeeds" } else { "fails" }, $rel, log.join(", ")));
                    return;
                }
            }}
        }
        for _ in 0..steps {
            let rare = pick(rng, 3) == 0;
            match pick(rng, 24) {
                // a new user, mostly with matching parameters
                0 | 1 if users.len() < 8 => {
                    let i = pick(rng, issuers.len());
                    let p = if pick(rng, 6) == 0 { pick(rng, params.len()) } else { issuers[i].params };
                    let n = numbers[pick(rng, numbers.len())].clone();
                    let ip = reload!(IssuerParameters, issuers[i].obj.get_issuer_parameters(), rng);
                    let key = if pick(rng, 4) == 0 { Some(elgamal::Keypair::generate(rng)) } else { None };
                    let u = SignalUser::new(params[p], ip, key, &n);
                    outcome!("create user", true, u.is_ok(), n.len());
                    users.push(Usr { params: p, ip_key: issuers[i].key, ip_params: issuers[i].key_params, n, obj: u.unwrap(), cred: None, saved: vec![] });
                }
                // numbers which are none
                2 if rare => {
                    let len = [0, 27, 28, 32, 64, 300][pick(rng, 6)];
                    let n = digits(rng, len);
                    let i = pick(rng, issuers.len());
                    let p = pick(rng, params.len());
                    outcome!("issue bad number", false, issuers[i].obj.issue(&n, rng).is_ok(), len);
                    outcome!("create user with bad number", false, SignalUser::new(params[p], issuers[i].obj.get_issuer_parameters(), None, &n).is_ok(), len);
                    outcome!("create entry with bad number", false, RosterEntryCommitment::create(&n, &params[p], rng).is_ok(), len);
                }
                3 | 4 | 5 => {
                    let mut i = &issuers[pick(rng, issuers.len())];
                    if !users.is_empty() && pick(rng, 3) > 0 {
                        let u = &users[pick(rng, users.len())];
                        i = issuers.iter().find(|i| i.key == u.ip_key && i.params == u.params).unwrap_or(i);
                    }
                    let n = if users.is_empty() || pick(rng, 3) == 0 { numbers[pick(rng, numbers.len())].clone() } else { users[pick(rng, users.len())].n.clone() };
                    let m = i.obj.issue(&n, rng);
                    outcome!("issue", true, m.is_ok(), i.params == i.key_params);
                    let good = i.params == i.key_params;
                    msgs.push(Msg { bytes: m.unwrap().to_bytes(), of: if good { Some(Cred { params: i.params, key: i.key, n }) } else { None } });
                    cap(&mut msgs, 12, rng);
                }
                // messages altered or put together on the way
                6 if !msgs.is_empty() => {
                    let mut b = msgs[pick(rng, msgs.len())].bytes.clone();
                    if pick(rng, 2) == 0 {
                        let o = &msgs[pick(rng, msgs.len())].bytes;
                        let at = 32 * (1 + pick(rng, 10));
                        b[at..].copy_from_slice(&o[at..]);
                    } else {
                        let at = pick(rng, b.len());
                        b[at] ^= 1 << pick(rng, 8);
                    }
                    if msgs.iter().all(|m| m.bytes != b) { msgs.push(Msg { bytes: b, of: None }) }
                }
                // an issuance, perhaps a misdirected or an old one, is received
                7 | 8 | 9 | 10 if !users.is_empty() && !msgs.is_empty() => {
                    let (ui, mi) = (pick(rng, users.len()), pick(rng, msgs.len()));
                    // mostly one that is meant for the user
                    let mi = if pick(rng, 2) == 0 {
                        let u = &users[ui];
                        msgs.iter().rposition(|m| m.of.as_ref().map_or(false, |c| c.key == u.ip_key && c.params == u.params && c.n == u.n)).unwrap_or(mi)
                    } else { mi };
                    let (u, m) = (&mut users[ui], &msgs[mi]);
                    let low = pick(rng, 5) == 0;
                    let want = m.of.as_ref().map_or(false, |c| c.params == u.params && c.params == u.ip_params && c.key == u.ip_key && (low || c.n == u.n));
                    let rel = (m.of.as_ref().map(|c| (c.params == u.params, c.params == u.ip_params, c.key == u.ip_key, c.n == u.n)), u.cred.is_some(), u.cred == m.of, low);
                    let before = u.obj.to_bytes();
                    let got = match SignalCredentialIssuance::from_bytes(&m.bytes) {
                        Err(_) => false,
                        Ok(i) => {
                            // Replaying an altered message at the lower level: see the findings of C05.
                            if low && m.of.is_none() { continue }
                            let i = reload!(SignalCredentialIssuance, i, rng);
                            if low { u.obj.user.obtain_finish(Some(&i)).is_ok() } else { u.obj.obtain_finish(Some(&i)).is_ok() }
                        }
                    };
                    outcome!("accept issuance", want, got, rel);
                    if got {
                        // The credential is the one in the message, and nothing else has changed.
                        let mut want = before.clone();
                        let at = want.len() - 96;
                        want[at..].copy_from_slice(&m.bytes[32..128]);
                        ctx.check(u.obj.to_bytes() == want, "accepted-another-credential", || log.join(", "));
                        u.cred = m.of.clone()
                    }
                    else { ctx.check(u.obj.to_bytes() == before, "failed-accept-has-effect", || log.join(", ")); }
                }
                11 if !users.is_empty() && rare => {
                    let ui = pick(rng, users.len());
                    let u = &mut users[ui];
                    let before = u.obj.to_bytes();
                    outcome!("accept nothing", false, u.obj.obtain_finish(None).is_ok(), u.cred.is_some());
                    ctx.check(u.obj.to_bytes() == before, "failed-accept-has-effect", || log.join(", "));
                }
                12 | 13 => {
                    let p = pick(rng, params.len());
                    let (p, n) = match users.iter().rev().filter_map(|u| u.cred.as_ref()).next() {
                        Some(c) if !rare => (c.params, c.n.clone()),
                        _ => (p, numbers[pick(rng, numbers.len())].clone()),
                    };
                    let e = RosterEntryCommitment::create(&n, &params[p], rng);
                    outcome!("create entry", true, e.is_ok(), n.len());
                    let e = e.unwrap();
                    let other = numbers[pick(rng, numbers.len())].clone();
                    let q = pick(rng, params.len());
                    outcome!("open entry", other == n && p == q, e.open(&other, &params[q]).is_ok(), (other == n, p == q));
                    ents.push(Ent { params: p, n, obj: reload!(RosterEntryCommitment, e, rng) });
                    // Entries are opened again and again, by those who have the number and by others.
                    for _ in 0..3 {
                        let e = &ents[pick(rng, ents.len())];
                        let (n, p) = if pick(rng, 2) == 0 { (e.n.clone(), e.params) } else { (numbers[pick(rng, numbers.len())].clone(), pick(rng, params.len())) };
                        outcome!("open entry", n == e.n && p == e.params, e.obj.open(&n, &params[p]).is_ok(), (n == e.n, p == e.params));
                    }
                    cap(&mut ents, 10, rng);
                }
                14 | 15 | 16 if !users.is_empty() && !ents.is_empty() => {
                    let mut ui = pick(rng, users.len());
                    for _ in 0..4 { if users[ui].cred.is_none() { ui = pick(rng, users.len()) } }
                    let u = &users[ui];
                    let fits = |e: &Ent| u.cred.as_ref().map_or(false, |c| c.n == e.n && c.params == e.params);
                    let mut e = &ents[pick(rng, ents.len())];
                    if pick(rng, 3) > 0 { e = ents.iter().rev().find(|e| fits(e)).unwrap_or(e) }
                    let before = u.obj.to_bytes();
                    let p = u.obj.show(rng, &e.obj);
                    outcome!("show", u.cred.is_some(), p.is_ok(), (u.cred.is_some(), fits(e), u.cred.as_ref().map(|c| c.n == u.n)));
                    ctx.check(u.obj.to_bytes() == before, "show-has-effect", || log.join(", "));
                    if let Ok(p) = p {
                        pres.push(Pre { bytes: p.to_bytes(), cred: u.cred.clone(), member: fits(e), made: true });
                        cap(&mut pres, 12, rng);
                    }
                }
                // presentations altered or put together
                17 if !pres.is_empty() => {
                    let (a, b) = (pres[pick(rng, pres.len())].clone(), pres[pick(rng, pres.len())].clone());
                    let mut x = a.clone();
                    match pick(rng, 5) {
                        // another entry, or another entry and proof
                        0 => x.bytes[..32].copy_from_slice(&b.bytes[..32]),
                        1 => x.bytes[288..].copy_from_slice(&b.bytes[288..]),
                        2 => { x.bytes[..32].copy_from_slice(&b.bytes[..32]); x.bytes[288..].copy_from_slice(&b.bytes[288..]) }
                        3 => { let at = 288 + pick(rng, 160); x.bytes[at] ^= 1 << pick(rng, 8) }
                        _ => { let at = 32 + pick(rng, 256); x.bytes[at] ^= 1 << pick(rng, 8); x.cred = None }
                    }
                    x.member = false;
                    x.made = false;
                    // What has no change, or whose change was undone, is what it was.
                    if let Some(p) = pres.iter().find(|p| p.bytes[32..288] == x.bytes[32..288]) { x.cred = p.cred.clone() }
                    if pres.iter().all(|p| p.bytes != x.bytes) { pres.push(x) }
                }
                18 | 19 | 20 if !pres.is_empty() => {
                    let p = pres[pick(rng, pres.len())].clone();
                    let mut i = &issuers[pick(rng, issuers.len())];
                    if let (Some(c), 0) = (&p.cred, pick(rng, 2)) {
                        i = issuers.iter().find(|i| i.key == c.key && i.params == c.params).unwrap_or(i);
                    }
                    let want = p.cred.as_ref().map_or(false, |c| c.key == i.key && c.params == i.params);
                    let rel = (p.cred.as_ref().map(|c| (c.key == i.key, c.params == i.params)), p.member);
                    let before = i.obj.to_bytes();
                    let got = match SignalCredentialPresentation::from_bytes(&p.bytes) {
                        Err(e) => { if p.made { ctx.violation("presentation-not-read", format!("{:?} {}", e, hex(&p.bytes))) }
                            // What cannot be read because of its membership part is no subject of this operation.
                            if p.cred.is_some() { continue }
                            None }
                        Ok(x) => i.obj.verify(reload!(SignalCredentialPresentation, x, rng)).ok(),
                    };
                    outcome!("verify", want, got.is_some(), rel);
                    ctx.check(i.obj.to_bytes() == before, "verify-has-effect", || log.join(", "));
                    if let Some(v) = got {
                        ctx.check(v.to_bytes() == p.bytes, "verified-another", || log.join(", "));
                        vers.push(Ver { pre: p, obj: reload!(VerifiedSignalCredential, v, rng) });
                        cap(&mut vers, 10, rng);
                    }
                }
                21 | 22 if !vers.is_empty() => {
                    let v = &vers[pick(rng, vers.len())];
                    let c = v.pre.cred.as_ref().expect("HARNESS: verified");
                    let mut i = &issuers[pick(rng, issuers.len())];
                    if pick(rng, 2) == 0 { i = issuers.iter().find(|i| i.params == c.params).unwrap_or(i) }
                    let want = v.pre.member && i.params == c.params;
                    let r = i.obj.verify_roster_membership(&v.obj);
                    outcome!("verify membership", want, r.is_ok(), (v.pre.member, i.params == c.params, i.key == c.key));
                    if let Ok(e) = r {
                        ctx.check(e.to_bytes()[..] == v.pre.bytes[..32], "membership-of-another", || log.join(", "));
                    }
                    ctx.check(v.obj.to_bytes() == v.pre.bytes, "verified-changed", || log.join(", "));
                }
                // saving, crashing and coming back with what was saved, perhaps long ago
                _ => match pick(rng, 4) {
                    0 if !users.is_empty() => {
                        let ui = pick(rng, users.len());
                        let u = &mut users[ui];
                        let (b, c) = (u.obj.to_bytes(), u.cred.clone());
                        u.saved.push((b, c));
                        ctx.eval("save user");
                    }
                    1 if !users.is_empty() => {
                        let ui = pick(rng, users.len());
                        let u = &mut users[ui];
                        if !u.saved.is_empty() {
                            let (b, c) = u.saved[pick(rng, u.saved.len())].clone();
                            // a partly written file is not taken for a user
                            let k = pick(rng, b.len());
                            outcome!("restore truncated user", false, SignalUser::from_bytes(&b[..k]).is_ok(), k / 32);
                            let o = SignalUser::from_bytes(&b);
                            outcome!("restore user", true, o.is_ok(), (c.is_some(), u.cred == c));
                            u.obj = o.unwrap();
                            u.cred = c;
                        }
                    }
                    2 => {
                        let ii = pick(rng, issuers.len());
                        let b = issuers[ii].obj.to_bytes();
                        let o = if pick(rng, 2) == 0 { SignalIssuer::from_bytes(&b).ok() } else {
                            amacs::Keypair::from_bytes(&issuers[ii].obj.issuer.keypair.to_bytes()).ok().map(|k| SignalIssuer::new(params[issuers[ii].params], k))
                        };
                        outcome!("restore issuer", true, o.is_some(), ii);
                        issuers[ii].obj = o.unwrap();
                        ctx.check(issuers[ii].obj.to_bytes() == b, "restored-issuer-differs", || log.join(", "));
                    }
                    _ => {
                        if let Some(v) = vers.pop() {
                            let Ver { pre, obj } = v;
                            vers.insert(0, Ver { pre, obj: reload!(VerifiedSignalCredential, obj, rng) });
                        }
                        if let Some(e) = ents.pop() {
                            let Ent { params, n, obj } = e;
                            ents.insert(0, Ent { params, n, obj: reload!(RosterEntryCommitment, obj, rng) });
                        }
                        ctx.eval("restore messages");
                    }
                },
            }
        }
        ctx.eval("histories");
        ctx.seen("history", log.join(",").as_bytes());
        ctx.sample("history", || log.iter().take(40).cloned().collect::<Vec<_>>().join(", "));
    });

    ctx.finish("histories of 150 random operations over 2-3 parameters, 2-6 issuers (replicas and ones with a key made for \
        other parameters among them), up to 8 users, 3-5 near numbers; distinct: sequences of operations and outcomes, and \
        pairs of an operation's outcome and the relations in the model which decide it");
}
