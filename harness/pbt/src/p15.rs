//! C15: messages interoperate with another implementation and with recorded data.

use aeonflux::amacs;
use aeonflux::credential::CredentialIssuance;
use aeonflux::issuer::{Issuer, IssuerParameters};
use aeonflux::parameters::SystemParameters;
use aeonflux::user::User;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use rand::{ChaChaRng, SeedableRng};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{fail, Check, Fail, Res, Src};
use crate::ffi::Lib;
use crate::gen;
use crate::p01::Bytes;
use crate::p09;
use crate::refimpl as r;

fn refused<E: std::fmt::Debug>(sig: &'static str, what: String) -> impl Fn(E) -> Fail {
    move |e| Fail { sig: sig.to_string(), msg: format!("{}: {:?}", what, e) }
}

/// A user who holds a credential, as documented.
fn user_bytes(p: &r::Params, x1: &RistrettoPoint, m: Scalar, pp: &RistrettoPoint, q: &RistrettoPoint) -> Vec<u8> {
    let mut v = m.as_bytes().to_vec();
    v.extend(p.to_bytes());
    v.extend(&r::enc(x1));
    v.extend(&[0u8; 64][..]);
    v.extend(&r::enc(pp));
    v.extend(&r::enc(q));
    v.extend(m.as_bytes());
    v
}

/// The encodings: bytes, the compact binary form and the JSON form.
fn encodings<T: Bytes + Serialize + DeserializeOwned>(x: &T, want: &[u8], what: &str) -> Res {
    ensure!(x.enc() == want, "encoding", "{} is encoded as {} instead of {}", what, gen::hex(&x.enc()), gen::hex(want));
    let mut b = (want.len() as u64).to_le_bytes().to_vec();
    b.extend(want);
    let c = bincode::serialize(x).map_err(refused("encoding", format!("{} to bincode", what)))?;
    ensure!(c == b, "encoding", "{} has the binary form {} instead of {}", what, gen::hex(&c), gen::hex(&b));
    let y: T = bincode::deserialize(&b).map_err(refused("decoding", format!("{} from bincode", what)))?;
    ensure!(y.enc() == want, "decoding", "{} from bincode is another", what);
    let c = serde_json::to_string(x).map_err(refused("encoding", format!("{} to JSON", what)))?;
    let b = format!("[{}]", want.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    ensure!(c == b, "encoding", "{} has the JSON form {} instead of {}", what, c, b);
    let y: T = serde_json::from_str(&b).map_err(refused("decoding", format!("{} from JSON", what)))?;
    ensure!(y.enc() == want, "decoding", "{} from JSON is another", what);
    Ok(())
}

fn decoded<T: Bytes>(b: &[u8], what: &str) -> Result<T, Fail> {
    let x = T::dec(b).map_err(refused("decoding", format!("{} {}", what, gen::hex(b))))?;
    ensure!(x.enc() == b, "encoding", "{} {} is encoded as {}", what, gen::hex(b), gen::hex(&x.enc()));
    Ok(x)
}

/// A protocol run, every role of which is played by the library or by the reference.
fn interop(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let m = r::phone_scalar(&d).unwrap();
    let roles = s.draw(62) + 1;
    let theirs = |i: u64| roles >> i & 1 == 1;
    let names = ["issuer", "user", "roster", "prover", "verifier", "membership verifier"];
    for (i, n) in names.iter().enumerate() {
        if theirs(i as u64) {
            s.label(&format!("reference as {}", n));
        }
    }
    // Published data
    let ip = r::enc(&w.x1).to_vec();
    encodings(&w.sys.sp, &w.p.to_bytes(), "SystemParameters")?;
    encodings(&w.issuer.get_issuer_parameters(), &ip, "the issuer's parameters")?;
    let mut issuer = w.p.to_bytes();
    let kp = r::keypair_bytes(&w.p, &w.k);
    issuer.extend(&kp);
    encodings(&w.issuer, &issuer, "SignalIssuer")?;
    encodings(&w.issuer.issuer.keypair, &kp, "amacs::Keypair")?;

    // Issue
    let issuance = if theirs(0) {
        let ks: Vec<Scalar> = (0..4).map(|_| gen::random_scalar(s)).collect();
        let (b, z) = (gen::nonzero_scalar(s), gen::scalar(s));
        r::issue(&w.p, &w.k, m, b, z, &ks, &r::Departure::default(), b"AEONFLUX ISSUANCE").to_bytes()
    } else {
        let i = w.issuer.issue(&d, &mut gen::rng(s)).map_err(broken("issue"))?;
        encodings(&i, &i.to_bytes(), "an issuance")?;
        i.to_bytes()
    };
    // Obtain
    let parsed = match r::Issuance::from_bytes(&issuance) {
        Some(i) => i,
        None => return fail("encoding", format!("an issuance isn't encoded as documented: {}", gen::hex(&issuance))),
    };
    let held = user_bytes(&w.p, &w.x1, m, &parsed.p, &parsed.q);
    if theirs(1) {
        ensure!(parsed.m == m, "issuance", "the issuance isn't on the encoded number");
        ensure!(parsed.p != RistrettoPoint::identity(), "issuance", "the nonce of a credential is the identity");
        ensure!(parsed.q == parsed.p * (w.k.x0 + w.k.x1 * m), "issuance", "the credential's tag is wrong: {}", gen::hex(&issuance));
        ensure!(r::issuance_ok(&w.p, &w.x1, &parsed), "issuance", "another implementation rejects the issuance {}", gen::hex(&issuance));
    } else {
        let i: SignalCredentialIssuance = decoded(&issuance, "an issuance")?;
        let mut u = fresh_user(&w, &d)?;
        u.obtain_finish(Some(&i)).map_err(refused("issuance", format!("a conforming issuance is rejected, {}", gen::hex(&issuance))))?;
        encodings(&u, &held, "SignalUser")?;
    }
    // A roster entry
    let entry = if theirs(2) {
        let o = gen::scalar(s);
        let mut v = r::enc(&(w.p.h * m + w.p.g * o)).to_vec();
        v.extend(o.as_bytes());
        v
    } else {
        let e = entry(s, &w, &d)?;
        encodings(&e, &e.to_bytes(), "RosterEntryCommitment")?;
        encodings(&e.commitment, &e.to_bytes()[..32], "CommittedPhoneNumber")?;
        e.to_bytes()
    };
    let (c, o) = match (entry.len(), r::point(&entry[..32]), r::scalar(&entry[32..])) {
        (64, Some(c), Some(o)) => (c, o),
        _ => return fail("encoding", format!("a roster entry isn't encoded as documented: {}", gen::hex(&entry))),
    };
    ensure!(c == w.p.h * m + w.p.g * o, "roster", "a roster entry isn't a commitment to the encoded number: {}", gen::hex(&entry));
    // Show
    let pres = if theirs(3) {
        let rnd = show_random(s);
        r::show(&w.p, &w.x1, &parsed.p, &parsed.q, m, &c, o, &rnd, &r::Departure::default(), &r::Departure::default(), r::SHOW).to_bytes()
    } else {
        let u: SignalUser = decoded(&held, "a user")?;
        let e: RosterEntryCommitment = decoded(&entry, "a roster entry")?;
        let p = u.show(&mut gen::rng(s), &e).map_err(refused("show", "the user can't show the credential".to_string()))?;
        encodings(&p, &p.to_bytes(), "a presentation")?;
        p.to_bytes()
    };
    // Verify
    let parsed = match r::Presentation::from_bytes(&pres) {
        Some(p) => p,
        None => return fail("encoding", format!("a presentation isn't encoded as documented: {}", gen::hex(&pres))),
    };
    ensure!(parsed.roster == c, "presentation", "a presentation for another roster entry");
    let verified = if theirs(4) {
        ensure!(
            r::presentation_ok(&w.p, &w.k, &w.x1, &parsed),
            "presentation",
            "another implementation rejects the presentation {}",
            gen::hex(&pres)
        );
        pres
    } else {
        let p: SignalCredentialPresentation = decoded(&pres, "a presentation")?;
        let i: SignalIssuer = decoded(&issuer, "an issuer")?;
        let v = i.verify(p).map_err(refused("presentation", format!("a conforming presentation is rejected, {}", gen::hex(&pres))))?;
        encodings(&v, &pres, "VerifiedSignalCredential")?;
        v.to_bytes()
    };
    if theirs(5) {
        ensure!(
            r::membership_ok(&w.p, &parsed),
            "membership",
            "another implementation rejects the membership of {}",
            gen::hex(&verified)
        );
    } else {
        let v: VerifiedSignalCredential = decoded(&verified, "a verified credential")?;
        let x = w
            .issuer
            .verify_roster_membership(&v)
            .map_err(refused("membership", format!("conforming membership is rejected, {}", gen::hex(&verified))))?;
        encodings(&x, &entry[..32], "CommittedPhoneNumber")?;
    }
    s.interesting();
    s.note(format!("number {}, roles played by the reference: {:06b}", gen::dstr(&d), roles));
    Ok(())
}

/// The credentials themselves, without phone numbers.
fn aeonflux_level(s: &mut Src) -> Res {
    let w = setup(s);
    let m = gen::scalar(s);
    let roles = s.draw(6) + 1;
    let theirs = |i: u64| roles >> i & 1 == 1;
    let mut ib = w.p.to_bytes();
    ib.extend(r::keypair_bytes(&w.p, &w.k));
    let issuer: Issuer = decoded(&ib, "an issuer")?;
    let ip: IssuerParameters = decoded(&r::enc(&w.x1), "an issuer's parameters")?;
    let issuance = if theirs(0) {
        let ks: Vec<Scalar> = (0..4).map(|_| gen::random_scalar(s)).collect();
        let (b, z) = (gen::nonzero_scalar(s), gen::scalar(s));
        r::issue(&w.p, &w.k, m, b, z, &ks, &r::Departure::default(), b"AEONFLUX ISSUANCE").to_bytes()
    } else {
        let req = aeonflux::credential::CredentialRequest { attributes_revealed: vec![m] };
        encodings(&req, m.as_bytes(), "CredentialRequest")?;
        issuer.issue(&req, &mut gen::rng(s)).map_err(broken("issue"))?.to_bytes()
    };
    let parsed = match r::Issuance::from_bytes(&issuance) {
        Some(i) => i,
        None => return fail("encoding", format!("an issuance isn't encoded as documented: {}", gen::hex(&issuance))),
    };
    let held = user_bytes(&w.p, &w.x1, m, &parsed.p, &parsed.q)[32..].to_vec();
    if theirs(1) {
        let ok = parsed.m == m && r::issuance_ok(&w.p, &w.x1, &parsed) && parsed.q == parsed.p * (w.k.x0 + w.k.x1 * m);
        ensure!(ok, "issuance", "another implementation rejects the issuance {}", gen::hex(&issuance));
    } else {
        let i: CredentialIssuance = decoded(&issuance, "an issuance")?;
        let mut u = User { system_parameters: w.sys.sp, issuer_parameters: ip, key: None, credential: None };
        u.obtain_finish(Some(&i)).map_err(refused("issuance", format!("a conforming issuance is rejected, {}", gen::hex(&issuance))))?;
        encodings(&u, &held, "User")?;
    }
    if theirs(2) {
        let rnd = show_random(s);
        let none = r::Departure::default();
        let p = r::show(&w.p, &w.x1, &parsed.p, &parsed.q, m, &w.p.g, Scalar::zero(), &rnd, &none, &none, r::SHOW).inner();
        let q: aeonflux::credential::CredentialPresentation = decoded(&p, "a presentation")?;
        let v = issuer.verify(&q).map_err(refused("presentation", format!("a conforming presentation is rejected, {}", gen::hex(&p))))?;
        encodings(&v, &p, "VerifiedCredential")?;
    } else {
        use aeonflux::nonces::Nonces;
        let u: User = decoded(&held, "a user")?;
        let n = Nonces::new(&mut gen::rng(s), 1);
        let p = u.show(&n, &mut gen::rng(s)).map_err(refused("show", "the user can't show the credential".to_string()))?;
        encodings(&p, &p.to_bytes(), "CredentialPresentation")?;
        let mut b = r::enc(&w.p.g).to_vec();
        b.extend(p.to_bytes());
        b.extend(proof(s, 3).to_bytes());
        let q = match r::Presentation::from_bytes(&b) {
            Some(q) => q,
            None => return fail("encoding", format!("a presentation isn't encoded as documented: {}", gen::hex(&b))),
        };
        ensure!(r::presentation_ok(&w.p, &w.k, &w.x1, &q), "presentation", "another implementation rejects the presentation {}", gen::hex(&b));
    }
    s.interesting();
    s.label(&format!("roles {:03b}", roles));
    s.note(format!("attribute {}, roles {:03b}", gen::hex(m.as_bytes()), roles));
    Ok(())
}

/// Proofs of all systems in both directions.
fn proofs(s: &mut Src) -> Res {
    let k = s.below(5);
    let y = &p09::SYSTEMS[k];
    let (p, x) = p09::statement(s, y.spec);
    let names: [&'static [u8]; 4] = [b"AEONFLUX ISSUANCE", b"AEONFLUX SHOW", b"SIGNAL GROUP MEMBERSHIP", b"another context"];
    let name = *s.pick(&names);
    let b = (y.create)(&mut merlin::Transcript::new(name), &p, &x);
    match r::RProof::from_bytes(y.spec, &b) {
        Some(q) => ensure!(
            y.spec.verify(&mut merlin::Transcript::new(name), &p, &q),
            "proof",
            "{}: another implementation rejects the proof {}",
            y.spec.name,
            gen::hex(&b)
        ),
        None => return fail("encoding", format!("{}: a proof isn't encoded as documented: {}", y.spec.name, gen::hex(&b))),
    }
    let ks: Vec<Scalar> = x.iter().map(|_| gen::random_scalar(s)).collect();
    let q = y.spec.prove(&mut merlin::Transcript::new(name), &p, &x, &ks, &r::Departure::default()).to_bytes();
    ensure!(
        (y.verify)(&mut merlin::Transcript::new(name), &p, &q) == Some(true),
        "proof",
        "{}: a conforming proof is rejected: {}",
        y.spec.name,
        gen::hex(&q)
    );
    s.label(y.spec.name);
    s.interesting();
    s.note(format!("{}: {}", y.spec.name, gen::hex(&b)));
    Ok(())
}

// ---------------------------------------------------------------- recorded data

static VECTORS: &str = include_str!("../vectors.json");

fn unhex(v: &Value) -> Vec<u8> {
    let h = v.as_str().unwrap_or_else(|| internal("no string in the vectors"));
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn vectors() -> &'static Vec<Value> {
    thread_local! { static V: &'static Vec<Value> = Box::leak(Box::new(serde_json::from_str(VECTORS).unwrap())); }
    V.with(|v| *v)
}

fn seeded(b: &[u8]) -> ChaChaRng {
    let mut t = [0u8; 32];
    t.copy_from_slice(b);
    ChaChaRng::from_seed(t)
}

/// Record a protocol run by the library as it is.
pub fn record() {
    let mut all = Vec::new();
    for i in 0..64u64 {
        let mut rng = seeded(&[i as u8 + 1; 32]);
        let mut seed = [0u8; 32];
        rand_core::RngCore::fill_bytes(&mut rng, &mut seed);
        let n = (i as usize * 7) % 27;
        let d: Vec<u8> = (0..n).map(|j| ((i as usize * 31 + j * j * 7 + j) % 10) as u8).collect();
        let sp = SystemParameters::hunt_and_peck(&mut seeded(&seed));
        let issuer = SignalIssuer::create(sp, &mut rng);
        let ip = issuer.get_issuer_parameters();
        let iss = issuer.issue(&d, &mut rng).unwrap();
        let mut u = SignalUser::new(sp, ip.clone(), None, &d).unwrap();
        u.obtain_finish(Some(&iss)).unwrap();
        let e = RosterEntryCommitment::create(&d, &sp, &mut rng).unwrap();
        let p = u.show(&mut rng, &e).unwrap();
        all.push(json!({
            "seed": gen::hex(&seed), "phone": gen::hex(&d), "params": gen::hex(&sp.to_bytes()),
            "keypair": gen::hex(&issuer.issuer.keypair.to_bytes()), "issuer_params": gen::hex(&ip.to_bytes()),
            "issuance": gen::hex(&iss.to_bytes()), "user": gen::hex(&u.to_bytes()), "entry": gen::hex(&e.to_bytes()),
            "presentation": gen::hex(&p.to_bytes()),
        }));
    }
    println!("{}", serde_json::to_string_pretty(&all).unwrap());
}

fn recorded(s: &mut Src) -> Res {
    let v = &vectors()[s.below(vectors().len())];
    let get = |n: &str| unhex(&v[n]);
    let d = get("phone");
    if v.get("seed").is_some() {
        let sp = SystemParameters::hunt_and_peck(&mut seeded(&get("seed"))).to_bytes();
        ensure!(sp == get("params"), "seed", "seed {} gives parameters {} instead of {}", gen::hex(&get("seed")), gen::hex(&sp), gen::hex(&get("params")));
        s.label("seed");
    }
    let sp: SystemParameters = decoded(&get("params"), "SystemParameters")?;
    encodings(&sp, &get("params"), "SystemParameters")?;
    let kp: amacs::Keypair = decoded(&get("keypair"), "amacs::Keypair")?;
    encodings(&kp, &get("keypair"), "amacs::Keypair")?;
    let ip: IssuerParameters = decoded(&get("issuer_params"), "the issuer's parameters")?;
    encodings(&ip, &get("issuer_params"), "the issuer's parameters")?;
    let issuer = SignalIssuer::new(sp, kp);
    let mut b = get("params");
    b.extend(get("keypair"));
    encodings(&issuer, &b, "SignalIssuer")?;
    let issuer: SignalIssuer = decoded(&b, "SignalIssuer")?;
    ensure!(issuer.get_issuer_parameters().to_bytes() == get("issuer_params"), "issuer", "the issuer's parameters are others");

    // The recorded issuance
    let iss: SignalCredentialIssuance = decoded(&get("issuance"), "an issuance")?;
    encodings(&iss, &get("issuance"), "an issuance")?;
    let mut u = SignalUser::new(sp, ip.clone(), None, &d).map_err(refused("user", "no user for a recorded number".to_string()))?;
    u.obtain_finish(Some(&iss)).map_err(refused("issuance", format!("a recorded issuance is rejected, {}", gen::hex(&get("issuance")))))?;
    encodings(&u, &get("user"), "SignalUser")?;

    // The recorded user shows the credential for a recorded, or a new, entry.
    let u: SignalUser = decoded(&get("user"), "a user")?;
    let e: RosterEntryCommitment = if v.get("entry").is_some() && s.chance(1, 2) {
        let e: RosterEntryCommitment = decoded(&get("entry"), "a roster entry")?;
        encodings(&e, &get("entry"), "RosterEntryCommitment")?;
        e.open(&d, &sp).map_err(refused("roster", "a recorded entry doesn't open".to_string()))?;
        s.label("recorded entry");
        e
    } else {
        RosterEntryCommitment::create(&d, &sp, &mut gen::rng(s)).map_err(broken("entry"))?
    };
    let p = u.show(&mut gen::rng(s), &e).map_err(refused("show", "a recorded user can't show the credential".to_string()))?;
    let c = issuer.verify(p).map_err(refused("presentation", "a recorded user's presentation is rejected".to_string()))?;
    let c = issuer.verify_roster_membership(&c).map_err(refused("membership", "a recorded user's membership is rejected".to_string()))?;
    encodings(&c, &e.to_bytes()[..32], "CommittedPhoneNumber")?;

    // The recorded presentation
    let b = get("presentation");
    let p: SignalCredentialPresentation = decoded(&b, "a presentation")?;
    encodings(&p, &b, "a presentation")?;
    let ver = issuer.verify(p).map_err(refused("presentation", format!("a recorded presentation is rejected, {}", gen::hex(&b))))?;
    encodings(&ver, &b, "VerifiedSignalCredential")?;
    let c: CommittedPhoneNumber =
        issuer.verify_roster_membership(&ver).map_err(refused("membership", format!("recorded membership is rejected, {}", gen::hex(&b))))?;
    encodings(&c, &b[..32], "CommittedPhoneNumber")?;
    // A new issuance to an old user
    let i = issuer.issue(&d, &mut gen::rng(s)).map_err(refused("issue", "a recorded issuer can't issue".to_string()))?;
    let mut u: SignalUser = decoded(&get("user"), "a user")?;
    u.obtain_finish(Some(&i)).map_err(refused("issuance", "a recorded user rejects a new issuance".to_string()))?;
    s.interesting();
    s.note(format!("recorded run for {}", gen::dstr(&d)));
    Ok(())
}

// ---------------------------------------------------------------- the released library

/// A protocol run in which some of the roles are played by the C library as it was released.
fn released(s: &mut Src) -> Res {
    let lib = Lib::released();
    let d = gen::digits_nonempty(s);
    let roles = s.draw(254) + 1;
    let theirs = |i: u64| roles >> i & 1 == 1;
    let seeds: Vec<[u8; 32]> = (0..6).map(|_| gen::seed32(s)).collect();
    let call = |f: usize, args: &[&[u8]]| {
        let (n, b) = lib.call_released(f, args);
        if n as usize != b.len() && n != 1 {
            internal("the released library's result is unusable");
        }
        (n, b)
    };
    let must = |f: usize, args: &[&[u8]], sig: &str, what: &str| -> Result<Vec<u8>, Fail> {
        let (n, b) = call(f, args);
        if n == 0 {
            return Err(Fail { sig: sig.to_string(), msg: format!("the released library {}: {}", what, args.iter().map(|a| gen::hex(a)).collect::<Vec<_>>().join(", ")) });
        }
        Ok(b)
    };
    // Parameters are a function of the seed.
    let sp = call(0, &[&seeds[0]]).1;
    let now = SystemParameters::hunt_and_peck(&mut seeded(&seeds[0]));
    ensure!(now.to_bytes() == sp, "seed", "seed {} gives parameters {} instead of {}", gen::hex(&seeds[0]), gen::hex(&now.to_bytes()), gen::hex(&sp));
    encodings(&now, &sp, "SystemParameters")?;
    // An issuer
    let kp = if theirs(0) {
        must(1, &[&sp, &seeds[1]], "parameters", "makes no key for the parameters")?
    } else {
        SignalIssuer::create(now, &mut seeded(&seeds[1])).issuer.keypair.to_bytes()
    };
    let keypair: amacs::Keypair = decoded(&kp, "amacs::Keypair")?;
    encodings(&keypair, &kp, "amacs::Keypair")?;
    let issuer = SignalIssuer::new(now, keypair);
    let is = must(2, &[&sp, &kp], "keypair", "takes no key")?;
    encodings(&issuer, &is, "SignalIssuer")?;
    let ip = must(3, &[&is], "issuer", "takes no issuer")?;
    let params: IssuerParameters = decoded(&ip, "the issuer's parameters")?;
    encodings(&params, &ip, "the issuer's parameters")?;
    ensure!(issuer.get_issuer_parameters().to_bytes() == ip, "issuer", "the issuer's parameters are others");
    // Issue
    let issuance = if theirs(1) {
        must(4, &[&is, &d, &seeds[2]], "issuer", "issues nothing")?
    } else {
        let i: SignalIssuer = decoded(&is, "an issuer")?;
        i.issue(&d, &mut seeded(&seeds[2])).map_err(refused("issue", "nothing is issued".to_string()))?.to_bytes()
    };
    let i: SignalCredentialIssuance = decoded(&issuance, "an issuance")?;
    encodings(&i, &issuance, "an issuance")?;
    // Obtain; the user is the same in any case
    let us = if theirs(2) {
        must(7, &[&d, &sp, &ip, &issuance], "issuance", "rejects the issuance")?
    } else {
        let mut u = SignalUser::new(now, params.clone(), None, &d).map_err(refused("user", "no user for a number".to_string()))?;
        u.obtain_finish(Some(&i)).map_err(refused("issuance", format!("a conforming issuance is rejected, {}", gen::hex(&issuance))))?;
        u.to_bytes()
    };
    let u: SignalUser = decoded(&us, "a user")?;
    encodings(&u, &us, "SignalUser")?;
    // An entry
    let en = if theirs(3) {
        must(9, &[&d, &sp, &seeds[3]], "roster", "makes no entry")?
    } else {
        RosterEntryCommitment::create(&d, &now, &mut seeded(&seeds[3])).map_err(refused("roster", "no entry".to_string()))?.to_bytes()
    };
    let e: RosterEntryCommitment = decoded(&en, "a roster entry")?;
    encodings(&e, &en, "RosterEntryCommitment")?;
    if theirs(4) {
        let n = call(11, &[&en, &d, &sp]).0;
        ensure!(n == 1, "roster", "the released library can't open the entry {} for {}", gen::hex(&en), gen::dstr(&d));
    } else {
        ensure!(e.open(&d, &now).is_ok(), "roster", "the entry {} doesn't open for {}", gen::hex(&en), gen::dstr(&d));
    }
    // Show
    let pres = if theirs(5) {
        must(8, &[&us, &en, &seeds[4]], "user", "can't show the user's credential")?
    } else {
        u.show(&mut seeded(&seeds[4]), &e).map_err(refused("show", "the user can't show the credential".to_string()))?.to_bytes()
    };
    let p: SignalCredentialPresentation = decoded(&pres, "a presentation")?;
    encodings(&p, &pres, "a presentation")?;
    // Verify
    let ve = if theirs(6) {
        must(5, &[&is, &pres], "presentation", "rejects the presentation")?
    } else {
        issuer.verify(p).map_err(refused("presentation", format!("a conforming presentation is rejected, {}", gen::hex(&pres))))?.to_bytes()
    };
    ensure!(ve == pres, "presentation", "the verified credential is another");
    let v: VerifiedSignalCredential = decoded(&ve, "a verified credential")?;
    encodings(&v, &ve, "VerifiedSignalCredential")?;
    let c = if theirs(7) {
        must(6, &[&is, &ve], "membership", "rejects the membership")?
    } else {
        issuer.verify_roster_membership(&v).map_err(refused("membership", format!("conforming membership is rejected, {}", gen::hex(&ve))))?.to_bytes()
    };
    ensure!(c[..] == en[..32], "membership", "membership of another entry");
    for (i, n) in ["issuer's keys", "issuer", "user", "roster", "opener", "prover", "verifier", "membership verifier"].iter().enumerate() {
        if theirs(i as u64) {
            s.label(&format!("released library as {}", n));
        }
    }
    s.interesting();
    s.note(format!("number {}, roles played by the released library: {:08b}", gen::dstr(&d), roles));
    Ok(())
}

pub static C15: &[Check] = &[
    Check {
        name: "released",
        quick: 15_000,
        thorough: 200_000,
        rule: "every case: a protocol run with at least one of eight roles played by the C library as it was released",
        run: released,
    },
    Check {
        name: "interop",
        quick: 12_000,
        thorough: 300_000,
        rule: "every case: a protocol run with at least one of six roles played by the reference, and at least one by the library",
        run: interop,
    },
    Check {
        name: "aeonflux",
        quick: 8_000,
        thorough: 200_000,
        rule: "every case: a credential on an arbitrary attribute issued, stored and shown, at least one role played by the reference",
        run: aeonflux_level,
    },
    Check {
        name: "proofs",
        quick: 12_000,
        thorough: 300_000,
        rule: "every case: a proof of one of the five systems made by each side and verified by the other",
        run: proofs,
    },
    Check {
        name: "recorded",
        quick: 3_000,
        thorough: 60_000,
        rule: "every case: a recorded run (one of 65) continued with new randomness",
        run: recorded,
    },
];
