//! C01: honest runs of the protocol always succeed.

use aeonflux::credential::{CredentialIssuance, CredentialPresentation, CredentialRequest, VerifiedCredential};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::user::User;
use curve25519_dalek::scalar::Scalar;
use rand::{ChaChaRng, SeedableRng};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::sync::{Arc, Barrier};
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use crate::engine::{fail, Check, Fail, Res, Src};
use crate::gen;
use crate::refimpl as r;

/// A type with `to_bytes()` and `from_bytes()`.
pub trait Bytes: Sized {
    fn enc(&self) -> Vec<u8>;
    fn dec(b: &[u8]) -> Result<Self, String>;
}

#[macro_export]
macro_rules! impl_bytes {
    ($($t:ty),*) => {$(
        impl $crate::p01::Bytes for $t {
            fn enc(&self) -> Vec<u8> {
                let b = self.to_bytes();
                $crate::engine::trace(&b);
                b
            }
            fn dec(b: &[u8]) -> Result<Self, String> {
                let r = <$t>::from_bytes(b).map_err(|e| format!("{:?}", e));
                $crate::engine::trace(r.as_ref().err().map(|e| e.as_bytes()).unwrap_or(b""));
                r
            }
        }
    )*}
}

impl_bytes!(
    SignalIssuer, SignalUser, SignalCredentialPresentation, VerifiedSignalCredential, RosterEntryCommitment,
    CredentialIssuance, CredentialPresentation, CredentialRequest, VerifiedCredential, Issuer, User
);

/// Serialise and restore a value, or leave it as it is.
pub fn restore<T: Bytes + Serialize + DeserializeOwned>(s: &mut Src, x: T, what: &str) -> Result<T, Fail> {
    match s.draw(5) {
        0 | 1 | 2 => Ok(x),
        3 => {
            s.label("restored from bytes");
            T::dec(&x.enc()).or_else(|e| fail("restore", format!("{} not restored from its bytes: {}", what, e)))
        }
        4 => {
            s.label("restored from bincode");
            let b = bincode::serialize(&x).or_else(|e| fail("restore", format!("{} to bincode: {}", what, e)))?;
            bincode::deserialize(&b).or_else(|e| fail("restore", format!("{} not restored from bincode: {}", what, e)))
        }
        _ => {
            s.label("restored from JSON");
            let b = serde_json::to_string(&x).or_else(|e| fail("restore", format!("{} to JSON: {}", what, e)))?;
            serde_json::from_str(&b).or_else(|e| fail("restore", format!("{} not restored from JSON: {}", what, e)))
        }
    }
}

struct MIssuer {
    issuer: SignalIssuer,
    sys: usize,
}

struct MUser {
    user: SignalUser,
    issuer: usize,
    digits: Vec<u8>,
    has: bool,
}

struct MEntry {
    entry: RosterEntryCommitment,
    digits: Vec<u8>,
    sys: usize,
}

struct MPres {
    pres: SignalCredentialPresentation,
    issuer: usize,
    commitment: Vec<u8>,
}

struct MVer {
    ver: VerifiedSignalCredential,
    issuer: usize,
    commitment: Vec<u8>,
}

#[derive(Default)]
struct World {
    syss: Vec<gen::Sys>,
    issuers: Vec<MIssuer>,
    users: Vec<MUser>,
    entries: Vec<MEntry>,
    pending: Vec<(usize, SignalCredentialIssuance)>,
    pres: Vec<MPres>,
    vers: Vec<MVer>,
}

fn dbg<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

/// Interleavings of the steps of several users and issuers against a model which
/// knows who holds a credential, on which number and from whom.
fn histories(s: &mut Src) -> Res {
    let mut w = World::default();
    let steps = s.range(6, 40);
    let mut trace = String::new();
    for _ in 0..steps {
        // First there have to be an issuer, a user, and a credential.
        let op = if w.issuers.is_empty() {
            0
        } else if w.users.is_empty() || (w.users.len() < 2 && s.chance(1, 4)) {
            1
        } else if w.pending.is_empty() && w.users.iter().all(|u| !u.has) && s.chance(3, 4) {
            2
        } else {
            s.draw(15)
        };
        match op {
            0 if w.syss.len() < 2 || w.issuers.len() < 3 => {
                if w.syss.is_empty() || (w.syss.len() < 2 && s.chance(1, 3)) {
                    let x = gen::sys(s);
                    w.syss.push(x);
                }
                let k = s.below(w.syss.len());
                let issuer = gen::issuer(s, w.syss[k].sp);
                trace.push_str(&format!("issuer{}(sys{}) ", w.issuers.len(), k));
                w.issuers.push(MIssuer { issuer, sys: k });
            }
            1 if !w.issuers.is_empty() && w.users.len() < 4 => {
                let i = s.below(w.issuers.len());
                // Users with equal numbers are worth having.
                let d = if !w.users.is_empty() && s.chance(1, 4) {
                    let k = s.below(w.users.len());
                    w.users[k].digits.clone()
                } else {
                    gen::digits(s)
                };
                let key = if s.chance(1, 4) { Some(elgamal::Keypair::generate(&mut gen::rng(s))) } else { None };
                let sys = w.syss[w.issuers[i].sys].sp;
                let user = SignalUser::new(sys, w.issuers[i].issuer.get_issuer_parameters(), key, &d)
                    .or_else(|e| fail("user-new", format!("no user for {}: {:?}", gen::dstr(&d), e)))?;
                trace.push_str(&format!("user{}(issuer{},{}) ", w.users.len(), i, gen::dstr(&d)));
                w.users.push(MUser { user, issuer: i, digits: d, has: false });
            }
            2 | 3 | 4 if !w.users.is_empty() => {
                // issue, to be finished at once or later
                let u = s.below(w.users.len());
                let i = w.users[u].issuer;
                let iss = w.issuers[i].issuer.issue(&w.users[u].digits, &mut gen::rng(s)).or_else(|e| {
                    fail("issue", format!("issuing to {} failed: {:?}; after {}", gen::dstr(&w.users[u].digits), e, trace))
                })?;
                let iss = restore(s, iss, "issuance")?;
                trace.push_str(&format!("issue({}) ", u));
                if s.chance(1, 4) {
                    w.pending.push((u, iss));
                } else {
                    finish(&mut w, u, &iss, &mut trace)?;
                    if s.chance(1, 6) {
                        // The same issuance once more.
                        finish(&mut w, u, &iss, &mut trace)?;
                    }
                }
            }
            5 if !w.pending.is_empty() => {
                let k = s.below(w.pending.len());
                let (u, iss) = w.pending.swap_remove(k);
                s.label("issuance finished later");
                finish(&mut w, u, &iss, &mut trace)?;
            }
            6 if !w.users.is_empty() && w.entries.len() < 5 => {
                let u = s.below(w.users.len());
                let k = w.issuers[w.users[u].issuer].sys;
                let d = w.users[u].digits.clone();
                let e = RosterEntryCommitment::create(&d, &w.syss[k].sp, &mut gen::rng(s))
                    .or_else(|e| fail("entry-create", format!("no entry for {}: {:?}", gen::dstr(&d), e)))?;
                let e = restore(s, e, "roster entry")?;
                trace.push_str(&format!("entry{}({},sys{}) ", w.entries.len(), gen::dstr(&d), k));
                w.entries.push(MEntry { entry: e, digits: d, sys: k });
            }
            7 if !w.users.is_empty() => {
                let u = s.below(w.users.len());
                let old = std::mem::replace(
                    &mut w.users[u].user,
                    SignalUser::new(w.syss[0].sp, w.issuers[0].issuer.get_issuer_parameters(), None, &[1]).unwrap(),
                );
                w.users[u].user = restore(s, old, "user")?;
            }
            8 if !w.issuers.is_empty() => {
                let i = s.below(w.issuers.len());
                let sys = w.syss[w.issuers[i].sys].sp;
                if s.chance(1, 2) {
                    let kp = w.issuers[i].issuer.issuer.keypair.clone();
                    w.issuers[i].issuer = SignalIssuer::new(sys, kp);
                    s.label("issuer from key pair");
                } else {
                    let b = w.issuers[i].issuer.to_bytes();
                    let x = SignalIssuer::from_bytes(&b).or_else(|e| fail("restore", format!("issuer: {:?}", e)))?;
                    w.issuers[i].issuer = restore(s, x, "issuer")?;
                }
            }
            9 if !w.pres.is_empty() => {
                let k = s.below(w.pres.len());
                verify(s, &mut w, k, &mut trace)?;
            }
            10 if !w.vers.is_empty() => {
                let k = s.below(w.vers.len());
                membership(&w, k, &trace)?;
                s.label("membership of an earlier presentation");
            }
            _ => {
                // show with an entry on the same number, and verify now or later
                let with: Vec<usize> = (0..w.users.len()).filter(|u| w.users[*u].has).collect();
                if with.is_empty() {
                    if !w.users.is_empty() {
                        // Without a credential nothing can be shown.
                        let u = s.below(w.users.len());
                        let k = w.issuers[w.users[u].issuer].sys;
                        let e = RosterEntryCommitment::create(&w.users[u].digits, &w.syss[k].sp, &mut gen::rng(s)).map_err(dbg);
                        if let Ok(e) = e {
                            if w.users[u].user.show(&mut gen::rng(s), &e).is_ok() {
                                return fail("show-without", format!("a user without credential made a presentation; {}", trace));
                            }
                        }
                    }
                    continue;
                }
                let u = with[s.below(with.len())];
                let k = w.issuers[w.users[u].issuer].sys;
                let d = w.users[u].digits.clone();
                let fit: Vec<usize> = (0..w.entries.len()).filter(|e| w.entries[*e].digits == d && w.entries[*e].sys == k).collect();
                let ei = if fit.is_empty() {
                    let e = RosterEntryCommitment::create(&d, &w.syss[k].sp, &mut gen::rng(s))
                        .or_else(|e| fail("entry-create", format!("no entry for {}: {:?}", gen::dstr(&d), e)))?;
                    w.entries.push(MEntry { entry: e, digits: d.clone(), sys: k });
                    w.entries.len() - 1
                } else {
                    fit[s.below(fit.len())]
                };
                let shows = s.range(1, 2);
                for _ in 0..shows {
                    let p = {
                        let e = &w.entries[ei].entry;
                        let u = &w.users[u].user;
                        if s.chance(1, 8) {
                            s.label("constant generator");
                            u.show(&mut gen::ConstRng(s.byte()), e)
                        } else {
                            u.show(&mut gen::rng(s), e)
                        }
                    };
                    let p = p.or_else(|e| fail("show", format!("show of {} failed: {:?}; after {}", gen::dstr(&d), e, trace)))?;
                    let commitment = w.entries[ei].entry.commitment.to_bytes();
                    let p = restore(s, p, "presentation")?;
                    trace.push_str(&format!("show({},entry{}) ", u, ei));
                    s.label("show");
                    w.pres.push(MPres { pres: p, issuer: w.users[u].issuer, commitment });
                    if s.chance(3, 4) {
                        let k = w.pres.len() - 1;
                        verify(s, &mut w, k, &mut trace)?;
                    }
                }
            }
        }
    }
    for k in 0..w.pres.len().min(6) {
        verify(s, &mut w, k, &mut trace)?;
    }
    for k in 0..w.vers.len().min(6) {
        membership(&w, k, &trace)?;
    }
    if w.vers.len() >= 1 {
        s.interesting();
        s.label("verified something");
    }
    if w.users.iter().filter(|u| u.has).count() > 1 {
        s.label("several users with credentials");
    }
    s.note(trace);
    Ok(())
}

fn finish(w: &mut World, u: usize, iss: &SignalCredentialIssuance, trace: &mut String) -> Res {
    if let Err(e) = w.users[u].user.obtain_finish(Some(iss)) {
        return fail("obtain", format!("honest issuance refused: {:?}; after {}", e, trace));
    }
    let m = r::phone_scalar(&w.users[u].digits).unwrap();
    let ok = match w.users[u].user.user.credential {
        Some(ref c) => c.attributes == vec![m] && c.mac == iss.credential.mac,
        None => false,
    };
    if !ok {
        return fail("obtain-state", format!("the credential stored isn't the one issued; after {}", trace));
    }
    w.users[u].has = true;
    trace.push_str(&format!("obtain({}) ", u));
    Ok(())
}

fn verify(s: &mut Src, w: &mut World, k: usize, trace: &mut String) -> Res {
    let i = w.pres[k].issuer;
    let v = w.issuers[i]
        .issuer
        .verify(w.pres[k].pres.clone())
        .or_else(|e| fail("verify", format!("honest presentation refused: {:?}; after {}", e, trace)))?;
    if v.to_bytes() != w.pres[k].pres.to_bytes() {
        return fail("verify-value", format!("the verified credential isn't the one presented; after {}", trace));
    }
    let v = restore(s, v, "verified credential")?;
    trace.push_str(&format!("verify({}) ", k));
    w.vers.push(MVer { ver: v, issuer: i, commitment: w.pres[k].commitment.clone() });
    let n = w.vers.len() - 1;
    membership(w, n, trace)
}

fn membership(w: &World, k: usize, trace: &str) -> Res {
    let c = w.issuers[w.vers[k].issuer]
        .issuer
        .verify_roster_membership(&w.vers[k].ver)
        .or_else(|e| fail("membership", format!("honest membership refused: {:?}; after {}", e, trace)))?;
    if c.to_bytes() != w.vers[k].commitment {
        return fail("membership-value", format!("another roster entry commitment was returned; after {}", trace));
    }
    Ok(())
}

/// The general library with any attribute, extreme ones included.
fn general(s: &mut Src) -> Res {
    let sys = gen::sys(s);
    let mut issuer = match s.draw(2) {
        0 => Issuer::create(sys.sp, &mut gen::rng(s)),
        _ => {
            let mut k = gen::key(s);
            if k.x0 == Scalar::zero() && k.x1 == Scalar::zero() {
                k.x0 = Scalar::one();
            }
            Issuer::new(sys.sp, gen::keypair(&sys.sp, &k))
        }
    };
    let mut user = User::new(sys.sp, issuer.get_issuer_parameters(), None);
    let rounds = s.range(1, 3);
    for _ in 0..rounds {
        let m = gen::scalar(s);
        let req = user.obtain(vec![m]);
        let req = restore(s, req, "request")?;
        let iss = issuer.issue(&req, &mut gen::rng(s)).or_else(|e| fail("issue", format!("{:?} for {:?}", e, m)))?;
        let iss = restore(s, iss, "issuance")?;
        user.obtain_finish(Some(&iss)).or_else(|e| fail("obtain", format!("{:?} for {:?}", e, m)))?;
        issuer = restore(s, issuer, "issuer")?;
        user = restore(s, user, "user")?;
        let shows = s.range(1, 2);
        for _ in 0..shows {
            let nonces = if s.chance(1, 6) {
                s.label("constant generator");
                Nonces::new(&mut gen::ConstRng(s.byte()), 1)
            } else {
                Nonces::new(&mut gen::rng(s), 1)
            };
            let p = user.show(&nonces, &mut gen::rng(s)).or_else(|e| fail("show", format!("{:?} for {:?}", e, m)))?;
            let p = restore(s, p, "presentation")?;
            let v = issuer.verify(&p).or_else(|e| fail("verify", format!("{:?} for {:?}", e, m)))?;
            if v.0 != p {
                return fail("verify-value", "another presentation was returned".to_string());
            }
            restore(s, v, "verified credential")?;
        }
    }
    let _ = Ephemeral::from(Scalar::one());
    s.interesting();
    s.note(format!("{} issuances of arbitrary attributes", rounds));
    Ok(())
}

/// What one of several threads does, and what comes of it when nobody else is about.
struct Job {
    sys: SystemParameters,
    issuer: Vec<u8>,
    digits: Vec<u8>,
    text: String,
    seeds: [[u8; 32]; 3],
    os: u64,
    entry: Vec<u8>,
    mac: Vec<u8>,
    restored: Option<Vec<u8>>,
    number: Vec<u8>,
    keys: elgamal::Keypair,
    scalar: Scalar,
    nonce: Scalar,
}

fn chacha(seed: &[u8; 32]) -> ChaChaRng {
    ChaChaRng::from_seed(*seed)
}

/// The cheap parts of a run, which give the same every time.
fn cheap(j: &Job, issuer: &SignalIssuer) -> Res {
    let what = || gen::dstr(&j.digits);
    let e = RosterEntryCommitment::create(&j.digits, &j.sys, &mut chacha(&j.seeds[0]))
        .or_else(|e| fail("entry-create", format!("no entry for {}: {:?}", what(), e)))?;
    ensure!(e.to_bytes() == j.entry, "entry-value", "another entry for {}: {}", what(), gen::hex(&e.to_bytes()));
    ensure!(e.open(&j.digits, &j.sys).is_ok(), "open", "the entry for {} doesn't open", what());
    let n = PhoneNumber::try_from_bytes(&j.digits).map(|p| p.0.as_bytes().to_vec());
    ensure!(n.as_ref().ok() == Some(&j.number), "number", "{} becomes {:?}", what(), n);
    let t = PhoneNumber::try_from_string(&j.text).map(|p| p.0.as_bytes().to_vec());
    ensure!(t.as_ref().ok() == Some(&j.number), "number", "{} becomes {:?}", j.text, t);
    ensure!(issuer.to_bytes() == j.issuer, "issuer", "the issuer is encoded as {}", gen::hex(&issuer.to_bytes()));
    let back = SignalIssuer::from_bytes(&j.issuer).map(|i| i.to_bytes());
    ensure!(back.as_ref().ok() == Some(&j.issuer), "issuer", "the issuer is restored as {:?}", back);
    let m = elgamal::Message::from(&j.scalar);
    let x = j.keys.public.encrypt(&m, &Ephemeral::from(j.nonce));
    ensure!(j.keys.secret.decrypt(&x) == gen::B * j.scalar, "decrypt", "a message on {} isn't decrypted", what());
    Ok(())
}

/// A whole run.
fn whole(j: &Job, issuer: &SignalIssuer) -> Res {
    let what = || gen::dstr(&j.digits);
    let iss = issuer
        .issue(&j.digits, &mut chacha(&j.seeds[1]))
        .or_else(|e| fail("issue", format!("issuing to {} failed: {:?}", what(), e)))?;
    ensure!(iss.to_bytes()[..128] == j.mac[..], "issue-value", "another issuance to {}: {}", what(), gen::hex(&iss.to_bytes()));
    let mut user = SignalUser::new(j.sys, issuer.get_issuer_parameters(), None, &j.digits)
        .or_else(|e| fail("user-new", format!("no user for {}: {:?}", what(), e)))?;
    user.obtain_finish(Some(&iss)).or_else(|e| fail("obtain", format!("honest issuance refused: {:?}", e)))?;
    let bytes = Some(user.to_bytes());
    ensure!(j.restored.is_none() || bytes == j.restored, "obtain-state", "the user is {:?}", bytes.map(|b| gen::hex(&b)));
    let e = RosterEntryCommitment::from_bytes(&j.entry).or_else(|e| fail("restore", format!("roster entry: {:?}", e)))?;
    let p = user.show(&mut chacha(&j.seeds[2]), &e).or_else(|e| fail("show", format!("show of {} failed: {:?}", what(), e)))?;
    let v = issuer.verify(p.clone()).or_else(|e| fail("verify", format!("honest presentation refused: {:?}", e)))?;
    ensure!(v.to_bytes() == p.to_bytes(), "verify-value", "the verified credential isn't the one presented");
    let c = issuer
        .verify_roster_membership(&v)
        .or_else(|e| fail("membership", format!("honest membership refused: {:?}", e)))?;
    ensure!(c.to_bytes()[..] == j.entry[..32], "membership-value", "another roster entry commitment was returned");
    Ok(())
}

/// Several users and issuers in threads of one process.
fn threads(s: &mut Src) -> Res {
    let n = s.range(2, 4);
    let shared = gen::sys(s);
    let mut jobs = Vec::new();
    for _ in 0..n {
        let own = if s.chance(1, 2) { gen::sys(s).sp } else { shared.sp };
        let issuer = gen::issuer(s, own);
        let digits = gen::digits_nonempty(s);
        let text: String = digits.iter().map(|d| (b'0' + d) as char).collect();
        let seeds = [gen::seed32(s), gen::seed32(s), gen::seed32(s)];
        let os = s.draw(u32::max_value() as u64);
        let mut j = Job {
            sys: own,
            issuer: issuer.to_bytes(),
            number: r::phone_scalar(&digits).unwrap().as_bytes().to_vec(),
            entry: vec![],
            mac: vec![],
            restored: None,
            keys: elgamal::Keypair::generate(&mut gen::rng(s)),
            scalar: gen::scalar(s),
            nonce: gen::nonzero_scalar(s),
            digits,
            text,
            seeds,
            os,
        };
        // What it gives when it is alone
        let e = RosterEntryCommitment::create(&j.digits, &j.sys, &mut chacha(&j.seeds[0]))
            .or_else(|e| fail("entry-create", format!("no entry for {}: {:?}", gen::dstr(&j.digits), e)))?;
        j.entry = e.to_bytes();
        let i = issuer
            .issue(&j.digits, &mut chacha(&j.seeds[1]))
            .or_else(|e| fail("issue", format!("issuing to {} failed: {:?}", gen::dstr(&j.digits), e)))?;
        j.mac = i.to_bytes()[..128].to_vec();
        cheap(&j, &issuer)?;
        whole(&j, &issuer)?;
        jobs.push(j);
    }
    let rounds = *s.pick(&[1usize, 3, 6]);
    let each = *s.pick(&[10usize, 50, 200]);
    let start = Arc::new(Barrier::new(n));
    let handles: Vec<_> = jobs
        .into_iter()
        .map(|j| {
            let start = start.clone();
            std::thread::spawn(move || -> Res {
                crate::engine::os_seed(j.os);
                let issuer = SignalIssuer::from_bytes(&j.issuer).or_else(|e| fail("restore", format!("issuer: {:?}", e)));
                start.wait();
                let issuer = issuer?;
                for _ in 0..rounds {
                    for _ in 0..each {
                        cheap(&j, &issuer)?;
                    }
                    whole(&j, &issuer)?;
                }
                Ok(())
            })
        })
        .collect();
    let mut bad = None;
    for h in handles {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(f)) => bad = Some(f),
            Err(_) => bad = Some(Fail { sig: "panic".to_string(), msg: "a thread panicked".to_string() }),
        }
    }
    if let Some(f) = bad {
        return fail(&f.sig, format!("with {} threads at the same time: {}", n, f.msg));
    }
    s.label(&format!("{} threads", n));
    s.interesting();
    s.note(format!("{} threads, each with {} runs and {} encodings", n, rounds, rounds * each));
    Ok(())
}

/// Very many steps of the same parties.
fn long(s: &mut Src) -> Res {
    let sys = gen::sys(s).sp;
    let issuer = gen::issuer(s, sys);
    let d = gen::digits(s);
    let mut g = gen::rng(s);
    let n = s.range(150, 400);
    let what = s.draw(3);
    let mut user = SignalUser::new(sys, issuer.get_issuer_parameters(), None, &d)
        .or_else(|e| fail("user-new", format!("no user for {}: {:?}", gen::dstr(&d), e)))?;
    let mut entry = None;
    let mut pres: Option<SignalCredentialPresentation> = None;
    for k in 0..n {
        let at = || format!("in round {} for {}", k, gen::dstr(&d));
        if k == 0 || what == 0 {
            let i = issuer.issue(&d, &mut g).or_else(|e| fail("issue", format!("issuing failed {}: {:?}", at(), e)))?;
            user.obtain_finish(Some(&i)).or_else(|e| fail("obtain", format!("honest issuance refused {}: {:?}", at(), e)))?;
            if what == 0 && k + 1 < n {
                continue;
            }
        }
        if k == 0 || what == 1 || entry.is_none() {
            let e = RosterEntryCommitment::create(&d, &sys, &mut g)
                .or_else(|e| fail("entry-create", format!("no entry {}: {:?}", at(), e)))?;
            e.open(&d, &sys).or_else(|e| fail("open", format!("the entry doesn't open {}: {:?}", at(), e)))?;
            entry = Some(e);
            if what == 1 && k + 1 < n {
                continue;
            }
        }
        if pres.is_none() || what == 2 {
            let p = user.show(&mut g, entry.as_ref().unwrap()).or_else(|e| fail("show", format!("show failed {}: {:?}", at(), e)))?;
            pres = Some(p);
        }
        let p = pres.clone().unwrap();
        let v = issuer.verify(p).or_else(|e| fail("verify", format!("honest presentation refused {}: {:?}", at(), e)))?;
        let c = issuer
            .verify_roster_membership(&v)
            .or_else(|e| fail("membership", format!("honest membership refused {}: {:?}", at(), e)))?;
        ensure!(
            c.to_bytes() == entry.as_ref().unwrap().commitment.to_bytes(),
            "membership-value",
            "another roster entry commitment was returned {}",
            at()
        );
    }
    let what = ["issued again", "entries made", "shown", "verified"][what as usize];
    s.label(what);
    s.interesting();
    s.note(format!("{} times {}", n, what));
    Ok(())
}

pub static CHECKS: &[Check] = &[
    Check {
        name: "long",
        quick: 60,
        thorough: 1600,
        rule: "every case: one step of a run repeated 150 to 400 times by the same parties",
        run: long,
    },
    Check {
        name: "threads",
        quick: 120,
        thorough: 5000,
        rule: "every case: two to four threads, each with a user and an issuer of its own, at the same time",
        run: threads,
    },
    Check {
        name: "histories",
        quick: 6000,
        thorough: 160_000,
        rule: "a history of 6 to 40 steps in which at least one presentation was verified",
        run: histories,
    },
    Check {
        name: "general",
        quick: 8000,
        thorough: 160_000,
        rule: "every case: one to three credentials on arbitrary attributes issued and shown",
        run: general,
    },
];
