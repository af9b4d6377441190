//! C03: roster membership is proven only for the credential's own number.

use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use signal_credential::credential::SignalCredentialPresentation;
use signal_credential::phone_number::RosterEntryCommitment;

use crate::common::*;
use crate::engine::{GIVEN_UP, fail, Check, Res, Src};
use crate::gen;
use crate::refimpl as r;

/// The membership decision on a presentation whose credential part is valid.
fn judge(w: &Setup, b: &[u8], must: Option<bool>, what: &str) -> Res {
    let p = match r::Presentation::from_bytes(b) {
        Some(p) => p,
        None => {
            ensure!(SignalCredentialPresentation::from_bytes(b).is_err(), "decoded", "malformed, but decoded: {}", what);
            return Ok(());
        }
    };
    let expected = r::membership_ok(&w.p, &p);
    if let Some(m) = must {
        if m != expected {
            internal(&format!("the reference verifier says {} on {}", expected, what));
        }
    }
    let x = SignalCredentialPresentation::from_bytes(b).map_err(broken("decode"))?;
    let commitment = x.roster_entry_commitment;
    let v = match w.issuer.verify(x) {
        Ok(v) => v,
        // Then there's no verified presentation to begin with.
        Err(_) if !r::presentation_ok(&w.p, &w.k, &w.x1, &p) => return Ok(()),
        Err(e) => return fail(GIVEN_UP, format!("verify refuses a valid credential: {:?}: {}", e, what)),
    };
    match w.issuer.verify_roster_membership(&v) {
        Ok(c) => {
            ensure!(expected, "confirmed", "membership confirmed, but must not be: {}: {}", what, gen::hex(b));
            ensure!(
                c == commitment && c.to_bytes() == r::enc(&p.roster).to_vec(),
                "other-entry",
                "another commitment than the one presented was returned: {}",
                what
            );
        }
        Err(e) => ensure!(!expected, GIVEN_UP, "membership refused with {:?}, but holds: {}: {}", e, what, gen::hex(b)),
    }
    Ok(())
}

/// Credentials shown with an entry on the same or another number.
fn pairs(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let u = user(s, &w, &d)?;
    let mut what = String::new();
    let mut holds = true;
    let e = match s.draw(7) {
        0 | 1 => {
            what.push_str("same number");
            entry(s, &w, &d)?
        }
        2 | 3 | 4 => {
            let e = gen::near(s, &d);
            what = format!("{} with an entry on {}", gen::dstr(&d), gen::dstr(&e));
            holds = false;
            s.label("near number");
            entry(s, &w, &e)?
        }
        5 => {
            let e = gen::digits(s);
            holds = e == d;
            what = format!("{} with an entry on {}", gen::dstr(&d), gen::dstr(&e));
            entry(s, &w, &e)?
        }
        6 => {
            // An entry made under other parameters.
            let mut sys = gen::sys(s);
            if s.chance(1, 3) {
                sys = w.sys;
                sys.sp.h += w.p.g;
            }
            holds = sys.sp.h == w.p.h;
            what.push_str("entry under other parameters");
            RosterEntryCommitment::create(&d, &sys.sp, &mut gen::rng(s)).map_err(broken("entry"))?
        }
        _ => {
            // An entry whose opening doesn't fit.
            let e = entry(s, &w, &d)?;
            let mut o = [0u8; 32];
            o.copy_from_slice(&e.opening.to_bytes());
            let o = other_scalar(s, &Scalar::from_canonical_bytes(o).unwrap());
            holds = false;
            what.push_str("wrong opening");
            RosterEntryCommitment { commitment: e.commitment, opening: o.into() }
        }
    };
    let x = match u.show(&mut gen::rng(s), &e) {
        Ok(x) => x,
        // A user may refuse to show with an entry which doesn't fit.
        Err(_) if !holds => return Ok(()),
        Err(e) => return fail(GIVEN_UP, format!("show: {:?}", e)),
    };
    ensure!(x.roster_entry_commitment == e.commitment, "other-entry", "the entry presented isn't the one given");
    s.label(if holds { "equal" } else { "not equal" });
    s.interesting();
    s.note(what.clone());
    judge(&w, &x.to_bytes(), Some(holds), &what)
}

/// Roster parts altered or exchanged.
fn altered(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let u = user(s, &w, &d)?;
    let e = entry(s, &w, &d)?;
    let x = show(s, &u, &e)?;
    let good = parse(&x)?;
    let mut p = good.clone();
    let mut what = String::new();
    match s.draw(7) {
        0 => {
            // The same entry shown again: the earlier proof.
            let y = show(s, &u, &e)?;
            let q = parse(&y)?;
            p.equal = q.equal;
            what.push_str("membership proof replayed from another show of the same entry");
        }
        1 => {
            let f = entry(s, &w, &d)?;
            let y = show(s, &u, &f)?;
            let q = parse(&y)?;
            match s.draw(2) {
                0 => p.roster = q.roster,
                1 => p.equal = q.equal,
                _ => {
                    p.roster = q.roster;
                    p.equal = q.equal;
                }
            }
            what.push_str("parts from a show of another entry on the same number");
        }
        2 => {
            let d2 = gen::near(s, &d);
            let q = honest(s, &w, &d2)?;
            match s.draw(2) {
                0 => p.roster = q.roster,
                1 => p.equal = q.equal,
                _ => {
                    p.roster = q.roster;
                    p.equal = q.equal;
                }
            }
            what.push_str("parts of another user");
        }
        3 => {
            p.roster = other_point(s, &w.p, &p.roster);
            what.push_str("entry altered");
        }
        4 => {
            p.equal.challenge = other_scalar(s, &p.equal.challenge);
            what.push_str("challenge altered");
        }
        5 => {
            let i = s.below(3);
            p.equal.responses[i] = other_scalar(s, &p.equal.responses[i]);
            what.push_str(&format!("response {} altered", i));
        }
        6 => {
            // Entry and response moved together.
            let t = gen::nonzero_scalar(s);
            if s.chance(1, 2) {
                p.roster += w.p.g * t;
                p.equal.responses[2] += p.equal.challenge * t;
            } else {
                p.roster += w.p.h * t;
                p.equal.responses[0] += p.equal.challenge * t;
            }
            what.push_str("entry and response shifted");
        }
        _ => {
            // The valid credential proof in place of the membership proof, or the reverse.
            if s.chance(1, 2) {
                p.equal = p.valid.clone();
            } else {
                p.equal.responses.rotate_left(1);
            }
            what.push_str("proofs confused");
        }
    }
    let same = p == good;
    if !same {
        s.interesting();
    }
    s.note(what.clone());
    judge(&w, &good.to_bytes(), Some(true), "honest")?;
    judge(&w, &p.to_bytes(), Some(same), &what)
}

/// Alterations of the encoding of the roster parts.
fn altered_bytes(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let good = honest(s, &w, &d)?.to_bytes();
    let n = s.range(1, 6);
    for _ in 0..n {
        let mut b = good.clone();
        let part = if s.chance(1, 3) { 0..32 } else { 288..448 };
        let (x, how) = gen::alter_bytes(s, &good[part.clone()]);
        if x.len() != part.len() {
            continue;
        }
        b[part].copy_from_slice(&x);
        let same = b == good;
        if r::Presentation::from_bytes(&b).is_some() {
            if !same {
                s.interesting();
                s.label("altered, but well-formed");
            }
            judge(&w, &b, Some(same), how)?;
        } else {
            judge(&w, &b, None, how)?;
        }
    }
    s.note(format!("{} alterations", n));
    Ok(())
}

/// Membership proofs by a dishonest holder of a valid credential.
fn forged(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let m = r::phone_scalar(&d).unwrap();
    let d2 = gen::near(s, &d);
    let m2 = r::phone_scalar(&d2).unwrap();
    let o = gen::scalar(s);
    let p0 = w.p.g * gen::nonzero_scalar(s);
    let q0 = p0 * (w.k.x0 + w.k.x1 * m);
    let rnd = show_random(s);
    let dep = r::Departure::default();
    let own = w.p.h * m + w.p.g * o;
    let other = w.p.h * m2 + w.p.g * o;
    let mut p = r::show(&w.p, &w.x1, &p0, &q0, m, &own, o, &rnd, &dep, &dep, r::SHOW);
    let mut prove = |p: &mut r::Presentation, roster: RistrettoPoint, sec: [Scalar; 3], dep: &r::Departure, ctx: &'static [u8]| {
        p.roster = roster;
        p.equal = r::COMMITTED_VALUES_EQUAL.prove(
            &mut Transcript::new(ctx),
            &[w.p.g, w.p.h, p.p, p.cm, roster],
            &sec,
            &rnd.ks[3..6],
            dep,
        );
    };
    let ctx = r::SHOW.1;
    let what;
    let mut must = Some(false);
    match s.draw(9) {
        0 => {
            what = "other's entry, own number".to_string();
            prove(&mut p, other, [m, rnd.z0, o], &dep, ctx);
        }
        1 => {
            what = "other's entry, other's number".to_string();
            prove(&mut p, other, [m2, rnd.z0, o], &dep, ctx);
        }
        2 => {
            // Openings which make up for the difference, if the logarithm of h is known.
            what = "other's entry, opened otherwise".to_string();
            let t = gen::scalar(s);
            prove(&mut p, other, [m2, rnd.z0 + t, o], &dep, ctx);
        }
        3 | 4 => {
            let (dd, x) = departure(s, &r::COMMITTED_VALUES_EQUAL);
            what = format!("the prover {}", x);
            prove(&mut p, own, [m, rnd.z0, o], &dd, ctx);
        }
        5 => {
            let c: &'static [u8] =
                s.pick(&["", "AEONFLUX SHOW", "AEONFLUX ISSUANCE", "SIGNAL GROUP MEMBERSHI", "signal group membership"] as &[&'static str]).as_bytes();
            what = format!("context {:?}", String::from_utf8_lossy(c));
            prove(&mut p, own, [m, rnd.z0, o], &dep, c);
        }
        6 => {
            what = "degenerate entry".to_string();
            let e = match s.draw(4) {
                0 => RistrettoPoint::identity(),
                1 => w.p.h,
                2 => w.p.g,
                3 => p.cm,
                _ => p.p,
            };
            let sec = [if s.chance(1, 2) { m } else { Scalar::zero() }, rnd.z0, if s.chance(1, 2) { o } else { Scalar::zero() }];
            prove(&mut p, e, sec, &dep, ctx);
            // Not for sure false: with a known logarithm it may be a commitment to m.
            must = None;
        }
        7 => {
            what = "zero proof".to_string();
            p.roster = if s.chance(1, 2) { other } else { RistrettoPoint::identity() };
            p.equal = r::RProof { challenge: Scalar::zero(), responses: vec![Scalar::zero(); 3] };
        }
        8 => {
            what = "random proof".to_string();
            p.roster = other;
            p.equal = proof(s, 3);
        }
        _ => {
            what = "honest".to_string();
            must = Some(true);
        }
    }
    s.interesting();
    s.label(what.split(' ').next().unwrap_or(""));
    s.note(what.clone());
    judge(&w, &p.to_bytes(), must, &what)
}

pub static CHECKS: &[Check] = &[
    Check { name: "pairs", quick: 12000, thorough: 200_000, rule: "every case: a credential shown with an entry on an equal, near or other number", run: pairs },
    Check { name: "altered", quick: 8000, thorough: 150_000, rule: "the entry or the membership proof was altered or exchanged", run: altered },
    Check { name: "altered-bytes", quick: 5000, thorough: 100_000, rule: "an altered encoding which is still well-formed", run: altered_bytes },
    Check { name: "forged", quick: 10000, thorough: 200_000, rule: "every case: a membership proof made by a dishonest prover, or by an honest one of the reference implementation", run: forged },
];
