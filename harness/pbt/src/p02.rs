//! C02: only presentations made from an issued credential are accepted.

use aeonflux::amacs;
use aeonflux::credential::{Credential, CredentialPresentation};
use aeonflux::pedersen;
use aeonflux::proofs::valid_credential;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use signal_credential::credential::SignalCredentialPresentation;
use signal_credential::phone_number::RosterEntryCommitment;

use crate::common::*;
use crate::engine::{GIVEN_UP, catching, fail, Check, Res, Src};
use crate::gen;
use crate::refimpl as r;

/// Give `bytes` to the issuer.  `must` is known from how they were made; the
/// reference verifier is asked as well.
fn judge(w: &Setup, bytes: &[u8], must: Option<bool>, what: &str) -> Res {
    let parsed = r::Presentation::from_bytes(bytes);
    let expected = match parsed {
        Some(ref p) => r::presentation_ok(&w.p, &w.k, &w.x1, p),
        None => false,
    };
    if let Some(m) = must {
        if m != expected {
            internal(&format!("the reference verifier says {} on {}", expected, what));
        }
    }
    let got = match SignalCredentialPresentation::from_bytes(bytes) {
        Ok(p) => {
            let a = w.issuer.issuer.verify(&p.presentation);
            if let Ok(ref v) = a {
                ensure!(v.0 == p.presentation, "verify-value", "another presentation was returned as verified: {}", what);
            }
            let b = w.issuer.verify(p);
            ensure!(a.is_ok() == b.is_ok(), "issuers-differ", "Issuer says {:?}, SignalIssuer {:?}: {}", a.is_ok(), b.is_ok(), what);
            if let Ok(ref v) = b {
                ensure!(v.to_bytes() == bytes, "verify-value", "another presentation was returned as verified: {}", what);
            }
            b.is_ok()
        }
        Err(_) => false,
    };
    if got && !expected {
        return fail("accepted", format!("accepted, but must be rejected: {}: {}", what, gen::hex(bytes)));
    }
    if !got && expected {
        return fail(GIVEN_UP, format!("rejected, but is valid: {}: {}", what, gen::hex(bytes)));
    }
    Ok(())
}

/// The part on which `verify()` depends.
fn inner(b: &[u8]) -> &[u8] {
    &b[32..288]
}

fn altered_bytes(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let good = honest(s, &w, &d)?.to_bytes();
    judge(&w, &good, Some(true), "honest")?;
    let tries = s.range(1, 6);
    for _ in 0..tries {
        let mut b = good.clone();
        let mut how = Vec::new();
        let times = if s.chance(1, 4) { s.range(2, 3) } else { 1 };
        for _ in 0..times {
            let (x, h) = gen::alter_bytes(s, &b);
            b = x;
            how.push(h);
        }
        let must = if b.len() == 448 && inner(&b) == inner(&good) { None } else { Some(false) };
        judge(&w, &b, must, &format!("honest one altered by {:?}", how))?;
        for h in how {
            s.label(h);
        }
        if must == Some(false) && r::Presentation::from_bytes(&b).is_some() {
            s.label("altered, but well-formed");
            s.interesting();
        }
    }
    s.note(format!("number {}, {} alterations", gen::dstr(&d), tries));
    Ok(())
}

fn altered_fields(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let good = honest(s, &w, &d)?;
    let mut p = good.clone();
    let mut what = String::new();
    let times = s.range(1, 3);
    for _ in 0..times {
        match s.draw(9) {
            0 => {
                p.cq = other_point(s, &w.p, &p.cq);
                what.push_str("CQ ");
            }
            1 => {
                p.p = other_point(s, &w.p, &p.p);
                what.push_str("P ");
            }
            2 => {
                p.cm = other_point(s, &w.p, &p.cm);
                what.push_str("Cm ");
            }
            3 => {
                p.valid.challenge = other_scalar(s, &p.valid.challenge);
                what.push_str("challenge ");
            }
            4 => {
                let i = s.below(3);
                p.valid.responses[i] = other_scalar(s, &p.valid.responses[i]);
                what.push_str("response ");
            }
            5 => {
                // Rescale all elements.
                let t = other_scalar(s, &Scalar::one());
                p.p *= t;
                p.cm *= t;
                p.cq *= t;
                what.push_str("rescaled ");
            }
            6 => {
                // Shift the commitments such that V remains the same, as far as the adversary can.
                let t = gen::nonzero_scalar(s);
                p.cm += w.p.h * t;
                p.cq += w.x1 * t;
                what.push_str("shifted-z0 ");
            }
            7 => {
                let t = gen::nonzero_scalar(s);
                p.cq += w.p.h * t;
                p.valid.responses[2] -= p.valid.challenge * t;
                what.push_str("shifted-zQ ");
            }
            8 => {
                // Another attribute with the proof adjusted.
                let t = gen::nonzero_scalar(s);
                p.cm += p.p * t;
                p.valid.responses[0] += p.valid.challenge * t;
                what.push_str("shifted-m ");
            }
            _ => {
                // Swap elements.
                match s.draw(3) {
                    0 => std::mem::swap(&mut p.p, &mut p.cm),
                    1 => std::mem::swap(&mut p.p, &mut p.cq),
                    2 => std::mem::swap(&mut p.cm, &mut p.cq),
                    _ => p.valid.responses.swap(0, 1),
                }
                what.push_str("swapped ");
            }
        }
    }
    let b = p.to_bytes();
    let must = if inner(&b) == inner(&good.to_bytes()) { None } else { Some(false) };
    if must.is_some() {
        s.interesting();
    }
    s.note(what.clone());
    judge(&w, &b, must, &what)
}

fn spliced(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let u = user(s, &w, &d)?;
    let e = entry(s, &w, &d)?;
    let mut parts = Vec::new();
    let q = show(s, &u, &e)?;
    parts.push(parse(&q)?);
    let n = s.range(1, 2);
    for _ in 0..n {
        // By the same user with the same or another entry, by another user, or made by the reference implementation.
        let x = match s.draw(3) {
            0 => show(s, &u, &e)?,
            1 => {
                let e = entry(s, &w, &d)?;
                show(s, &u, &e)?
            }
            _ => {
                let d = if s.chance(1, 2) { gen::near(s, &d) } else { gen::digits(s) };
                let u = user(s, &w, &d)?;
                let e = entry(s, &w, &d)?;
                show(s, &u, &e)?
            }
        };
        parts.push(parse(&x)?);
    }
    let mut from = Vec::new();
    for _ in 0..7 {
        from.push(s.below(parts.len()));
    }
    let p = r::Presentation {
        roster: parts[from[0]].roster,
        cq: parts[from[1]].cq,
        p: parts[from[2]].p,
        cm: parts[from[3]].cm,
        valid: r::RProof {
            challenge: parts[from[4]].valid.challenge,
            responses: if s.chance(1, 3) {
                let i = s.below(parts.len());
                vec![
                    parts[from[5]].valid.responses[0],
                    parts[from[5]].valid.responses[1],
                    parts[i].valid.responses[2],
                ]
            } else {
                parts[from[5]].valid.responses.clone()
            },
        },
        equal: parts[from[6]].equal.clone(),
    };
    let b = p.to_bytes();
    let whole = parts.iter().any(|q| inner(&q.to_bytes()) == inner(&b));
    if !whole {
        s.interesting();
    }
    s.note(format!("parts {:?}", from));
    judge(&w, &b, Some(whole), &format!("spliced from {:?}", from))
}

/// Presentations shown to another issuer, or under other parameters.
fn foreign(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let good = honest(s, &w, &d)?;
    let what;
    let v = match s.draw(5) {
        0 => {
            what = "issuer with the same x0";
            let k = r::Key { x0: w.k.x0, x1: other_scalar(s, &w.k.x1) };
            setup_with(w.sys, k)
        }
        1 => {
            what = "issuer with the same x1";
            let k = r::Key { x0: other_scalar(s, &w.k.x0), x1: w.k.x1 };
            setup_with(w.sys, k)
        }
        2 => {
            what = "issuer with x0 and x1 exchanged";
            let k = r::Key { x0: w.k.x1, x1: w.k.x0 };
            setup_with(w.sys, k)
        }
        3 => {
            what = "same key, other parameters";
            let mut sys = gen::sys(s);
            if sys.sp.h == w.sys.sp.h {
                sys.sp.h += w.sys.sp.h;
            }
            setup_with(sys, r::Key { x0: w.k.x0, x1: w.k.x1 })
        }
        4 => {
            what = "same key, other g";
            let mut sys = w.sys;
            sys.sp.g = other_point(s, &w.p, &w.p.g);
            setup_with(sys, r::Key { x0: w.k.x0, x1: w.k.x1 })
        }
        _ => {
            what = "any other issuer";
            setup(s)
        }
    };
    s.label(what);
    let same = v.k.x0 == w.k.x0 && v.k.x1 == w.k.x1 && v.p.h == w.p.h && v.p.g == w.p.g;
    if !same {
        s.interesting();
    }
    s.note(what.to_string());
    judge(&v, &good.to_bytes(), Some(same), what)?;
    judge(&w, &good.to_bytes(), Some(true), "its own issuer")
}

/// Users whose credential isn't one, and who follow the protocol otherwise.
fn bad_credential(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let mut u = user(s, &w, &d)?;
    let c = match u.user.credential {
        Some(ref c) => c.clone(),
        None => return fail(GIVEN_UP, "no credential".to_string()),
    };
    let (mut p, mut q, mut m) = (c.mac.nonce, c.mac.mac, c.attributes[0]);
    let mut what = String::new();
    let times = s.range(1, 2);
    for _ in 0..times {
        match s.draw(9) {
            0 => {
                m = r::phone_scalar(&gen::near(s, &d)).unwrap();
                what.push_str("near number ");
            }
            1 => {
                m = other_scalar(s, &m);
                what.push_str("other attribute ");
            }
            2 => {
                q = other_point(s, &w.p, &q);
                what.push_str("Q altered ");
            }
            3 => {
                p = other_point(s, &w.p, &p);
                what.push_str("P altered ");
            }
            4 => {
                let t = gen::nonzero_scalar(s);
                p *= t;
                q *= t;
                what.push_str("rerandomised ");
            }
            5 => {
                p = RistrettoPoint::identity();
                q = RistrettoPoint::identity();
                what.push_str("degenerate ");
            }
            6 => {
                // The tag of somebody else.
                let e = gen::near(s, &d);
                let v = user(s, &w, &e)?;
                let c = v.user.credential.unwrap();
                p = c.mac.nonce;
                q = c.mac.mac;
                what.push_str("other's tag ");
            }
            7 => {
                // A linear combination with another tag on the same number is a valid tag.
                let v = user(s, &w, &d)?;
                let c = v.user.credential.unwrap();
                p += c.mac.nonce;
                q += c.mac.mac;
                what.push_str("sum of tags ");
            }
            8 => {
                // Anything anyone can compute from the published key.
                p = w.p.h;
                q = w.x1 * m;
                what.push_str("from the public key ");
            }
            _ => {
                p = gen::point(s);
                q = gen::point(s);
                what.push_str("random tag ");
            }
        }
    }
    let valid = p != RistrettoPoint::identity() && q == p * (w.k.x0 + w.k.x1 * m);
    let e = match s.draw(1) {
        0 => entry(s, &w, &d)?,
        _ => {
            let o = gen::random_scalar(s);
            let c = pedersen::Commitment::to(&(w.p.h * m), &o.into(), &w.p.g);
            RosterEntryCommitment {
                commitment: signal_credential::phone_number::CommittedPhoneNumber(c),
                opening: o.into(),
            }
        }
    };
    u.user.credential = Some(Credential { mac: amacs::Tag { nonce: p, mac: q }, attributes: vec![m] });
    let x = match catching(|| u.show(&mut gen::rng(s), &e)) {
        Ok(Ok(x)) => x,
        // Refusing to show such a credential is fine, if it is not valid.
        Ok(Err(_)) | Err(_) if !valid => return Ok(()),
        Ok(Err(e)) => return fail(GIVEN_UP, format!("show failed: {:?}", e)),
        Err(e) => return fail("panic", e),
    };
    s.label(if valid { "tag still valid" } else { "tag not valid" });
    s.interesting();
    s.note(what.clone());
    judge(&w, &x.to_bytes(), Some(valid), &what)
}

/// Presentations built from scratch.
fn forged(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let m = r::phone_scalar(&d).unwrap();
    let o = gen::random_scalar(s);
    let ent = w.p.h * m + w.p.g * o;
    let mut rnd = show_random(s);
    // A valid credential, for those who have one.
    let b = gen::nonzero_scalar(s);
    let p0 = w.p.g * b;
    let q0 = p0 * (w.k.x0 + w.k.x1 * m);
    let dep = r::Departure::default();
    let what;
    let mut must = false;
    let pres = match s.draw(8) {
        0 => {
            // With P the identity only the published key is needed.
            what = "P is the identity".to_string();
            rnd.r = Scalar::zero();
            r::show(&w.p, &w.x1, &p0, &q0, m, &ent, o, &rnd, &dep, &dep, r::SHOW)
        }
        1 => {
            // The proof is about V as the adversary would like it to be.
            what = "made-up tag".to_string();
            let p0 = w.p.g * gen::nonzero_scalar(s);
            let mut q0 = match s.draw(3) {
                0 => RistrettoPoint::identity(),
                1 => w.x1 * m,
                2 => p0,
                _ => gen::point(s),
            };
            if q0 == p0 * (w.k.x0 + w.k.x1 * m) {
                q0 += w.p.g;
            }
            r::show(&w.p, &w.x1, &p0, &q0, m, &ent, o, &rnd, &dep, &dep, r::SHOW)
        }
        2 => {
            // Random elements and proof.
            what = "random elements".to_string();
            r::Presentation {
                roster: ent,
                cq: gen::point(s),
                p: gen::point(s),
                cm: gen::point(s),
                valid: proof(s, 3),
                equal: proof(s, 3),
            }
        }
        3 => {
            what = "zero proof".to_string();
            let mut x = r::show(&w.p, &w.x1, &p0, &q0, m, &ent, o, &rnd, &dep, &dep, r::SHOW);
            x.valid = r::RProof { challenge: Scalar::zero(), responses: vec![Scalar::zero(); 3] };
            if s.chance(1, 2) {
                x.p = RistrettoPoint::identity();
                x.cm = RistrettoPoint::identity();
                x.cq = RistrettoPoint::identity();
            }
            x
        }
        4 | 5 => {
            // A valid credential, but a proof over another transcript.
            let (dv, w2) = departure(s, &r::VALID_CREDENTIAL);
            what = format!("the prover {}", w2);
            r::show(&w.p, &w.x1, &p0, &q0, m, &ent, o, &rnd, &dv, &dep, r::SHOW)
        }
        6 => {
            let ctx: &'static [u8] =
                s.pick(&["", "AEONFLUX ISSUANCE", "SIGNAL GROUP MEMBERSHIP", "AEONFLUX SHOW ", "AEONFLUX"] as &[&'static str]).as_bytes();
            what = format!("context {:?}", String::from_utf8_lossy(ctx));
            r::show(&w.p, &w.x1, &p0, &q0, m, &ent, o, &rnd, &dep, &dep, (ctx, r::SHOW.1))
        }
        7 => {
            // Wrong secrets for a valid credential.
            what = "wrong secrets".to_string();
            let mut x = r::show(&w.p, &w.x1, &p0, &q0, m, &ent, o, &rnd, &dep, &dep, r::SHOW);
            let mut sec = [m, rnd.z0, -rnd.zq];
            let i = s.below(3);
            sec[i] = other_scalar(s, &sec[i]);
            let v = w.x1 * rnd.z0 - w.p.h * rnd.zq;
            x.valid = r::VALID_CREDENTIAL.prove(
                &mut Transcript::new(b"AEONFLUX SHOW"),
                &[w.p.g, w.p.h, w.x1, x.p, v, x.cm],
                &sec,
                &rnd.ks[..3],
                &dep,
            );
            must = r::presentation_ok(&w.p, &w.k, &w.x1, &x);
            // Only where the relation doesn't depend on the secret at all.
            if must && x.p != RistrettoPoint::identity() && w.x1 != RistrettoPoint::identity() && w.p.h != RistrettoPoint::identity() {
                internal("a wrong witness works");
            }
            x
        }
        _ => {
            what = "valid".to_string();
            must = true;
            r::show(&w.p, &w.x1, &p0, &q0, m, &ent, o, &rnd, &dep, &dep, r::SHOW)
        }
    };
    s.interesting();
    s.label(what.split(' ').next().unwrap_or(""));
    s.note(what.clone());
    judge(&w, &pres.to_bytes(), Some(must), &what)
}

/// Presentations as structures, with any number of attributes.
fn counts(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let good = honest(s, &w, &d)?;
    let signal = SignalCredentialPresentation::from_bytes(&good.to_bytes()).map_err(broken("decode"))?;
    let real = signal.presentation.clone();
    let revealed: Vec<Scalar> = match s.draw(3) {
        0 | 1 => vec![],
        2 => vec![Scalar::zero()],
        _ => (0..s.range(1, 2)).map(|_| gen::scalar(s)).collect(),
    };
    let mut blinded: Vec<RistrettoPoint> = vec![good.cm];
    match s.draw(4) {
        0 => {}
        1 => blinded.clear(),
        2 => blinded.push(RistrettoPoint::identity()),
        3 => {
            // The single commitment as the sum of two.
            let t = gen::point(s);
            blinded = vec![good.cm - t, t];
        }
        _ => blinded.insert(0, gen::point(s)),
    }
    let mut proof: valid_credential::Proof = real.proof.clone();
    if blinded.is_empty() || s.chance(1, 4) {
        // A proof with which a verifier that takes no attribute into account would be content.
        let rnd = show_random(s);
        let q = match blinded.get(0) {
            Some(c) => *c,
            None => RistrettoPoint::identity(),
        };
        let rp = r::VALID_CREDENTIAL.prove(
            &mut Transcript::new(b"AEONFLUX SHOW"),
            &[w.p.g, w.p.h, w.x1, good.p, w.p.h * rnd.zq, q],
            &[Scalar::zero(), Scalar::zero(), rnd.zq],
            &rnd.ks[..3],
            &r::Departure::default(),
        );
        proof = bincode::deserialize(&rp.to_bytes()).map_err(broken("decode"))?;
    }
    let same = revealed.is_empty() && blinded == vec![good.cm] && proof == real.proof;
    let bl: Result<Vec<pedersen::Commitment>, _> =
        blinded.iter().map(|c| pedersen::Commitment::from_bytes(&r::enc(c))).collect();
    let x = CredentialPresentation {
        rerandomized_mac_commitment: real.rerandomized_mac_commitment,
        rerandomized_nonce: real.rerandomized_nonce,
        attributes_revealed: revealed.clone(),
        attributes_blinded: bl.map_err(broken("decode"))?,
        proof,
    };
    if !same {
        s.interesting();
    }
    s.label(&format!("{} revealed, {} blinded", revealed.len(), blinded.len()));
    s.note(format!("{} revealed and {} blinded attributes", revealed.len(), blinded.len()));
    let got = w.issuer.issuer.verify(&x).is_ok();
    let whole = SignalCredentialPresentation {
        presentation: x,
        roster_entry_commitment: signal.roster_entry_commitment.clone(),
        roster_membership_proof: signal.roster_membership_proof.clone(),
    };
    let signal = w.issuer.verify(whole).is_ok();
    ensure!(got == signal, "issuers-differ", "Issuer says {}, SignalIssuer {}: {} revealed, {} blinded", got, signal, revealed.len(), blinded.len());
    if got != same {
        return fail(
            if got { "accepted" } else { GIVEN_UP },
            format!("{} revealed and {} blinded attributes: accepted is {}", revealed.len(), blinded.len(), got),
        );
    }
    Ok(())
}

pub static CHECKS: &[Check] = &[
    Check { name: "altered-bytes", quick: 5000, thorough: 150_000, rule: "an altered encoding which is still well-formed", run: altered_bytes },
    Check { name: "altered-fields", quick: 8000, thorough: 200_000, rule: "a field or several were altered", run: altered_fields },
    Check { name: "spliced", quick: 5000, thorough: 100_000, rule: "parts of different presentations were combined", run: spliced },
    Check { name: "foreign", quick: 5000, thorough: 100_000, rule: "shown to an issuer with another key or parameters", run: foreign },
    Check { name: "bad-credential", quick: 6000, thorough: 120_000, rule: "every case: a credential altered by its holder", run: bad_credential },
    Check { name: "forged", quick: 8000, thorough: 200_000, rule: "every case: a presentation built by the adversary or the reference implementation", run: forged },
    Check { name: "counts", quick: 4000, thorough: 80_000, rule: "another number of attributes or another proof than the honest presentation", run: counts },
];
