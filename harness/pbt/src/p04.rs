//! C04: a user only ever stores a credential its issuer issued to it.

use aeonflux::credential::CredentialIssuance;
use aeonflux::elgamal;
use aeonflux::user::User;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{GIVEN_UP, fail, Check, Res, Src};
use crate::gen;
use crate::refimpl as r;

/// A user with or without a credential and a key of its own.
fn some_user(s: &mut Src, w: &Setup, d: &[u8]) -> Result<SignalUser, crate::engine::Fail> {
    let key = if s.chance(1, 4) { Some(elgamal::Keypair::generate(&mut gen::rng(s))) } else { None };
    let mut u = SignalUser::new(w.sys.sp, w.issuer.get_issuer_parameters(), key, d).map_err(broken("user"))?;
    if s.chance(1, 2) {
        let i = issue(s, w, d)?;
        u.obtain_finish(Some(&i)).map_err(broken("obtain"))?;
        s.label("user had a credential");
    }
    Ok(u)
}

/// Offer an issuance to a user and compare the outcome, and the state left behind.
fn offer(w: &Setup, u: &mut SignalUser, b: &[u8], must: Option<bool>, what: &str) -> Res {
    let parsed = r::Issuance::from_bytes(b);
    let expected = match parsed {
        Some(ref i) => i.m == u.phone_number.0 && r::issuance_ok(&w.p, &w.x1, i),
        None => false,
    };
    if let Some(m) = must {
        if m != expected {
            internal(&format!("the reference verifier says {} on {}", expected, what));
        }
    }
    let before = u.to_bytes();
    let had = u.user.credential.clone();
    let i = match CredentialIssuance::from_bytes(b) {
        Ok(i) => i,
        Err(_) => {
            ensure!(!expected, GIVEN_UP, "a valid issuance wasn't decoded: {}", what);
            return Ok(());
        }
    };
    let got = u.obtain_finish(Some(&i));
    if got.is_ok() && !expected {
        return fail("stored", format!("accepted, but must be refused: {}: {}", what, gen::hex(b)));
    }
    if got.is_err() && expected {
        return fail(GIVEN_UP, format!("refused with {:?}, but is valid: {}: {}", got, what, gen::hex(b)));
    }
    if got.is_err() {
        ensure!(u.to_bytes() == before && u.user.credential == had, "state", "a refused issuance changed the user: {}", what);
    } else {
        let p = parsed.unwrap();
        let after = u.to_bytes();
        let mut want = before.clone();
        want[192..224].copy_from_slice(&r::enc(&p.p));
        want[224..256].copy_from_slice(&r::enc(&p.q));
        want[256..288].copy_from_slice(p.m.as_bytes());
        ensure!(after == want, "state", "after an accepted issuance the user isn't what it should be: {}", what);
    }
    Ok(())
}

fn altered_bytes(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let good = issue(s, &w, &d)?.to_bytes();
    let mut u = some_user(s, &w, &d)?;
    let n = s.range(1, 6);
    for _ in 0..n {
        let mut b = good.clone();
        let mut how = Vec::new();
        let times = if s.chance(1, 4) { 2 } else { 1 };
        for _ in 0..times {
            let (x, h) = gen::alter_bytes(s, &b);
            b = x;
            how.push(h);
        }
        if r::Issuance::from_bytes(&b).is_some() && b != good {
            s.interesting();
            s.label("altered, but well-formed");
        }
        let must = altered_must(&good, &b);
        offer(&w, &mut u, &b, must, &format!("altered by {:?}", how))?;
    }
    offer(&w, &mut u, &good, Some(true), "honest")?;
    ensure!(u.obtain_finish(None).is_err(), "none", "a missing issuance was accepted");
    s.note(format!("{} alterations of an issuance to {}", n, gen::dstr(&d)));
    Ok(())
}

fn altered_must(good: &[u8], b: &[u8]) -> Option<bool> {
    Some(good == b)
}

fn altered_fields(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let x = issue(s, &w, &d)?;
    let good = parse_issuance(&x)?;
    let mut i = good.clone();
    let mut what = String::new();
    let times = s.range(1, 3);
    for _ in 0..times {
        match s.draw(9) {
            0 => {
                i.cx0 = other_point(s, &w.p, &i.cx0);
                what.push_str("Cx0 ");
            }
            1 => {
                i.p = other_point(s, &w.p, &i.p);
                what.push_str("P ");
            }
            2 => {
                i.q = other_point(s, &w.p, &i.q);
                what.push_str("Q ");
            }
            3 => {
                i.m = if s.chance(1, 2) { r::phone_scalar(&gen::near(s, &d)).unwrap() } else { other_scalar(s, &i.m) };
                what.push_str("attribute ");
            }
            4 => {
                i.proof.challenge = other_scalar(s, &i.proof.challenge);
                what.push_str("challenge ");
            }
            5 => {
                let k = s.below(4);
                i.proof.responses[k] = other_scalar(s, &i.proof.responses[k]);
                what.push_str(&format!("response {} ", k));
            }
            6 => {
                let t = gen::nonzero_scalar(s);
                i.p *= t;
                i.q *= t;
                what.push_str("rerandomised ");
            }
            7 => {
                let t = gen::nonzero_scalar(s);
                i.cx0 += w.p.h * t;
                i.proof.responses[2] += i.proof.challenge * t;
                what.push_str("shifted Cx0 ");
            }
            8 => {
                let t = gen::nonzero_scalar(s);
                i.q += i.p * t;
                i.proof.responses[3] += i.proof.challenge * t;
                what.push_str("shifted Q ");
            }
            _ => {
                // Parts of another issuance.
                let e = if s.chance(1, 2) { d.clone() } else { gen::near(s, &d) };
                let y = issue(s, &w, &e)?;
                let o = parse_issuance(&y)?;
                match s.draw(4) {
                    0 => i.cx0 = o.cx0,
                    1 => {
                        i.p = o.p;
                        i.q = o.q;
                    }
                    2 => i.proof = o.proof,
                    3 => i.m = o.m,
                    _ => {
                        i.p = o.p;
                        i.q = o.q;
                        i.m = o.m;
                    }
                }
                what.push_str("spliced ");
            }
        }
    }
    if i != good {
        s.interesting();
    }
    s.note(what.clone());
    let mut u = some_user(s, &w, &d)?;
    offer(&w, &mut u, &i.to_bytes(), Some(i == good), &what)
}

/// Whole issuances for others, from others, or under other parameters.
fn foreign(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let what;
    let mut second = None;
    let mut must = Some(false);
    let b = match s.draw(8) {
        8 => {
            what = "by an issuer which has the second key of the issuer parameters";
            let k = r::Key { x0: w.k.x0, x1: other_scalar(s, &w.k.x1) };
            let v = setup_with(w.sys, k);
            second = Some(v.x1);
            issue(s, &v, &d)?.to_bytes()
        }
        0 | 1 => {
            what = "for a near number";
            let e = gen::near(s, &d);
            issue(s, &w, &e)?.to_bytes()
        }
        2 => {
            what = "by an issuer with the same x0";
            let k = r::Key { x0: w.k.x0, x1: other_scalar(s, &w.k.x1) };
            let v = setup_with(w.sys, k);
            issue(s, &v, &d)?.to_bytes()
        }
        3 => {
            what = "by any other issuer";
            let mut k = gen::random_key(s);
            if k.x1 == w.k.x1 {
                k.x1 += Scalar::one();
            }
            let v = setup_with(w.sys, k);
            issue(s, &v, &d)?.to_bytes()
        }
        4 => {
            what = "under another h";
            let mut sys = w.sys;
            sys.sp.h = other_point(s, &w.p, &w.p.h);
            if sys.sp.h == sys.sp.g {
                sys.sp.h = w.p.h + w.p.g + w.p.g;
            }
            let v = setup_with(sys, r::Key { x0: w.k.x0, x1: w.k.x1 });
            issue(s, &v, &d)?.to_bytes()
        }
        5 => {
            what = "under another g";
            let mut sys = w.sys;
            sys.sp.g = if s.chance(1, 2) && w.p.g != gen::B { gen::B } else { other_point(s, &w.p, &w.p.g) };
            let v = setup_with(sys, r::Key { x0: w.k.x0, x1: w.k.x1 });
            let x = issue(s, &v, &d)?.to_bytes();
            x
        }
        6 => {
            what = "for the own number, again";
            must = Some(true);
            issue(s, &w, &d)?.to_bytes()
        }
        _ => {
            what = "another key for the same number, of the right public key";
            must = Some(true);
            let nonces: Vec<Scalar> = (0..4).map(|_| gen::random_scalar(s)).collect();
            r::issue(
                &w.p,
                &w.k,
                r::phone_scalar(&d).unwrap(),
                gen::nonzero_scalar(s),
                gen::scalar(s),
                &nonces,
                &r::Departure::default(),
                b"AEONFLUX ISSUANCE",
            )
            .to_bytes()
        }
    };
    s.label(what);
    s.interesting();
    s.note(format!("{}: {}", gen::dstr(&d), what));
    let mut u = some_user(s, &w, &d)?;
    if let Some(x) = second {
        // Parameters for more attributes than issuances have.
        u.user.issuer_parameters.Xn.push(x);
        let i = CredentialIssuance::from_bytes(&b).map_err(broken("decode"))?;
        let had = u.user.credential.clone();
        let got = u.obtain_finish(Some(&i));
        ensure!(got.is_err(), "stored", "accepted, but must be refused: {}: {}", what, gen::hex(&b));
        ensure!(u.user.credential == had, "state", "a refused issuance changed the user: {}", what);
        return Ok(());
    }
    offer(&w, &mut u, &b, must, what)
}

/// Issuances made by somebody dishonest.
fn forged(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let m = r::phone_scalar(&d).unwrap();
    let nonces: Vec<Scalar> = (0..4).map(|_| gen::random_scalar(s)).collect();
    let (b, x0_tilde) = (gen::nonzero_scalar(s), gen::scalar(s));
    let dep = r::Departure::default();
    let ctx: &'static [u8] = b"AEONFLUX ISSUANCE";
    let mut must = Some(false);
    let what;
    let i = match s.draw(7) {
        0 | 1 | 2 => {
            let (dd, x) = departure(s, &r::ISSUANCE_REVEALED);
            what = format!("the prover {}", x);
            r::issue(&w.p, &w.k, m, b, x0_tilde, &nonces, &dd, ctx)
        }
        3 => {
            let c: &'static [u8] =
                s.pick(&["", "AEONFLUX SHOW", "AEONFLUX ISSUE", "SIGNAL GROUP MEMBERSHIP"] as &[&'static str]).as_bytes();
            what = format!("context {:?}", String::from_utf8_lossy(c));
            r::issue(&w.p, &w.k, m, b, x0_tilde, &nonces, &dep, c)
        }
        4 => {
            // Without the key: made-up tags and witnesses.
            what = "without the key".to_string();
            let k = r::Key { x0: gen::scalar(s), x1: other_scalar(s, &w.k.x1) };
            let mut i = r::issue(&w.p, &k, m, b, x0_tilde, &nonces, &dep, ctx);
            let publics = r::issuance_publics(&w.p, &w.x1, &i);
            i.proof = r::ISSUANCE_REVEALED.prove(
                &mut merlin::Transcript::new(ctx),
                &publics,
                &[k.x0, k.x1, x0_tilde, m * k.x1],
                &nonces,
                &dep,
            );
            i
        }
        5 => {
            what = "zero proof".to_string();
            let mut i = r::issue(&w.p, &w.k, m, b, x0_tilde, &nonces, &dep, ctx);
            i.proof = r::RProof { challenge: Scalar::zero(), responses: vec![Scalar::zero(); 4] };
            if s.chance(1, 2) {
                i.p = RistrettoPoint::identity();
                i.q = RistrettoPoint::identity();
                i.cx0 = RistrettoPoint::identity();
            }
            i
        }
        6 => {
            what = "random proof".to_string();
            let mut i = r::issue(&w.p, &w.k, m, b, x0_tilde, &nonces, &dep, ctx);
            i.proof = proof(s, 4);
            i
        }
        _ => {
            what = "honest".to_string();
            must = Some(true);
            r::issue(&w.p, &w.k, m, b, x0_tilde, &nonces, &dep, ctx)
        }
    };
    s.label(what.split(' ').next().unwrap_or(""));
    s.interesting();
    s.note(what.clone());
    let mut u = some_user(s, &w, &d)?;
    offer(&w, &mut u, &i.to_bytes(), must, &what)
}

/// Histories of good and bad offers: the user always holds the last good one.
fn histories(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let mut u = fresh_user(&w, &d)?;
    let mut held: Option<Vec<u8>> = None;
    let steps = s.range(3, 10);
    let mut trace = String::new();
    let mut bad = 0;
    for _ in 0..steps {
        match s.draw(4) {
            0 | 1 => {
                let x = issue(s, &w, &d)?;
                offer(&w, &mut u, &x.to_bytes(), Some(true), "honest")?;
                held = Some(x.to_bytes()[32..128].to_vec());
                trace.push('+');
            }
            2 => {
                let e = gen::near(s, &d);
                let x = issue(s, &w, &e)?;
                offer(&w, &mut u, &x.to_bytes(), Some(false), "for another number")?;
                trace.push('n');
                bad += 1;
            }
            3 => {
                let x = issue(s, &w, &d)?.to_bytes();
                let (b, _) = gen::alter_bytes(s, &x);
                if b != x {
                    offer(&w, &mut u, &b, Some(false), "altered")?;
                    trace.push('a');
                    bad += 1;
                }
            }
            _ => {
                ensure!(u.obtain_finish(None).is_err(), "none", "a missing issuance was accepted");
                trace.push('0');
                bad += 1;
            }
        }
        let now = u.user.credential.as_ref().map(|c| c.to_bytes());
        ensure!(now == held, "state", "the user holds another credential than the last one accepted, after {}", trace);
    }
    if held.is_some() && bad > 0 {
        s.interesting();
    }
    s.note(trace);
    Ok(())
}

/// What an issuer who doesn't follow the protocol can have users store.
fn cheating_issuer(s: &mut Src) -> Res {
    let w = setup_with(gen::sys(s), gen::random_key(s));
    let d = gen::digits(s);
    let m = r::phone_scalar(&d).unwrap();
    let nonces: Vec<Scalar> = (0..4).map(|_| gen::random_scalar(s)).collect();
    let (b, x0_tilde) = (gen::nonzero_scalar(s), gen::scalar(s));
    let dep = r::Departure::default();
    let ctx: &'static [u8] = b"AEONFLUX ISSUANCE";
    s.interesting();
    let (i, sig, what) = match s.draw(1) {
        0 => {
            // A tag over another number, which the proof doesn't tie to the attribute.
            let m2 = r::phone_scalar(&gen::near(s, &d)).unwrap();
            let mut i = r::issue(&w.p, &w.k, m2, b, x0_tilde, &nonces, &dep, ctx);
            i.m = m;
            (i, "C04:cheating-issuer-m1x1-unbound", "a tag over another number than the attribute")
        }
        _ => {
            // A tag with another x0 than that of the issuer's key.
            let k = r::Key { x0: other_scalar(s, &w.k.x0), x1: w.k.x1 };
            let i = r::issue(&w.p, &k, m, b, x0_tilde, &nonces, &dep, ctx);
            (i, "C04:cheating-issuer-x0-unbound", "a tag made with another x0 than the issuer's")
        }
    };
    s.label(sig);
    s.note(what.to_string());
    let mut u = fresh_user(&w, &d)?;
    let x = CredentialIssuance::from_bytes(&i.to_bytes()).map_err(broken("decode"))?;
    if u.obtain_finish(Some(&x)).is_ok() {
        return fail(sig, format!("the user stored {}", what));
    }
    Ok(())
}

/// The general library's user.
fn general(s: &mut Src) -> Res {
    let w = setup(s);
    let m = gen::scalar(s);
    let mut u = User::new(w.sys.sp, w.issuer.get_issuer_parameters(), None);
    let req = u.obtain(vec![m]);
    let i = w.issuer.issuer.issue(&req, &mut gen::rng(s)).map_err(broken("issue"))?;
    let good = parse_issuance(&i)?;
    let mut x = good.clone();
    let what;
    match s.draw(6) {
        0 => {
            what = "attribute altered";
            x.m = other_scalar(s, &x.m);
        }
        1 => {
            what = "P altered";
            x.p = other_point(s, &w.p, &x.p);
        }
        2 => {
            what = "Q altered";
            x.q = other_point(s, &w.p, &x.q);
        }
        3 => {
            what = "Cx0 altered";
            x.cx0 = other_point(s, &w.p, &x.cx0);
        }
        4 => {
            what = "response altered";
            let k = s.below(4);
            x.proof.responses[k] = other_scalar(s, &x.proof.responses[k]);
        }
        5 => {
            what = "challenge altered";
            x.proof.challenge = other_scalar(s, &x.proof.challenge);
        }
        _ => {
            what = "honest";
        }
    }
    s.label(what);
    s.interesting();
    s.note(what.to_string());
    if s.chance(1, 2) {
        u.obtain_finish(Some(&i)).map_err(broken("obtain"))?;
    }
    let before = u.to_bytes();
    let had = u.credential.clone();
    let y = CredentialIssuance::from_bytes(&x.to_bytes()).map_err(broken("decode"))?;
    let got = u.obtain_finish(Some(&y));
    if got.is_ok() && x != good {
        let sig = if what == "attribute altered" { "C04:aeonflux-user-attribute-unbound" } else { "stored" };
        return fail(sig, format!("aeonflux::User accepted an issuance with {}", what));
    }
    if got.is_err() && x == good {
        return fail(GIVEN_UP, format!("an honest issuance was refused: {:?}", got));
    }
    if got.is_err() {
        ensure!(u.to_bytes() == before && u.credential == had, "state", "a refused issuance changed the user: {}", what);
    } else {
        ensure!(u.credential.as_ref() == Some(&i.credential), "state", "another credential was stored");
    }
    ensure!(u.obtain_finish(None).is_err(), "none", "a missing issuance was accepted");
    Ok(())
}

/// Issuances with another list of attributes than the user's number alone.
fn attributes(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let m = r::phone_scalar(&d).unwrap();
    let mut i = issue(s, &w, &d)?;
    // Something else, perhaps with the same text.
    let x = match s.draw(4) {
        0 => Scalar::zero(),
        1 => m,
        2 => {
            let mut e = d.clone();
            e.truncate(25);
            let at = s.below(e.len() + 1);
            e.insert(at, *s.pick(&[10u8, 15, 16, 48, 77, 255]));
            r::phone_scalar(&e).unwrap()
        }
        3 => r::phone_scalar(&gen::near(s, &d)).unwrap(),
        _ => gen::scalar(s),
    };
    let old = i.credential.attributes.clone();
    ensure!(old == vec![m], GIVEN_UP, "an issuance isn't on the number");
    let (v, what) = match s.draw(7) {
        0 => (vec![], "none"),
        1 => (vec![m, x], "followed by another"),
        2 => (vec![x, m], "preceded by another"),
        3 => (vec![x], "another"),
        4 => (vec![m, m], "twice"),
        5 => (vec![x, x], "two others"),
        6 => {
            let n = gen::count(s, 2, 4);
            let at = s.below(n);
            ((0..n).map(|k| if k == at { m } else { gen::scalar(s) }).collect(), "among others")
        }
        _ => (vec![m], "as issued"),
    };
    i.credential.attributes = v;
    let same = i.credential.attributes == old;
    s.label(what);
    s.note(format!("{}: {}", gen::dstr(&d), what));
    let mut u = some_user(s, &w, &d)?;
    let (before, had) = (u.to_bytes(), u.user.credential.clone());
    let got = u.obtain_finish(Some(&i));
    if same {
        ensure!(got.is_ok(), GIVEN_UP, "an honest issuance was refused: {:?}", got);
        ensure!(u.user.credential.as_ref() == Some(&i.credential), "state", "another credential was stored");
        return Ok(());
    }
    s.interesting();
    ensure!(got.is_err(), "stored", "{}: an issuance was accepted with the number's attribute {}", gen::dstr(&d), what);
    ensure!(u.user.credential == had && u.to_bytes() == before, "state", "a refused issuance changed the user: {}", what);
    Ok(())
}

pub static CHECKS: &[Check] = &[
    Check { name: "attributes", quick: 6000, thorough: 100_000, rule: "an issuance with another list of attributes than the one number", run: attributes },
    Check { name: "altered-bytes", quick: 5000, thorough: 100_000, rule: "an altered encoding which is still well-formed", run: altered_bytes },
    Check { name: "altered-fields", quick: 8000, thorough: 200_000, rule: "a field or several were altered", run: altered_fields },
    Check { name: "foreign", quick: 8000, thorough: 150_000, rule: "every case: an issuance for somebody or by somebody else, or another one for the same user", run: foreign },
    Check { name: "forged", quick: 8000, thorough: 200_000, rule: "every case: an issuance made by somebody dishonest, or by the reference implementation", run: forged },
    Check { name: "histories", quick: 3000, thorough: 60_000, rule: "a history with an accepted and a refused offer", run: histories },
    Check { name: "cheating-issuer", quick: 400, thorough: 4000, rule: "every case: an issuer which departs from the protocol", run: cheating_issuer },
    Check { name: "general", quick: 6000, thorough: 100_000, rule: "every case: an honest or altered issuance over an arbitrary attribute", run: general },
];
