//! C10: presentations are unlinkable, and proofs never repeat their nonces.
//!
//! The checks know the issuer's key, the attribute and the opening, and recover from a
//! presentation h times each value which was chosen at random, i.e. blinding
//! values and the secret nonces of the proofs.

use std::collections::{HashMap, HashSet};
use std::sync::{Mutex, Once};

use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{self, Check, Fail, Res, Src};
use crate::gen;
use crate::p09;
use crate::refimpl as r;

/// A value chosen at random, times h.
struct Hidden {
    name: String,
    point: RistrettoPoint,
}

fn opening(e: &RosterEntryCommitment) -> Scalar {
    let o: &Scalar = (&e.opening).into();
    *o
}

/// The nonces of a proof, times the point `h`, from h times the secrets.
fn proof_nonces(spec: &r::Spec, tag: &str, h: &RistrettoPoint, secrets: &[RistrettoPoint], p: &r::RProof) -> Vec<Hidden> {
    spec.secrets
        .iter()
        .enumerate()
        .map(|(i, n)| Hidden { name: format!("{}: nonce for {} in {}", tag, n, spec.name), point: h * p.responses[i] - secrets[i] * p.challenge })
        .collect()
}

/// z0 and zQ, and, if the relation between P and the credential's nonce to h is known, r.
fn blinding(w: &Setup, tag: &str, m: Scalar, p: &r::Presentation, r_base: Option<Scalar>) -> Vec<Hidden> {
    let mut v = vec![
        Hidden { name: format!("{}: z0", tag), point: p.cm - p.p * m },
        Hidden { name: format!("{}: zQ", tag), point: p.cq - p.p * (w.k.x0 + w.k.x1 * m) },
    ];
    if let Some(f) = r_base {
        v.push(Hidden { name: format!("{}: r", tag), point: p.p * f });
    }
    v
}

fn shown_nonces(w: &Setup, tag: &str, m: Scalar, e: &RosterEntryCommitment, p: &r::Presentation) -> Vec<Hidden> {
    let h = w.p.h;
    let b = blinding(w, tag, m, p, None);
    let (z0, zq) = (b[0].point, b[1].point);
    let mut v = proof_nonces(&r::VALID_CREDENTIAL, tag, &h, &[h * m, z0, -zq], &p.valid);
    v.extend(proof_nonces(&r::COMMITTED_VALUES_EQUAL, tag, &h, &[h * m, z0, h * opening(e)], &p.equal));
    v
}

/// b, if the discrete logarithm of h is known, and the blinding of the key.
fn issue_blinding(w: &Setup, tag: &str, i: &r::Issuance) -> Vec<Hidden> {
    let mut v = vec![Hidden { name: format!("{}: x0_tilde", tag), point: i.cx0 - w.p.g * w.k.x0 }];
    if let Some(a) = w.sys.a {
        v.push(Hidden { name: format!("{}: b", tag), point: i.p * a });
    }
    v
}

fn issue_nonces(w: &Setup, tag: &str, i: &r::Issuance) -> Vec<Hidden> {
    let h = w.p.h;
    let xt = i.cx0 - w.p.g * w.k.x0;
    proof_nonces(&r::ISSUANCE_REVEALED, tag, &h, &[h * w.k.x0, h * w.k.x1, xt, h * (i.m * w.k.x1)], &i.proof)
}

/// All of them differ, and from values which are known, even up to their sign.
fn distinct(known: &[(&str, RistrettoPoint)], v: &[Hidden]) -> Res {
    let mut seen: HashMap<[u8; 32], String> = HashMap::new();
    for (n, p) in known {
        seen.insert(r::enc(p), n.to_string());
        seen.insert(r::enc(&-p), format!("minus {}", n));
    }
    for x in v {
        ensure!(x.point != RistrettoPoint::identity(), "zero", "{} is zero", x.name);
        let e = r::enc(&x.point);
        if let Some(o) = seen.get(&e) {
            return engine::fail("repeated", format!("{} is {}", x.name, o));
        }
        seen.insert(e, x.name.clone());
        seen.insert(r::enc(&-x.point), format!("minus {}", x.name));
    }
    Ok(())
}

/// No relation with small coefficients between them and 1.
fn independent(h: &RistrettoPoint, v: &[Hidden]) -> Res {
    let c: Vec<Scalar> = vec![-Scalar::from(2u64), -Scalar::one(), Scalar::zero(), Scalar::one(), Scalar::from(2u64)];
    let n = v.len() + 1;
    // multiples[i][j] is c[j] times the i-th
    let multiples: Vec<Vec<RistrettoPoint>> = v.iter().map(|x| x.point).chain(std::iter::once(*h)).map(|p| c.iter().map(|k| p * k).collect()).collect();
    for code in 0..5usize.pow(n as u32) {
        let mut k = code;
        let mut sum = RistrettoPoint::identity();
        let mut all_zero = true;
        for i in 0..n {
            if i + 1 < n && k % 5 != 2 {
                all_zero = false;
            }
            sum += multiples[i][k % 5];
            k /= 5;
        }
        if !all_zero {
            ensure!(
                sum != RistrettoPoint::identity(),
                "dependent",
                "a relation with coefficients -2 to 2 between {}",
                v.iter().map(|x| x.name.clone()).collect::<Vec<_>>().join(", ")
            );
        }
    }
    Ok(())
}

/// Scalars which are chosen at random and known are as large as they should be.
fn large(name: &str, x: &Scalar) -> Res {
    let b = x.as_bytes();
    let y = -x;
    ensure!(b[22..].iter().any(|c| *c != 0) && y.as_bytes()[22..].iter().any(|c| *c != 0), "small", "{} is {}", name, gen::hex(b));
    // nor with a pattern which randomness doesn't show
    for half in b[..30].chunks(15) {
        let mut h = half.to_vec();
        h.sort();
        h.dedup();
        ensure!(h.len() > 3, "pattern", "{} is {}", name, gen::hex(b));
    }
    Ok(())
}

/// Elements shared between messages.
fn shared(known: &[(&str, [u8; 32])], messages: &[(String, Vec<[u8; 32]>)]) -> Res {
    let mut seen: HashMap<[u8; 32], String> = HashMap::new();
    for (n, b) in known {
        seen.insert(*b, n.to_string());
    }
    for (name, v) in messages {
        for (i, b) in v.iter().enumerate() {
            if let Some(o) = seen.get(b) {
                return engine::fail("shared", format!("element {} of {} is {}", i, name, o));
            }
            seen.insert(*b, format!("element {} of {}", i, name));
        }
    }
    Ok(())
}

fn presentation_elements(p: &r::Presentation) -> Vec<[u8; 32]> {
    let mut v = vec![r::enc(&p.cq), r::enc(&p.p), r::enc(&p.cm)];
    for q in &[&p.valid, &p.equal] {
        v.push(q.challenge.to_bytes());
        v.extend(q.responses.iter().map(|x| x.to_bytes()));
    }
    v
}

fn issuance_elements(i: &r::Issuance) -> Vec<[u8; 32]> {
    let mut v = vec![r::enc(&i.cx0), r::enc(&i.p), r::enc(&i.q), i.proof.challenge.to_bytes()];
    v.extend(i.proof.responses.iter().map(|x| x.to_bytes()));
    v
}

/// An issuer with a random key, mostly with known discrete logarithm of h.
fn world(s: &mut Src) -> Setup {
    let sys = if s.chance(3, 4) { gen::trapdoor_sys(s) } else { gen::sys(s) };
    let k = gen::random_key(s);
    setup_with(sys, k)
}

/// A user whose credential has the nonce `b` times the base point, from the reference issuer.
fn user_with(s: &mut Src, w: &Setup, d: &[u8], b: Scalar) -> Result<(SignalUser, r::Issuance), Fail> {
    let m = r::phone_scalar(d).unwrap();
    let nonces: Vec<Scalar> = (0..4).map(|_| gen::random_scalar(s)).collect();
    let i = r::issue(&w.p, &w.k, m, b, gen::random_scalar(s), &nonces, &r::Departure::default(), "AEONFLUX ISSUANCE".as_bytes());
    let iss = SignalCredentialIssuance::from_bytes(&i.to_bytes()).map_err(broken("decode"))?;
    let mut u = fresh_user(w, d)?;
    u.obtain_finish(Some(&iss)).map_err(broken("obtain"))?;
    Ok((u, i))
}

fn phone(s: &mut Src) -> Vec<u8> {
    gen::digits(s)
}

/// Many issuances and presentations with fresh randomness.
fn unlinkable(s: &mut Src) -> Res {
    let w = world(s);
    let d = phone(s);
    let m = r::phone_scalar(&d).unwrap();
    let h = w.p.h;
    let mut hidden: Vec<Hidden> = Vec::new();
    let mut messages: Vec<(String, Vec<[u8; 32]>)> = Vec::new();
    let mut creds: Vec<(SignalUser, r::Issuance, Option<Scalar>)> = Vec::new();
    // The caller's generators: one for all, or one each.
    let one = s.chance(1, 2);
    let mut g = gen::rng(s);
    // Issuances by the library, and one by the reference, with a known nonce.
    for k in 0..s.range(1, 3) {
        if !one {
            g = gen::rng(s);
        }
        let iss = w.issuer.issue(&d, &mut g).map_err(broken("issue"))?;
        let i = parse_issuance(&iss)?;
        hidden.extend(issue_blinding(&w, &format!("issuance {}", k), &i));
        hidden.extend(issue_nonces(&w, &format!("issuance {}", k), &i));
        messages.push((format!("issuance {}", k), issuance_elements(&i)));
        let mut u = fresh_user(&w, &d)?;
        u.obtain_finish(Some(&iss)).map_err(broken("obtain"))?;
        creds.push((u, i, None));
    }
    if let Some(a) = w.sys.a {
        let b = gen::random_scalar(s);
        let (u, i) = user_with(s, &w, &d, b)?;
        messages.push(("the reference's issuance".to_string(), issuance_elements(&i)));
        // P' = r b B, hence r h = (a / b) P'
        creds.push((u, i, Some(a * b.invert())));
    }
    let entries: Vec<RosterEntryCommitment> = {
        let n = s.range(1, 2);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(entry(s, &w, &d)?);
        }
        v
    };
    let n = s.range(2, 8);
    let mut groups: Vec<Vec<Hidden>> = Vec::new();
    for k in 0..n {
        let (u, i, f) = &creds[s.below(creds.len())];
        let e = &entries[s.below(entries.len())];
        if !one {
            g = gen::rng(s);
        }
        let pres = if s.chance(1, 6) {
            // from a restored user
            let v = SignalUser::from_bytes(&u.to_bytes()).map_err(broken("decode"))?;
            v.show(&mut g, e)
        } else {
            u.show(&mut g, e)
        }
        .map_err(broken("show"))?;
        let p = parse(&pres)?;
        ensure!(
            p.p != i.p && p.p != -i.p && p.p != RistrettoPoint::identity(),
            "not-rerandomised",
            "the nonce of a presentation is the credential's"
        );
        let tag = format!("presentation {}", k);
        hidden.extend(shown_nonces(&w, &tag, m, e, &p));
        hidden.extend(blinding(&w, &tag, m, &p, *f));
        groups.push(blinding(&w, &tag, m, &p, *f));
        messages.push((tag.clone(), presentation_elements(&p)));
        let k1 = p.valid.responses[0] - p.valid.challenge * m;
        let k2 = p.equal.responses[0] - p.equal.challenge * m;
        let k3 = p.equal.responses[2] - p.equal.challenge * opening(e);
        for x in &[k1, k2, k3] {
            large(&format!("a nonce of {}", tag), x)?;
        }
        if f.is_some() {
            s.label("r recovered");
        }
    }
    // What all of it must not repeat: secrets, public values, and openings.
    let mut known: Vec<(&str, RistrettoPoint)> =
        vec![("the attribute", h * m), ("x0", h * w.k.x0), ("x1", h * w.k.x1), ("m1x1", h * (m * w.k.x1)), ("one", h)];
    for e in &entries {
        large("an opening", &opening(e))?;
        known.push(("an opening", h * opening(e)));
    }
    distinct(&known, &hidden)?;
    for gr in &groups {
        independent(&h, gr)?;
    }
    let mut k: Vec<(&str, [u8; 32])> = vec![
        ("zero", [0u8; 32]),
        ("g", r::enc(&w.p.g)),
        ("h", r::enc(&h)),
        ("the issuer's public key", r::enc(&w.x1)),
        ("the attribute", m.to_bytes()),
        ("the attribute times h", r::enc(&(h * m))),
        ("the attribute times g", r::enc(&(w.p.g * m))),
        ("x0", w.k.x0.to_bytes()),
        ("x1", w.k.x1.to_bytes()),
        ("one", Scalar::one().to_bytes()),
    ];
    for e in &entries {
        k.push(("an opening", opening(e).to_bytes()));
        k.push(("a roster entry", r::enc(&e.commitment.0.into())));
    }
    shared(&k, &messages)?;
    s.interesting();
    s.label(&format!("{} credentials", creds.len()));
    s.note(format!("{} presentations of {} credentials on {} with {} entries", n, creds.len(), gen::dstr(&d), entries.len()));
    Ok(())
}

/// Run `f` in a new thread, where the system answers every request with the same.
fn with_os<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(seed: Option<u64>, f: F) -> T {
    std::thread::spawn(move || {
        match seed {
            Some(x) => engine::os_repeat(x),
            None => engine::os_seed(0x5eed_5eed),
        }
        f()
    })
    .join()
    .unwrap_or_else(|_| internal("a thread panicked"))
}

/// The same for something which borrows: the thread ends before this function does.
fn scoped<T, F: FnOnce() -> T>(os: u64, f: F) -> T {
    fn call<T, F: FnOnce() -> T>(p: usize) {
        let slot = unsafe { &mut *(p as *mut (Option<F>, Option<T>)) };
        if let Some(f) = slot.0.take() {
            slot.1 = Some(f());
        }
    }
    let mut slot: (Option<F>, Option<T>) = (Some(f), None);
    let p = &mut slot as *mut (Option<F>, Option<T>) as usize;
    let go: fn(usize) = call::<T, F>;
    with_os(Some(os), move || go(p));
    slot.1.take().unwrap_or_else(|| internal("a thread returned nothing"))
}

/// The caller repeats its seed; or the system repeats itself while something proven differs.
fn repeated(s: &mut Src) -> Res {
    let w = world(s);
    let d = phone(s);
    let m = r::phone_scalar(&d).unwrap();
    let h = w.p.h;
    let seed = gen::seed32(s);
    let rng = move || {
        use rand::SeedableRng;
        rand::ChaChaRng::from_seed(seed)
    };
    let os = s.draw(u32::max_value() as u64);
    let u = user(s, &w, &d)?;
    let e = entry(s, &w, &d)?;
    let known: Vec<(&str, RistrettoPoint)> = vec![("the attribute", h * m), ("one", h), ("an opening", h * opening(&e))];
    let show_in = |os: Option<u64>, u: &SignalUser, e: &RosterEntryCommitment| -> Result<r::Presentation, Fail> {
        let u = SignalUser::from_bytes(&u.to_bytes()).map_err(broken("decode"))?;
        let e = RosterEntryCommitment::from_bytes(&e.to_bytes()).map_err(broken("decode"))?;
        let p: SignalCredentialPresentation = with_os(os, move || u.show(&mut rng(), &e)).map_err(broken("show"))?;
        parse(&p)
    };
    let issue_in = |os: Option<u64>, w: &Setup, d: &[u8]| -> Result<r::Issuance, Fail> {
        let i = SignalIssuer::from_bytes(&w.issuer.to_bytes()).map_err(broken("decode"))?;
        let d = d.to_vec();
        let x = with_os(os, move || i.issue(&d, &mut rng())).map_err(broken("issue"))?;
        parse_issuance(&x)
    };
    let what = match s.draw(5) {
        0 => {
            // The same caller's seed, in one thread.
            let mut all = Vec::new();
            for k in 0..3 {
                let p = parse(&u.show(&mut rng(), &e).map_err(broken("show"))?)?;
                all.extend(shown_nonces(&w, &format!("presentation {}", k), m, &e, &p));
                let i = parse_issuance(&w.issuer.issue(&d, &mut rng()).map_err(broken("issue"))?)?;
                all.extend(issue_nonces(&w, &format!("issuance {}", k), &i));
            }
            distinct(&known, &all)?;
            "the caller's seed is repeated"
        }
        1 => {
            // The same caller's seed, and threads with different system randomness.
            let mut all = Vec::new();
            for k in 0..2 {
                let p = show_in(Some(os + k), &u, &e)?;
                all.extend(shown_nonces(&w, &format!("presentation {}", k), m, &e, &p));
                let i = issue_in(Some(os + k), &w, &d)?;
                all.extend(issue_nonces(&w, &format!("issuance {}", k), &i));
            }
            distinct(&known, &all)?;
            "the caller's seed is repeated in threads"
        }
        2 => {
            // All randomness is the same, but the roster entry differs: another number's, or another opening.
            let d2 = if s.chance(1, 3) { gen::near(s, &d) } else { d.clone() };
            let e2 = entry(s, &w, &d2)?;
            let p1 = show_in(Some(os), &u, &e)?;
            let p2 = show_in(Some(os), &u, &e2)?;
            // The first proof doesn't depend on the entry.
            let a = shown_nonces(&w, "entry 1", m, &e, &p1);
            let b = shown_nonces(&w, "entry 2", m, &e2, &p2);
            distinct(&known, &a)?;
            distinct(&known, &b)?;
            let both: Vec<Hidden> = a.into_iter().skip(3).chain(b.into_iter().skip(3)).collect();
            distinct(&known, &both)?;
            "all randomness is repeated with another entry"
        }
        3 => {
            // All randomness is the same, but the credential differs.
            let i = issue(s, &w, &d)?;
            let mut u2 = fresh_user(&w, &d)?;
            u2.obtain_finish(Some(&i)).map_err(broken("obtain"))?;
            let p1 = show_in(Some(os), &u, &e)?;
            let p2 = show_in(Some(os), &u2, &e)?;
            let mut all = shown_nonces(&w, "credential 1", m, &e, &p1);
            all.extend(shown_nonces(&w, "credential 2", m, &e, &p2));
            distinct(&known, &all)?;
            "all randomness is repeated with another credential"
        }
        4 => {
            // Another number is shown
            let d2 = gen::near(s, &d);
            let m2 = r::phone_scalar(&d2).unwrap();
            let u2 = user(s, &w, &d2)?;
            let p1 = show_in(Some(os), &u, &e)?;
            let p2 = show_in(Some(os), &u2, &e)?;
            let mut all = shown_nonces(&w, "number 1", m, &e, &p1);
            all.extend(shown_nonces(&w, "number 2", m2, &e, &p2));
            distinct(&known, &all)?;
            "all randomness is repeated with another number"
        }
        _ => {
            // Another number is issued, or by another issuer.
            let i1 = issue_in(Some(os), &w, &d)?;
            let mut all = issue_nonces(&w, "issuance 1", &i1);
            if s.chance(1, 2) {
                let d2 = gen::near(s, &d);
                let i2 = issue_in(Some(os), &w, &d2)?;
                all.extend(issue_nonces(&w, "issuance 2", &i2));
            } else {
                let k2 = r::Key { x0: other_scalar(s, &w.k.x0), x1: w.k.x1 };
                let w2 = setup_with(w.sys, k2);
                let i2 = issue_in(Some(os), &w2, &d)?;
                all.extend(issue_nonces(&w2, "issuance 2", &i2));
            }
            distinct(&known, &all)?;
            "all randomness is repeated in another issuance"
        }
    };
    s.label(what);
    s.interesting();
    s.note(format!("{}: {}", what, gen::dstr(&d)));
    Ok(())
}

/// Each of the five proofs: two runs with the same system randomness which differ in one thing.
fn proofs(s: &mut Src) -> Res {
    let k = s.below(5);
    let y = &p09::SYSTEMS[k];
    let (p, x) = p09::statement(s, y.spec);
    let os = s.draw(u32::max_value() as u64);
    let run = |os: u64, name: &'static [u8], p: &[RistrettoPoint], x: &[Scalar]| -> Result<Vec<Scalar>, Fail> {
        let (q, z) = (p.to_vec(), x.to_vec());
        let b = with_os(Some(os), move || (p09::SYSTEMS[k].create)(&mut Transcript::new(name), &q, &z));
        let w = match r::RProof::from_bytes(y.spec, &b) {
            Some(w) => w,
            None => return engine::fail(engine::GIVEN_UP, "encoding".to_string()),
        };
        Ok(w.responses.iter().zip(x.iter()).map(|(t, x)| t - w.challenge * x).collect())
    };
    let a = run(os, "context".as_bytes(), &p, &x)?;
    let params = r::Params { g: gen::B, h: p[y.spec.public("A")] };
    let (b, what) = match s.draw(3) {
        0 => (run(os + 1, "context".as_bytes(), &p, &x)?, "the system's randomness".to_string()),
        1 => (run(os, "Context".as_bytes(), &p, &x)?, "the context".to_string()),
        2 => {
            let i = s.below(p.len());
            let mut q = p.clone();
            q[i] = other_point(s, &params, &p[i]);
            (run(os, "context".as_bytes(), &q, &x)?, format!("{} in {}", y.spec.publics[i], y.spec.name))
        }
        _ => {
            let i = s.below(x.len());
            let mut z = x.clone();
            z[i] = other_scalar(s, &x[i]);
            (run(os, "context".as_bytes(), &p, &z)?, format!("{} in {}", y.spec.secrets[i], y.spec.name))
        }
    };
    let h = gen::B;
    let hid = |v: &[Scalar], t: &str| -> Vec<Hidden> {
        v.iter().zip(y.spec.secrets).map(|(k, n)| Hidden { name: format!("{}: nonce for {}", t, n), point: h * k }).collect()
    };
    let mut all = hid(&a, "first");
    all.extend(hid(&b, "second"));
    distinct(&[("one", h)], &all).map_err(|f| Fail { sig: f.sig, msg: format!("two proofs which differ in {}: {}", what, f.msg) })?;
    for x in a.iter().chain(b.iter()) {
        large("a nonce", x)?;
    }
    s.label(y.spec.name);
    s.interesting();
    s.note(format!("two proofs which differ in {}", what));
    Ok(())
}

const BABY: u64 = 1 << 18;
const BITS: u32 = 32;
static START: Once = Once::new();
static mut TABLE: *const (HashSet<[u8; 32]>, Mutex<()>) = 0 as *const _;

/// i B for i from 0 to BABY, compressed
fn table() -> &'static HashSet<[u8; 32]> {
    START.call_once(|| {
        let mut t = HashSet::new();
        let mut p = RistrettoPoint::identity();
        for _ in 0..=BABY {
            t.insert(r::enc(&p));
            p += gen::B;
        }
        unsafe { TABLE = Box::into_raw(Box::new((t, Mutex::new(())))) }
    });
    unsafe { &(*TABLE).0 }
}

/// Is the discrete logarithm less than 2^BITS in absolute value?
fn is_small(p: &RistrettoPoint) -> bool {
    let t = table();
    // baby steps up to BABY; giant steps of that size
    let step = gen::B * Scalar::from(BABY);
    let mut q = *p;
    let mut n = -*p;
    for _ in 0..(1u64 << BITS) / BABY {
        if t.contains(&r::enc(&q)) || t.contains(&r::enc(&n)) {
            return true;
        }
        q -= step;
        n -= step;
    }
    false
}

/// No blinding value can be found by a search through 2^32 values.
fn searched(s: &mut Src) -> Res {
    let sys = gen::trapdoor_sys(s);
    let a = sys.a.unwrap().invert();
    let k = gen::random_key(s);
    let w = setup_with(sys, k);
    let d = phone(s);
    let m = r::phone_scalar(&d).unwrap();
    let b = gen::random_scalar(s);
    let (u, _) = user_with(s, &w, &d, b)?;
    let e = entry(s, &w, &d)?;
    let p = parse(&show(s, &u, &e)?)?;
    let i = parse_issuance(&issue(s, &w, &d)?)?;
    let mut v = blinding(&w, "presentation", m, &p, Some(sys.a.unwrap() * b.invert()));
    v.extend(issue_blinding(&w, "issuance", &i));
    v.extend(shown_nonces(&w, "presentation", m, &e, &p));
    v.extend(issue_nonces(&w, "issuance", &i));
    let which = s.below(v.len() + 5);
    // Each of them in turn, those which aren't known as scalars more often.
    let x = if which < v.len() { &v[which] } else { &v[which - v.len()] };
    ensure!(!is_small(&(x.point * a)), "small", "{} is less than 2^{} in absolute value", x.name, BITS);
    s.label(&x.name);
    s.interesting();
    s.note(x.name.clone());
    Ok(())
}

type Values = Vec<(String, [u8; 32])>;

/// How many bits of the generators each value depends on: a value which is chosen at
/// random depends on about as many as it has, or it could be found by a search.
fn entropy(s: &mut Src) -> Res {
    let sys = gen::trapdoor_sys(s);
    let a = sys.a.unwrap();
    let k = gen::random_key(s);
    let w = setup_with(sys, k);
    let d = phone(s);
    let m = r::phone_scalar(&d).unwrap();
    let b = gen::random_scalar(s);
    let seed = gen::seed32(s);
    let os = s.draw(u32::max_value() as u64);
    let op = s.below(6);
    let (u, _) = user_with(s, &w, &d, b)?;
    let e = entry(s, &w, &d)?;
    let bytes = |v: Vec<Hidden>| -> Values { v.into_iter().map(|x| (x.name, r::enc(&x.point))).collect() };
    let values = |rng: &mut gen::FlipRng| -> Result<Values, Fail> {
        Ok(match op {
            0 | 1 => {
                let p = parse(&u.show(rng, &e).map_err(broken("show"))?)?;
                let mut v = blinding(&w, "show", m, &p, Some(a * b.invert()));
                v.extend(shown_nonces(&w, "show", m, &e, &p));
                bytes(v)
            }
            2 => {
                let i = parse_issuance(&w.issuer.issue(&d, rng).map_err(broken("issue"))?)?;
                let mut v = issue_blinding(&w, "issue", &i);
                v.extend(issue_nonces(&w, "issue", &i));
                bytes(v)
            }
            3 => {
                let e = RosterEntryCommitment::create(&d, &w.sys.sp, rng).map_err(broken("create"))?;
                vec![("opening of an entry".to_string(), opening(&e).to_bytes())]
            }
            4 => {
                let key = SignalIssuer::create(w.sys.sp, rng).issuer.keypair.secret.to_bytes();
                key.chunks(32).enumerate().map(|(i, c)| {
                    let mut x = [0; 32];
                    x.copy_from_slice(c);
                    (format!("x{} of an issuer's key", i), x)
                }).collect()
            }
            _ => {
                // The single steps.
                let f = aeonflux::amacs::Rerandomization::new(rng);
                let t = aeonflux::amacs::Tag { nonce: w.p.g, mac: w.p.h };
                let mut v = vec![("factor of a rerandomisation".to_string(), r::enc(&f.apply_to_tag(&t).nonce))];
                let n = aeonflux::nonces::Ephemeral::new(rng);
                v.push(("Ephemeral".to_string(), r::enc(&(&n * w.p.g))));
                let n = aeonflux::nonces::Nonces::new(rng, 2);
                v.push(("first of two Nonces".to_string(), r::enc(&(&n[0] * w.p.g))));
                v.push(("second of two Nonces".to_string(), r::enc(&(&n[1] * w.p.g))));
                let x = aeonflux::elgamal::Keypair::generate(rng).public.to_bytes();
                let mut key = [0; 32];
                key.copy_from_slice(&x[..32]);
                v.push(("key for encryption".to_string(), key));
                v
            }
        })
    };
    // One run: the values, and how much was drawn from the caller's generator and from transcripts.
    let run = |caller: Option<u64>, transcript: Option<u64>| -> Result<(Values, u64, u64), Fail> {
        use rand::SeedableRng;
        let mut rng = gen::FlipRng { rng: rand::ChaChaRng::from_seed(seed), flip: caller, drawn: 0 };
        // The thread's generator is seeded once, so it needs another one.
        scoped(os, || {
            merlin::observe::start(transcript);
            let v = values(&mut rng)?;
            let n = merlin::observe::drawn();
            Ok((v, rng.drawn, n))
        })
    };
    let (first, callers, transcripts) = run(None, None)?;
    let (again, ..) = run(None, None)?;
    if again != first {
        return engine::fail(engine::GIVEN_UP, "not deterministic".to_string());
    }
    for (generator, n) in &[("the caller's generator", callers), ("the transcript's generator", transcripts)] {
        let mut count = vec![0; first.len()];
        // Every fourth bit, so a value of b random bits is seen to depend on b / 4.
        let mut bit = s.draw(3);
        while bit < *n {
            let (v, ..) = if *generator == "the caller's generator" { run(Some(bit), None)? } else { run(None, Some(bit))? };
            if v.len() != first.len() {
                return engine::fail(engine::GIVEN_UP, "another number of values".to_string());
            }
            for i in 0..v.len() {
                if v[i] != first[i] {
                    count[i] += 1;
                }
            }
            bit += 4;
        }
        for (c, v) in count.iter().zip(first.iter()) {
            ensure!(*c == 0 || *c >= 56, "entropy", "{} depends on {} of {} bits of {} only", v.0, c, n / 4, generator);
        }
        s.label(&format!("{}: {} bits of {}", match op { 0 | 1 => "show", 2 => "issue", 3 => "entry", 4 => "key", _ => "steps" }, n, generator));
    }
    s.interesting();
    s.note(format!("operation {}", op));
    Ok(())
}

/// How often each bit of a scalar is set, among many.
fn even(name: &str, v: &[Scalar]) -> Res {
    let n = v.len() as i64;
    // More than eight standard deviations
    let most = 4.0 * (n as f64).sqrt() + 1.0;
    for bit in 0..252 {
        let ones = v.iter().filter(|x| x.as_bytes()[bit / 8] >> (bit % 8) & 1 == 1).count() as i64;
        ensure!(
            ((2 * ones - n).abs() as f64) < 2.0 * most,
            "biased",
            "bit {} of {} is set in {} of {} cases",
            bit,
            name,
            ones,
            n
        );
    }
    Ok(())
}

/// Scalars which are chosen at random are distributed evenly, and so are their sums and differences.
fn distribution(s: &mut Src) -> Res {
    let n = 300;
    let op = s.below(9);
    let mut names: Vec<String> = Vec::new();
    let mut samples: Vec<Vec<Scalar>> = Vec::new();
    if op < 5 {
        let y = &p09::SYSTEMS[op];
        let (p, x) = p09::statement(s, y.spec);
        for _ in 0..n {
            let b = (y.create)(&mut Transcript::new("context".as_bytes()), &p, &x);
            match r::RProof::from_bytes(y.spec, &b) {
                Some(w) => samples.push(w.responses.iter().zip(x.iter()).map(|(t, x)| t - w.challenge * x).collect()),
                None => return engine::fail(engine::GIVEN_UP, "encoding".to_string()),
            }
        }
        names.extend(y.spec.secrets.iter().map(|n| format!("the nonce for {} in {}", n, y.spec.name)));
    } else {
        let w = world(s);
        let d = phone(s);
        let m = r::phone_scalar(&d).unwrap();
        let mut g = gen::rng(s);
        let mut hidden = Vec::new();
        let scalar = |b: &[u8]| r::scalar(b).unwrap_or_default();
        match op {
            5 => {
                let (u, e) = (user(s, &w, &d)?, entry(s, &w, &d)?);
                for k in 0..n {
                    let p = parse(&u.show(&mut g, &e).map_err(broken("show"))?)?;
                    let tag = format!("presentation {}", k);
                    hidden.extend(shown_nonces(&w, &tag, m, &e, &p));
                    hidden.extend(blinding(&w, &tag, m, &p, None));
                    samples.push(vec![
                        p.valid.responses[0] - p.valid.challenge * m,
                        p.equal.responses[0] - p.equal.challenge * m,
                        p.equal.responses[2] - p.equal.challenge * opening(&e),
                    ]);
                }
                names = vec!["a first nonce of a presentation".to_string(), "a second one".to_string(), "a third one".to_string()];
            }
            6 => {
                for _ in 0..n {
                    let i = parse_issuance(&w.issuer.issue(&d, &mut g).map_err(broken("issue"))?)?;
                    let c = i.proof.challenge;
                    hidden.extend(issue_nonces(&w, "issuance", &i));
                    hidden.extend(issue_blinding(&w, "issuance", &i));
                    samples.push(vec![
                        i.proof.responses[0] - c * w.k.x0,
                        i.proof.responses[1] - c * w.k.x1,
                        i.proof.responses[3] - c * (m * w.k.x1),
                    ]);
                }
                names = vec!["a first nonce of an issuance".to_string(), "a second one".to_string(), "a fourth one".to_string()];
            }
            7 => {
                for _ in 0..n {
                    let e = RosterEntryCommitment::create(&d, &w.sys.sp, &mut g).map_err(broken("create"))?;
                    let x = aeonflux::nonces::Ephemeral::new(&mut g);
                    let y: &Scalar = (&x).into();
                    let z = aeonflux::nonces::Nonces::new(&mut g, 2);
                    let z: Vec<&Scalar> = vec![(&z[0]).into(), (&z[1]).into()];
                    samples.push(vec![opening(&e), *y, *z[0], *z[1]]);
                }
                names = vec!["an opening".to_string(), "an Ephemeral".to_string(), "the first of two Nonces".to_string(), "the second of two Nonces".to_string()];
            }
            _ => {
                for _ in 0..n {
                    let k = SignalIssuer::create(w.sys.sp, &mut g).issuer.keypair.secret.to_bytes();
                    let x = aeonflux::elgamal::Keypair::generate(&mut g).secret.to_bytes();
                    samples.push(vec![scalar(&k[..32]), scalar(&k[32..]), scalar(&x)]);
                }
                names = vec!["x0 of a key".to_string(), "x1 of a key".to_string(), "a key for encryption".to_string()];
            }
        }
        distinct(&[("the attribute", w.p.h * m), ("one", w.p.h)], &hidden)?;
    }
    let mut all = HashSet::new();
    for v in samples.iter() {
        for (x, name) in v.iter().zip(&names) {
            ensure!(all.insert(x.to_bytes()) && all.insert((-x).to_bytes()), "repeated", "{} was chosen before: {}", name, gen::hex(x.as_bytes()));
        }
    }
    let column = |i: usize| -> Vec<Scalar> { samples.iter().map(|v| v[i]).collect() };
    for i in 0..names.len() {
        let a = column(i);
        even(&names[i], &a)?;
        let steps: Vec<Scalar> = a.windows(2).map(|w| w[1] - w[0]).collect();
        even(&format!("the difference between two of {}", names[i]), &steps)?;
        for j in 0..i {
            let b = column(j);
            let sums: Vec<Scalar> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
            let differences: Vec<Scalar> = a.iter().zip(&b).map(|(x, y)| x - y).collect();
            even(&format!("{} plus {}", names[i], names[j]), &sums)?;
            even(&format!("{} minus {}", names[i], names[j]), &differences)?;
        }
    }
    s.label(&names[0]);
    s.interesting();
    s.note(format!("{} of each: {}", n, names.join(", ")));
    Ok(())
}

pub static C10: &[Check] = &[
    Check { name: "unlinkable", quick: 2500, thorough: 40_000, rule: "every case: two to eight presentations of up to four credentials on one number, all elements, blinding values and nonces of which are compared", run: unlinkable },
    Check { name: "repeated", quick: 5000, thorough: 80_000, rule: "every case: issuances or presentations with repeated caller's or system randomness", run: repeated },
    Check { name: "proofs", quick: 12000, thorough: 200_000, rule: "every case: two proofs with the same system randomness which differ in one thing", run: proofs },
    Check { name: "searched", quick: 160, thorough: 3_000, rule: "every case: a search for the discrete logarithm of one hidden value", run: searched },
    Check { name: "entropy", quick: 24, thorough: 240, rule: "every case: every fourth bit of all generators' output was flipped", run: entropy },
    Check { name: "distribution", quick: 128, thorough: 3000, rule: "every case: 300 proofs, messages or keys, every bit of whose random scalars was counted", run: distribution },
];
