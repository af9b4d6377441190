//! C11: serialisable values survive a round trip in every format.

use aeonflux::amacs;
use aeonflux::credential::{Credential, CredentialIssuance, CredentialPresentation, CredentialRequest, VerifiedCredential};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::Ephemeral;
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen::Commitment;
use aeonflux::proofs::{attributes_blinded, committed_values_equal, issuance_blinded, issuance_revealed, valid_credential};
use aeonflux::user::User;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use serde::de::DeserializeOwned;
use serde::Serialize;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{catching, fail, Check, Fail, Res, Src};
use crate::gen;
use crate::p01::Bytes;
use crate::p09;
use crate::refimpl as r;

impl_bytes!(
    amacs::Tag,
    amacs::PublicKey,
    amacs::SecretKey,
    amacs::Keypair,
    elgamal::PublicKey,
    elgamal::SecretKey,
    elgamal::Keypair,
    SystemParameters,
    Commitment,
    CommittedPhoneNumber,
    PhoneNumber,
    Credential
);

/// Equality by what a value consists of.
pub trait Same {
    fn same(&self, other: &Self) -> bool;
}

macro_rules! same_by_eq {
    ($($t:ty),*) => {$( impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } } )*}
}

same_by_eq!(
    amacs::Tag, amacs::PublicKey, elgamal::PublicKey, elgamal::SecretKey, elgamal::Keypair, SystemParameters, Commitment,
    CommittedPhoneNumber, PhoneNumber, Credential, CredentialRequest, CredentialIssuance, CredentialPresentation,
    VerifiedCredential, User, SignalUser, SignalCredentialPresentation, VerifiedSignalCredential,
    issuance_revealed::Proof, issuance_blinded::Proof, attributes_blinded::Proof, valid_credential::Proof, committed_values_equal::Proof
);

impl Same for amacs::SecretKey {
    fn same(&self, o: &Self) -> bool {
        self.x0 == o.x0 && self.xn == o.xn
    }
}
impl Same for amacs::Keypair {
    fn same(&self, o: &Self) -> bool {
        self.public == o.public && self.secret.same(&o.secret)
    }
}
impl Same for Issuer {
    fn same(&self, o: &Self) -> bool {
        self.system_parameters == o.system_parameters && self.keypair.same(&o.keypair)
    }
}
impl Same for SignalIssuer {
    fn same(&self, o: &Self) -> bool {
        self.issuer.same(&o.issuer)
    }
}
impl Same for RosterEntryCommitment {
    fn same(&self, o: &Self) -> bool {
        self.commitment == o.commitment && self.opening.to_bytes() == o.opening.to_bytes()
    }
}

/// A value and, if it is known independently, its encoding.
type V<T> = (T, Vec<u8>);

/// Through bytes, bincode and JSON in every way that is offered.
fn trip<T: Bytes + Serialize + DeserializeOwned + Same>(x: &T, name: &str, want: &[u8], len: Option<usize>) -> Res {
    let e = x.enc();
    ensure!(e == x.enc(), "deterministic", "{}: encoded twice with different results", name);
    ensure!(
        e == want,
        "encoding",
        "{}: encoded as {} instead of {}",
        name,
        gen::hex(&e),
        gen::hex(want)
    );
    if let Some(n) = len {
        ensure!(e.len() == n, "length", "{}: {} bytes instead of {}", name, e.len(), n);
    }
    back(x, T::dec(&e), name, "bytes", &e)?;
    serde_trip(x, name, "", &|y| y.enc() == e)?;
    if let Ok(v) = serde_json::from_slice::<Vec<u8>>(&serde_json::to_vec(x).unwrap_or_default()) {
        ensure!(v == e, "json-bytes", "{}: its JSON form has other bytes", name);
    }
    Ok(())
}

fn back<T: Bytes + Same>(x: &T, y: Result<T, String>, name: &str, how: &str, e: &[u8]) -> Res {
    match y {
        Err(m) => fail("restore", format!("{} not restored from {}: {} ({})", name, how, m, gen::hex(e))),
        Ok(y) => {
            ensure!(x.same(&y), "restored-value", "{}: another value after {} ({})", name, how, gen::hex(e));
            ensure!(y.enc() == e, "restored-encoding", "{}: another encoding after {} ({})", name, how, gen::hex(e));
            Ok(())
        }
    }
}

fn serde_trip<T: Serialize + DeserializeOwned + Same>(x: &T, name: &str, skip: &str, same_enc: &Fn(&T) -> bool) -> Res {
    let check = |how: &str, y: Result<T, String>| -> Res {
        match y {
            Err(m) => fail("restore", format!("{} not restored from {}: {}", name, how, m)),
            Ok(y) => {
                ensure!(x.same(&y), "restored-value", "{}: another value after {}", name, how);
                ensure!(same_enc(&y), "restored-encoding", "{}: another encoding after {}", name, how);
                Ok(())
            }
        }
    };
    fn m<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| format!("{:?}", e))
    }
    // bincode
    let b = match bincode::serialize(x) {
        Ok(b) => b,
        Err(e) => return fail("serialise", format!("{} to bincode: {:?}", name, e)),
    };
    ensure!(Some(&b) == bincode::serialize(x).ok().as_ref(), "deterministic", "{}: bincode differs", name);
    ensure!(bincode::serialized_size(x).ok() == Some(b.len() as u64), "length", "{}: wrong serialised size", name);
    check("bincode", m(bincode::deserialize(&b)))?;
    check("a bincode stream", m(bincode::deserialize_from(&mut &b[..])))?;
    let mut both = Vec::new();
    if bincode::serialize_into(&mut both, x).is_err() || bincode::serialize_into(&mut both, x).is_err() {
        return fail("serialise", format!("{} into a bincode stream", name));
    }
    let mut stream = &both[..];
    check("a bincode stream of two", m(bincode::deserialize_from(&mut stream)))?;
    check("the second of a bincode stream", m(bincode::deserialize_from(&mut stream)))?;
    let pair = match bincode::serialize(&(7u8, x, 9u16)) {
        Ok(b) => b,
        Err(e) => return fail("serialise", format!("{} in a tuple to bincode: {:?}", name, e)),
    };
    match bincode::deserialize::<(u8, T, u16)>(&pair) {
        Ok((7, y, 9)) => check("a bincode tuple", Ok(y))?,
        _ => return fail("restore", format!("{} not restored from a bincode tuple", name)),
    }
    if skip == "json" {
        return Ok(());
    }
    // JSON
    let j = match serde_json::to_string(x) {
        Ok(j) => j,
        Err(e) => return fail("serialise", format!("{} to JSON: {:?}", name, e)),
    };
    ensure!(Some(&j) == serde_json::to_string(x).ok().as_ref(), "deterministic", "{}: JSON differs", name);
    check("JSON", m(serde_json::from_str(&j)))?;
    check("JSON bytes", m(serde_json::from_slice(j.as_bytes())))?;
    check("a JSON reader", m(serde_json::from_reader(j.as_bytes())))?;
    match serde_json::to_value(x) {
        Ok(v) => check("a JSON value", m(serde_json::from_value(v)))?,
        Err(e) => return fail("serialise", format!("{} to a JSON value: {:?}", name, e)),
    }
    match serde_json::to_string_pretty(x) {
        Ok(v) => check("pretty JSON", m(serde_json::from_str(&v)))?,
        Err(e) => return fail("serialise", format!("{} to pretty JSON: {:?}", name, e)),
    }
    match serde_json::to_string(&vec![x, x]).map(|v| serde_json::from_str::<Vec<T>>(&v)) {
        Ok(Ok(mut v)) => {
            ensure!(v.len() == 2, "restored-value", "{}: {} values from a JSON list of two", name, v.len());
            check("a JSON list", Ok(v.pop().unwrap()))?
        }
        e => return fail("restore", format!("{} not restored from a JSON list: {}", name, e.is_ok())),
    }
    Ok(())
}

/// Both values survive, and their encodings are equal exactly if they are.
fn two<T: Bytes + Serialize + DeserializeOwned + Same>(s: &mut Src, name: &str, len: Option<usize>, a: V<T>, b: V<T>) -> Res {
    s.label(name);
    trip(&a.0, name, &a.1, len)?;
    trip(&b.0, name, &b.1, len)?;
    let equal = a.1 == b.1;
    if equal {
        s.label("equal values");
    }
    ensure!(a.0.same(&b.0) == equal, "distinct", "{}: equality differs from that of the encodings", name);
    s.interesting();
    s.note(format!("{}: {}", name, gen::hex(&a.1)));
    Ok(())
}

/// What values consist of.
#[derive(Clone, Copy)]
enum Part {
    P(RistrettoPoint),
    S(Scalar),
}
use self::Part::{P, S};

fn encode(parts: &[Part]) -> Vec<u8> {
    let mut v = Vec::new();
    for p in parts {
        match p {
            P(p) => v.extend(&r::enc(p)),
            S(x) => v.extend(x.as_bytes()),
        }
    }
    v
}

fn parts(s: &mut Src, shape: &str) -> Vec<Part> {
    shape.chars().map(|c| if c == 'P' { P(gen::point(s)) } else { S(gen::scalar(s)) }).collect()
}

fn pt(p: &Part) -> RistrettoPoint {
    match p {
        P(p) => *p,
        _ => internal("a scalar where a point should be"),
    }
}
fn sc(p: &Part) -> Scalar {
    match p {
        S(x) => *x,
        _ => internal("a point where a scalar should be"),
    }
}

/// The same parts, one of them altered, two exchanged, or other ones.
fn similar(s: &mut Src, v: &[Part]) -> Vec<Part> {
    let mut w = v.to_vec();
    if w.is_empty() {
        return w;
    }
    let i = s.below(w.len());
    match s.draw(3) {
        0 => {}
        1 => {
            let j = s.below(w.len());
            match (w[i], w[j]) {
                (P(_), P(_)) | (S(_), S(_)) => w.swap(i, j),
                _ => {}
            }
        }
        _ => {
            w[i] = match w[i] {
                P(p) => P(if s.chance(1, 2) { -p } else { p + gen::point(s) }),
                S(x) => S(other_scalar(s, &x)),
            }
        }
    }
    w
}

fn of_parts<T, F>(s: &mut Src, name: &str, len: Option<usize>, shape: &str, build: F) -> Res
where
    T: Bytes + Serialize + DeserializeOwned + Same,
    F: Fn(&[Part]) -> T,
{
    let a = parts(s, shape);
    let b = similar(s, &a);
    two(s, name, len, (build(&a), encode(&a)), (build(&b), encode(&b)))
}

fn generator_of(s: &mut Src, x: &Scalar) -> gen::ScriptRng {
    let mut b = x.as_bytes().to_vec();
    b.extend(&[0u8; 32]);
    gen::ScriptRng::new(b, gen::rng(s))
}

fn amac_pair(v: &[Part], n: usize) -> amacs::Keypair {
    amacs::Keypair {
        public: amacs::PublicKey { Xn: v[..n].iter().map(pt).collect() },
        secret: amacs::SecretKey { x0: sc(&v[n]), xn: v[n + 1..].iter().map(sc).collect() },
    }
}

fn commitment(p: &RistrettoPoint) -> Commitment {
    Commitment::to(p, &Ephemeral::from(Scalar::zero()), &gen::B)
}

/// Values of the simple types, all parts of which can be chosen.
fn values(s: &mut Src) -> Res {
    match s.below(13) {
        0 => of_parts(s, "amacs::Tag", Some(amacs::SIZEOF_TAG), "PP", |v| amacs::Tag { nonce: pt(&v[0]), mac: pt(&v[1]) }),
        1 => {
            let n = gen::count(s, 0, 5);
            of_parts(s, "amacs::PublicKey", Some(32 * n), &"P".repeat(n), |v| amacs::PublicKey { Xn: v.iter().map(pt).collect() })
        }
        2 => {
            let n = gen::count(s, 0, 5);
            of_parts(s, "amacs::SecretKey", Some(32 * (n + 1)), &"S".repeat(n + 1), |v| amacs::SecretKey {
                x0: sc(&v[0]),
                xn: v[1..].iter().map(sc).collect(),
            })
        }
        3 => {
            let n = gen::count(s, 0, 5);
            of_parts(s, "amacs::Keypair", Some(32 * (2 * n + 1)), &format!("{}S{}", "P".repeat(n), "S".repeat(n)), |v| amac_pair(v, n))
        }
        4 => of_parts(s, "SystemParameters", Some(aeonflux::parameters::SIZEOF_SYSTEM_PARAMETERS), "PP", |v| SystemParameters {
            g: pt(&v[0]),
            h: pt(&v[1]),
        }),
        5 => of_parts(s, "Commitment", Some(aeonflux::pedersen::SIZEOF_COMMITMENT), "P", |v| commitment(&pt(&v[0]))),
        6 => of_parts(s, "CommittedPhoneNumber", Some(signal_credential::phone_number::SIZEOF_COMMITTED_PHONE_NUMBER), "P", |v| {
            CommittedPhoneNumber(commitment(&pt(&v[0])))
        }),
        7 => of_parts(s, "PhoneNumber", Some(signal_credential::phone_number::SIZEOF_PHONE_NUMBER), "S", |v| PhoneNumber(sc(&v[0]))),
        8 => of_parts(s, "RosterEntryCommitment", Some(64), "PS", |v| RosterEntryCommitment {
            commitment: CommittedPhoneNumber(commitment(&pt(&v[0]))),
            opening: Ephemeral::from(sc(&v[1])),
        }),
        9 => of_parts(s, "Credential", Some(aeonflux::credential::SIZEOF_CREDENTIAL), "PPS", |v| Credential {
            mac: amacs::Tag { nonce: pt(&v[0]), mac: pt(&v[1]) },
            attributes: vec![sc(&v[2])],
        }),
        10 => {
            let n = gen::count(s, 0, 5);
            of_parts(s, "CredentialRequest", Some(32 * n), &"S".repeat(n), |v| CredentialRequest {
                attributes_revealed: v.iter().map(sc).collect(),
            })
        }
        11 => {
            // elGamal keys, made from chosen scalars
            let a = vec![S(gen::scalar(s))];
            let b = similar(s, &a);
            let (x, y) = (sc(&a[0]), sc(&b[0]));
            let mut make = |x: &Scalar| -> Result<elgamal::Keypair, Fail> {
                let k = elgamal::Keypair::generate(&mut generator_of(s, x));
                ensure!(Scalar::from(k.secret.clone()) == *x, crate::engine::GIVEN_UP, "a scripted generator doesn't give the key");
                Ok(k)
            };
            let (k, l) = (make(&x)?, make(&y)?);
            let (p, q) = (gen::B * x, gen::B * y);
            match s.below(3) {
                0 => two(s, "elgamal::SecretKey", Some(elgamal::SIZEOF_SECRET_KEY), (k.secret, encode(&a)), (l.secret, encode(&b))),
                1 => two(s, "elgamal::PublicKey", Some(elgamal::SIZEOF_PUBLIC_KEY), (k.public, encode(&[P(p)])), (l.public, encode(&[P(q)]))),
                _ => two(
                    s,
                    "elgamal::Keypair",
                    Some(elgamal::SIZEOF_KEYPAIR),
                    (k, encode(&[S(x), P(p)])),
                    (l, encode(&[S(y), P(q)])),
                ),
            }
        }
        _ => {
            // Issuers for any number of attributes
            let n = gen::count(s, 1, 5);
            let shape = format!("PP{}S{}", "P".repeat(n), "S".repeat(n));
            let build = |v: &[Part]| Issuer {
                system_parameters: SystemParameters { g: pt(&v[0]), h: pt(&v[1]) },
                keypair: amac_pair(&v[2..], n),
            };
            if s.chance(1, 2) {
                of_parts(s, "Issuer", Some(64 + 32 * (2 * n + 1)), &shape, build)
            } else {
                of_parts(s, "SignalIssuer", Some(64 + 32 * (2 * n + 1)), &shape, |v| SignalIssuer { issuer: build(v) })
            }
        }
    }
}

/// Users in every state.
fn users(s: &mut Src) -> Res {
    let mut make = |v: &[Part], shape: (bool, bool), key: Option<elgamal::Keypair>| -> V<SignalUser> {
        let number = PhoneNumber(sc(&v[0]));
        let credential = if shape.1 {
            Some(Credential { mac: amacs::Tag { nonce: pt(&v[4]), mac: pt(&v[5]) }, attributes: vec![sc(&v[6])] })
        } else {
            None
        };
        let mut e = encode(&v[..4]);
        match key {
            Some(ref k) => e.extend(&k.to_bytes()),
            None => e.extend(&[0u8; 64][..]),
        }
        if shape.1 {
            e.extend(encode(&v[4..7]));
        } else {
            e.extend(&[0u8; 96][..]);
        }
        let user = User {
            system_parameters: SystemParameters { g: pt(&v[1]), h: pt(&v[2]) },
            issuer_parameters: aeonflux::issuer::IssuerParameters { Xn: vec![pt(&v[3])] },
            key,
            credential,
        };
        (SignalUser { phone_number: number, user }, e)
    };
    let shape = (s.chance(1, 2), s.chance(2, 3));
    let mut a = parts(s, "SPPPPPS");
    // A credential of zeros only is no credential, and no issuer makes one.
    if pt(&a[4]) == RistrettoPoint::default() {
        a[4] = P(gen::B);
    }
    let mut b = similar(s, &a);
    if pt(&b[4]) == RistrettoPoint::default() {
        b[4] = P(gen::B);
    }
    let mut key = |s: &mut Src| {
        if shape.0 {
            let x = gen::nonzero_scalar(s);
            Some(elgamal::Keypair::generate(&mut generator_of(s, &x)))
        } else {
            None
        }
    };
    let k = key(s);
    let l = if s.chance(1, 2) { k.clone() } else { key(s) };
    let other = if s.chance(1, 4) { (shape.0, !shape.1) } else { shape };
    s.label(if shape.0 { "with key" } else { "without key" });
    s.label(if shape.1 { "with credential" } else { "without credential" });
    let x = make(&a, shape, k);
    let y = make(&b, other, l);
    if s.chance(1, 2) {
        two(s, "User", Some(256), (x.0.user, x.1[32..].to_vec()), (y.0.user, y.1[32..].to_vec()))
    } else {
        two(s, "SignalUser", Some(288), x, y)
    }
}

/// Messages of the protocol, made by the library.
fn messages(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let e = if s.chance(1, 2) { d.clone() } else { gen::near(s, &d) };
    if s.chance(1, 2) {
        let mut make = |d: &[u8]| -> Result<V<CredentialIssuance>, Fail> {
            let i = issue(s, &w, d)?;
            let want = match r::Issuance::from_bytes(&i.to_bytes()) {
                Some(p) => {
                    let same = p.p == i.credential.mac.nonce && p.q == i.credential.mac.mac && vec![p.m] == i.credential.attributes;
                    ensure!(same, "encoding", "CredentialIssuance: its parts are at other places than documented");
                    p.to_bytes()
                }
                None => return fail("encoding", format!("CredentialIssuance: not as documented: {}", gen::hex(&i.to_bytes()))),
            };
            Ok((i, want))
        };
        let mut a = make(&d)?;
        let mut b = if d == e { (copy(&a.0)?, a.1.clone()) } else { make(&e)? };
        if s.chance(1, 2) {
            // Others are accepted, too, if not as what they claim to be.
            for v in vec![&mut a, &mut b] {
                if let Some(mut i) = r::Issuance::from_bytes(&v.1) {
                    for _ in 0..s.range(1, 2) {
                        match s.draw(5) {
                            0 => i.cx0 = gen::point(s),
                            1 => i.p = gen::point(s),
                            2 => i.q = gen::point(s),
                            3 => i.m = gen::scalar(s),
                            4 => i.proof.challenge = gen::scalar(s),
                            _ => {
                                let n = s.below(i.proof.responses.len());
                                i.proof.responses[n] = gen::scalar(s)
                            }
                        }
                    }
                    if let Ok(x) = CredentialIssuance::from_bytes(&i.to_bytes()) {
                        s.label("altered issuance");
                        *v = (x, i.to_bytes());
                    }
                }
            }
        }
        return two(s, "CredentialIssuance", Some(aeonflux::credential::SIZEOF_CREDENTIAL_ISSUANCE), a, b);
    }
    let mut make = |d: &[u8]| -> Result<V<SignalCredentialPresentation>, Fail> {
        let u = user(s, &w, d)?;
        let e = entry(s, &w, d)?;
        let p = show(s, &u, &e)?;
        let want = match r::Presentation::from_bytes(&p.to_bytes()) {
            Some(q) => {
                let same = q.p == p.presentation.rerandomized_nonce
                    && r::enc(&q.roster).to_vec() == p.roster_entry_commitment.to_bytes()
                    && r::enc(&q.cq).to_vec() == p.presentation.rerandomized_mac_commitment.to_bytes();
                ensure!(same, "encoding", "SignalCredentialPresentation: its parts are at other places than documented");
                q.to_bytes()
            }
            None => return fail("encoding", format!("SignalCredentialPresentation: not as documented: {}", gen::hex(&p.to_bytes()))),
        };
        Ok((p, want))
    };
    let mut a = make(&d)?;
    let mut b = if d == e { a.clone() } else { make(&e)? };
    let which = s.below(4);
    if which < 2 && s.chance(1, 2) {
        for v in vec![&mut a, &mut b] {
            if let Some(mut p) = r::Presentation::from_bytes(&v.1) {
                for _ in 0..s.range(1, 2) {
                    match s.draw(5) {
                        0 => p.cq = gen::point(s),
                        1 => p.p = gen::point(s),
                        2 => p.cm = gen::point(s),
                        3 => p.roster = gen::point(s),
                        n => {
                            let q = if n == 4 { &mut p.valid } else { &mut p.equal };
                            let i = s.below(q.responses.len() + 1);
                            let x = gen::scalar(s);
                            if i == q.responses.len() { q.challenge = x } else { q.responses[i] = x }
                        }
                    }
                }
                if let Ok(x) = SignalCredentialPresentation::from_bytes(&p.to_bytes()) {
                    s.label("altered presentation");
                    *v = (x, p.to_bytes());
                }
            }
        }
    }
    const WHOLE: usize = signal_credential::credential::SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION;
    const INNER: usize = aeonflux::credential::SIZEOF_CREDENTIAL_PRESENTATION;
    let inner = |v: &V<SignalCredentialPresentation>| (v.0.presentation.clone(), v.1[32..32 + INNER].to_vec());
    match which {
        0 => two(s, "SignalCredentialPresentation", Some(WHOLE), a, b),
        1 => two(s, "CredentialPresentation", Some(INNER), inner(&a), inner(&b)),
        2 => {
            let f = |(p, e): V<CredentialPresentation>| -> Result<V<VerifiedCredential>, Fail> {
                Ok((w.issuer.issuer.verify(&p).map_err(broken("verify"))?, e))
            };
            let (a, b) = (f(inner(&a))?, f(inner(&b))?);
            two(s, "VerifiedCredential", Some(INNER), a, b)
        }
        _ => {
            let f = |(p, e): V<SignalCredentialPresentation>| -> Result<V<VerifiedSignalCredential>, Fail> {
                Ok((w.issuer.verify(p).map_err(broken("verify"))?, e))
            };
            let (a, b) = (f(a)?, f(b)?);
            two(s, "VerifiedSignalCredential", Some(WHOLE), a, b)
        }
    }
}

fn copy<T: Bytes>(x: &T) -> Result<T, Fail> {
    T::dec(&x.enc()).or_else(|e| fail("restore", format!("not restored from its bytes: {}", e)))
}

/// The proofs on their own, which have the compact binary format only.
fn proofs(s: &mut Src) -> Res {
    let k = s.below(5);
    let y = &p09::SYSTEMS[k];
    let (p, x) = p09::statement(s, y.spec);
    let mut g = merlin::Transcript::new(b"round trip");
    let b = (y.create)(&mut g, &p, &x);
    ensure!(
        r::RProof::from_bytes(y.spec, &b).map(|p| p.to_bytes()) == Some(b.clone()),
        "encoding",
        "{}: a proof isn't encoded as documented",
        y.spec.name
    );
    fn go<T: Serialize + DeserializeOwned + Same>(name: &str, b: &[u8]) -> Res {
        let x: T = match bincode::deserialize(b) {
            Ok(x) => x,
            Err(e) => return fail("restore", format!("{}: a proof is not restored: {:?}", name, e)),
        };
        serde_trip(&x, name, "json", &|y| bincode::serialize(y).ok() == Some(b.to_vec()))
    }
    s.label(y.spec.name);
    s.interesting();
    s.note(format!("{}: {}", y.spec.name, gen::hex(&b)));
    match k {
        0 => go::<issuance_revealed::Proof>(y.spec.name, &b),
        1 => go::<attributes_blinded::Proof>(y.spec.name, &b),
        2 => go::<issuance_blinded::Proof>(y.spec.name, &b),
        3 => go::<valid_credential::Proof>(y.spec.name, &b),
        _ => go::<committed_values_equal::Proof>(y.spec.name, &b),
    }
}

/// A run of the protocol in which every value is replaced by what is restored
/// from one format, side by side with one in which none is.
fn protocol(s: &mut Src) -> Res {
    let format = s.below(3);
    fn via<T: Bytes + Serialize + DeserializeOwned>(format: usize, x: &T, what: &str) -> Result<T, Fail> {
        let y = match format {
            0 => T::dec(&x.enc()),
            1 => bincode::serialize(x).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())),
            _ => serde_json::to_string(x).map_err(|e| e.to_string()).and_then(|b| serde_json::from_str(&b).map_err(|e| e.to_string())),
        };
        y.or_else(|e| fail("restore", format!("{} not restored: {}", what, e)))
    }
    let w = setup(s);
    let d = gen::digits(s);
    let no = |what: &'static str| move |e: String| Fail { sig: "unusable".to_string(), msg: format!("{} with restored values: {}", what, e) };
    fn m<T, E: std::fmt::Debug>(x: Result<T, E>) -> Result<T, String> {
        x.map_err(|e| format!("{:?}", e))
    }
    let key = if s.chance(1, 3) { Some(elgamal::Keypair::generate(&mut gen::rng(s))) } else { None };
    // Both runs have the same randomness, so that their results are equal where no proof is involved.
    let (g1, g2, g3) = (gen::seed32(s), gen::seed32(s), gen::seed32(s));
    let rng = |x: &[u8; 32]| <rand::ChaChaRng as rand::SeedableRng>::from_seed(*x);

    let sp = via(format, &w.sys.sp, "system parameters")?;
    let kp = via(format, &w.issuer.issuer.keypair, "key pair")?;
    let issuer = SignalIssuer::new(sp, kp);
    let issuer = via(format, &issuer, "issuer")?;
    let ip = via(format, &issuer.get_issuer_parameters(), "issuer parameters")?;
    ensure!(ip == w.issuer.get_issuer_parameters(), "unequal", "the issuer parameters of a restored issuer differ");
    let key = match key {
        Some(k) => Some(via(format, &k, "elGamal key pair")?),
        None => None,
    };
    let user = m(SignalUser::new(sp, ip, key, &d)).map_err(no("SignalUser::new"))?;
    let mut user = via(format, &user, "user")?;
    let iss = m(issuer.issue(&d, &mut rng(&g1))).map_err(no("issue"))?;
    let plain = w.issuer.issue(&d, &mut rng(&g1)).map_err(broken("issue"))?;
    ensure!(iss.credential == plain.credential, "unequal", "a restored issuer makes another credential");
    let iss = via(format, &iss, "issuance")?;
    m(user.obtain_finish(Some(&iss))).map_err(no("obtain_finish"))?;
    let user = via(format, &user, "user with credential")?;
    let entry = m(RosterEntryCommitment::create(&d, &sp, &mut rng(&g2))).map_err(no("RosterEntryCommitment::create"))?;
    let entry = via(format, &entry, "roster entry")?;
    let pn = match PhoneNumber::try_from_bytes(&d) {
        Ok(p) => via(format, &p, "phone number")?,
        Err(e) => return fail(crate::engine::GIVEN_UP, format!("{:?}", e)),
    };
    ensure!(
        entry.commitment.open(&pn, &entry.opening, &sp.g, &sp.h).is_ok(),
        "unusable",
        "a restored roster entry doesn't open to its restored number"
    );
    let p = m(user.show(&mut rng(&g3), &entry)).map_err(no("show"))?;
    let p = via(format, &p, "presentation")?;
    let v = m(issuer.verify(p.clone())).map_err(no("verify"))?;
    let v = via(format, &v, "verified credential")?;
    let c = m(issuer.verify_roster_membership(&v)).map_err(no("verify_roster_membership"))?;
    let c = via(format, &c, "commitment")?;
    ensure!(c == entry.commitment, "unequal", "another roster entry commitment");
    // The original issuer accepts it, too.
    let v = m(w.issuer.verify(p)).map_err(no("verify by the original issuer"))?;
    m(w.issuer.verify_roster_membership(&v)).map_err(no("verify_roster_membership by the original issuer"))?;
    s.label(&format!("format {}", ["bytes", "bincode", "JSON"][format]));
    s.interesting();
    s.note(format!("number {} through {}", gen::dstr(&d), ["bytes", "bincode", "JSON"][format]));
    let _ = catching(|| ());
    Ok(())
}

pub static C11: &[Check] = &[
    Check {
        name: "values",
        quick: 60_000,
        thorough: 2_000_000,
        rule: "every case: two equal or similar values of one of the simple types in all formats",
        run: values,
    },
    Check {
        name: "users",
        quick: 20_000,
        thorough: 600_000,
        rule: "every case: two users with or without key and credential in all formats",
        run: users,
    },
    Check {
        name: "messages",
        quick: 6000,
        thorough: 160_000,
        rule: "every case: two issuances or presentations made by the library in all formats",
        run: messages,
    },
    Check {
        name: "proofs",
        quick: 8000,
        thorough: 200_000,
        rule: "every case: a proof made by the library in the compact binary format",
        run: proofs,
    },
    Check {
        name: "protocol",
        quick: 6000,
        thorough: 160_000,
        rule: "every case: a run of the protocol with all values restored",
        run: protocol,
    },
];
