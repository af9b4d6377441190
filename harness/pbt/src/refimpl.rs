//! An implementation of the protocol of its own, written from the statements
//! published in aeonflux/src/proofs_macros.rs and the documented encodings.

use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;

/// A Schnorr proof for several linear relations over the same secrets.
pub struct Spec {
    pub name: &'static str,
    /// In the order in which they are committed to.
    pub publics: &'static [&'static str],
    /// In the order in which their responses are encoded.
    pub secrets: &'static [&'static str],
    /// left hand side = sum of secret * base
    pub stmts: &'static [(&'static str, &'static [(&'static str, &'static str)])],
}

pub static ISSUANCE_REVEALED: Spec = Spec {
    name: "issuance_revealed",
    publics: &["P", "Q", "Cx0", "B", "A", "X1"],
    secrets: &["x0", "x1", "x0_tilde", "m1x1"],
    stmts: &[
        ("Q", &[("x0", "P"), ("m1x1", "P")]),
        ("Cx0", &[("x0", "B"), ("x0_tilde", "A")]),
        ("X1", &[("x1", "A")]),
    ],
};

pub static ATTRIBUTES_BLINDED: Spec = Spec {
    name: "attributes_blinded",
    publics: &["B", "A", "D", "encrypted_attribute_0_0", "encrypted_attribute_0_1"],
    secrets: &["d", "e0", "m0", "nonce"],
    stmts: &[
        ("D", &[("d", "B")]),
        ("encrypted_attribute_0_0", &[("e0", "B")]),
        ("encrypted_attribute_0_1", &[("m0", "B"), ("e0", "D")]),
    ],
};

pub static ISSUANCE_BLINDED: Spec = Spec {
    name: "issuance_blinded",
    publics: &[
        "B", "A", "X0", "X1", "D", "P", "T0_0", "T0_1", "EQ_commitment", "EQ_encryption",
        "encrypted_attribute_0_0", "encrypted_attribute_0_1",
    ],
    secrets: &["x0_tilde", "x0", "x1", "s", "b", "t0"],
    stmts: &[
        ("X0", &[("x0", "B"), ("x0_tilde", "A")]),
        ("X1", &[("x1", "A")]),
        ("P", &[("b", "B")]),
        ("T0_0", &[("b", "X0")]),
        ("T0_1", &[("t0", "A")]),
        ("EQ_commitment", &[("s", "B"), ("t0", "encrypted_attribute_0_0")]),
        ("EQ_encryption", &[("s", "D"), ("t0", "encrypted_attribute_0_1")]),
    ],
};

pub static VALID_CREDENTIAL: Spec = Spec {
    name: "valid_credential",
    publics: &["B", "A", "X0", "P", "V", "Cm0"],
    secrets: &["m0", "z0", "minus_zQ"],
    stmts: &[("Cm0", &[("m0", "P"), ("z0", "A")]), ("V", &[("z0", "X0"), ("minus_zQ", "A")])],
};

pub static COMMITTED_VALUES_EQUAL: Spec = Spec {
    name: "committed_values_equal",
    publics: &["B", "A", "P", "Cm0", "Cm1"],
    secrets: &["m0", "z0", "z1"],
    stmts: &[("Cm0", &[("m0", "P"), ("z0", "A")]), ("Cm1", &[("m0", "A"), ("z1", "B")])],
};

pub static ALL: [&'static Spec; 5] = [
    &ISSUANCE_REVEALED,
    &ATTRIBUTES_BLINDED,
    &ISSUANCE_BLINDED,
    &VALID_CREDENTIAL,
    &COMMITTED_VALUES_EQUAL,
];

/// How a (dishonest) prover departs from the transcript of an honest one.
#[derive(Clone, Debug, Default)]
pub struct Departure {
    /// Leave out this item: 0 is the domain separator, then come the publics, then the commitments.
    pub skip: Option<usize>,
    /// Commit to this item twice.
    pub twice: Option<usize>,
    /// Exchange this item with the next one.
    pub swap: Option<usize>,
    /// Use another label for this item.
    pub relabel: Option<usize>,
    /// Use another label for the challenge.
    pub chal: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RProof {
    pub challenge: Scalar,
    pub responses: Vec<Scalar>,
}

impl Spec {
    pub fn public(&self, name: &str) -> usize {
        self.publics.iter().position(|p| *p == name).unwrap()
    }
    pub fn secret(&self, name: &str) -> usize {
        self.secrets.iter().position(|p| *p == name).unwrap()
    }
    pub fn items(&self) -> usize {
        1 + self.publics.len() + self.stmts.len()
    }

    /// Are the relations true?
    pub fn holds(&self, publics: &[RistrettoPoint], secrets: &[Scalar]) -> bool {
        self.stmts.iter().all(|(lhs, terms)| {
            let mut sum = RistrettoPoint::identity();
            for (s, b) in terms.iter() {
                sum += publics[self.public(b)] * secrets[self.secret(s)];
            }
            sum == publics[self.public(lhs)]
        })
    }

    /// Which relations are false?
    pub fn wrong(&self, publics: &[RistrettoPoint], secrets: &[Scalar]) -> usize {
        self.stmts
            .iter()
            .filter(|(lhs, terms)| {
                let mut sum = RistrettoPoint::identity();
                for (s, b) in terms.iter() {
                    sum += publics[self.public(b)] * secrets[self.secret(s)];
                }
                sum != publics[self.public(lhs)]
            })
            .count()
    }

    fn challenge(
        &self,
        t: &mut Transcript,
        publics: &[RistrettoPoint],
        coms: &[RistrettoPoint],
        d: &Departure,
    ) -> Scalar {
        let mut items: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
        items.push((b"domain-sep".to_vec(), self.name.as_bytes().to_vec()));
        for (n, p) in self.publics.iter().zip(publics) {
            items.push((n.as_bytes().to_vec(), p.compress().as_bytes().to_vec()));
        }
        for ((lhs, _), c) in self.stmts.iter().zip(coms) {
            items.push((format!("com {}", lhs).into_bytes(), c.compress().as_bytes().to_vec()));
        }
        if let Some(i) = d.relabel {
            items[i].0.push(b'_');
        }
        if let Some(i) = d.swap {
            let j = (i + 1) % items.len();
            items.swap(i, j);
        }
        if let Some(i) = d.twice {
            let x = items[i].clone();
            items.insert(i, x);
        } else if let Some(i) = d.skip {
            items.remove(i);
        }
        for (l, m) in items.iter() {
            t.commit_bytes(leak(l), m);
        }
        let mut bytes = [0u8; 64];
        t.challenge_bytes(if d.chal { b"chal_" } else { b"chal" }, &mut bytes);
        Scalar::from_bytes_mod_order_wide(&bytes)
    }

    pub fn prove(
        &self,
        t: &mut Transcript,
        publics: &[RistrettoPoint],
        secrets: &[Scalar],
        nonces: &[Scalar],
        d: &Departure,
    ) -> RProof {
        let coms: Vec<RistrettoPoint> = self
            .stmts
            .iter()
            .map(|(_, terms)| {
                let mut sum = RistrettoPoint::identity();
                for (s, b) in terms.iter() {
                    sum += publics[self.public(b)] * nonces[self.secret(s)];
                }
                sum
            })
            .collect();
        let challenge = self.challenge(t, publics, &coms, d);
        let responses = secrets.iter().zip(nonces).map(|(s, k)| challenge * s + k).collect();
        RProof { challenge, responses }
    }

    pub fn verify(&self, t: &mut Transcript, publics: &[RistrettoPoint], proof: &RProof) -> bool {
        let coms = self.commitments(publics, proof);
        self.challenge(t, publics, &coms, &Departure::default()) == proof.challenge
    }

    pub fn commitments(&self, publics: &[RistrettoPoint], proof: &RProof) -> Vec<RistrettoPoint> {
        self.stmts
            .iter()
            .map(|(lhs, terms)| {
                let mut sum = -(publics[self.public(lhs)] * proof.challenge);
                for (s, b) in terms.iter() {
                    sum += publics[self.public(b)] * proof.responses[self.secret(s)];
                }
                sum
            })
            .collect()
    }
}

/// `commit_bytes` of this version of merlin takes any label, but other versions
/// ask for a static one.  All labels are from a small set, so this leaks little.
fn leak(l: &[u8]) -> &'static [u8] {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! { static T: RefCell<HashMap<Vec<u8>, &'static [u8]>> = RefCell::new(HashMap::new()); }
    T.with(|t| *t.borrow_mut().entry(l.to_vec()).or_insert_with(|| Box::leak(l.to_vec().into_boxed_slice())))
}

impl RProof {
    /// challenge, then responses, each as a length of 8 bytes and 32 bytes.
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for s in std::iter::once(&self.challenge).chain(self.responses.iter()) {
            v.extend(&[32, 0, 0, 0, 0, 0, 0, 0]);
            v.extend(s.as_bytes());
        }
        v
    }
    pub fn from_bytes(spec: &Spec, b: &[u8]) -> Option<RProof> {
        if b.len() != 40 * (1 + spec.secrets.len()) {
            return None;
        }
        let mut v = Vec::new();
        for c in b.chunks(40) {
            if c[..8] != [32, 0, 0, 0, 0, 0, 0, 0] {
                return None;
            }
            v.push(scalar(&c[8..])?);
        }
        Some(RProof { challenge: v[0], responses: v[1..].to_vec() })
    }
}

/// The order of the group, 2^252 + 27742317777372353535851937790883648493.
pub const ORDER: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];

/// a < b as little-endian numbers
pub fn less(a: &[u8], b: &[u8]) -> bool {
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}

/// A canonical scalar.
pub fn scalar(b: &[u8]) -> Option<Scalar> {
    if b.len() != 32 || !less(b, &ORDER) {
        return None;
    }
    let mut t = [0u8; 32];
    t.copy_from_slice(b);
    Some(Scalar::from_bits(t))
}

/// A canonical point.
pub fn point(b: &[u8]) -> Option<RistrettoPoint> {
    if b.len() != 32 {
        return None;
    }
    let mut t = [0u8; 32];
    t.copy_from_slice(b);
    let p = CompressedRistretto(t).decompress()?;
    if p.compress().to_bytes() == t { Some(p) } else { None }
}

pub fn enc(p: &RistrettoPoint) -> [u8; 32] {
    p.compress().to_bytes()
}

/// The documented encoding of a phone number.
pub fn phone_scalar(digits: &[u8]) -> Option<Scalar> {
    if digits.len() > 26 {
        return None;
    }
    let mut v = vec![15, 15];
    v.extend(digits);
    v.extend(&[15, 15, digits.len() as u8]);
    v.resize(32, 0);
    let mut t = [0u8; 32];
    t.copy_from_slice(&v);
    Some(Scalar::from_bits(t))
}

// ---------------------------------------------------------------- messages

pub struct Params {
    pub g: RistrettoPoint,
    pub h: RistrettoPoint,
}

impl Params {
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = enc(&self.g).to_vec();
        v.extend(&enc(&self.h));
        v
    }
}

pub struct Key {
    pub x0: Scalar,
    pub x1: Scalar,
}

/// public || x0 || x1
pub fn keypair_bytes(p: &Params, k: &Key) -> Vec<u8> {
    let mut v = enc(&(p.h * k.x1)).to_vec();
    v.extend(k.x0.as_bytes());
    v.extend(k.x1.as_bytes());
    v
}

#[derive(Clone, Debug, PartialEq)]
pub struct Issuance {
    pub cx0: RistrettoPoint,
    pub p: RistrettoPoint,
    pub q: RistrettoPoint,
    pub m: Scalar,
    pub proof: RProof,
}

impl Issuance {
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = enc(&self.cx0).to_vec();
        v.extend(&enc(&self.p));
        v.extend(&enc(&self.q));
        v.extend(self.m.as_bytes());
        v.extend(self.proof.to_bytes());
        v
    }
    pub fn from_bytes(b: &[u8]) -> Option<Issuance> {
        if b.len() != 328 {
            return None;
        }
        Some(Issuance {
            cx0: point(&b[..32])?,
            p: point(&b[32..64])?,
            q: point(&b[64..96])?,
            m: scalar(&b[96..128])?,
            proof: RProof::from_bytes(&ISSUANCE_REVEALED, &b[128..])?,
        })
    }
}

pub fn issuance_publics(p: &Params, x1: &RistrettoPoint, i: &Issuance) -> Vec<RistrettoPoint> {
    vec![i.p, i.q, i.cx0, p.g, p.h, *x1]
}

/// Issue over the scalar `m`.
pub fn issue(p: &Params, k: &Key, m: Scalar, b: Scalar, x0_tilde: Scalar, nonces: &[Scalar], d: &Departure, context: &'static [u8]) -> Issuance {
    let pp = p.g * b;
    let q = pp * (k.x0 + k.x1 * m);
    let cx0 = p.g * k.x0 + p.h * x0_tilde;
    let publics = [pp, q, cx0, p.g, p.h, p.h * k.x1];
    let proof = ISSUANCE_REVEALED.prove(
        &mut Transcript::new(context),
        &publics,
        &[k.x0, k.x1, x0_tilde, m * k.x1],
        nonces,
        d,
    );
    Issuance { cx0, p: pp, q, m, proof }
}

pub fn issuance_ok(p: &Params, x1: &RistrettoPoint, i: &Issuance) -> bool {
    ISSUANCE_REVEALED.verify(&mut Transcript::new(b"AEONFLUX ISSUANCE"), &issuance_publics(p, x1, i), &i.proof)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Presentation {
    pub roster: RistrettoPoint,
    pub cq: RistrettoPoint,
    pub p: RistrettoPoint,
    pub cm: RistrettoPoint,
    pub valid: RProof,
    pub equal: RProof,
}

impl Presentation {
    pub fn inner(&self) -> Vec<u8> {
        let mut v = enc(&self.cq).to_vec();
        v.extend(&enc(&self.p));
        v.extend(&enc(&self.cm));
        v.extend(self.valid.to_bytes());
        v
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = enc(&self.roster).to_vec();
        v.extend(self.inner());
        v.extend(self.equal.to_bytes());
        v
    }
    pub fn from_bytes(b: &[u8]) -> Option<Presentation> {
        if b.len() != 448 {
            return None;
        }
        Some(Presentation {
            roster: point(&b[..32])?,
            cq: point(&b[32..64])?,
            p: point(&b[64..96])?,
            cm: point(&b[96..128])?,
            valid: RProof::from_bytes(&VALID_CREDENTIAL, &b[128..288])?,
            equal: RProof::from_bytes(&COMMITTED_VALUES_EQUAL, &b[288..])?,
        })
    }
}

/// Everything random in a presentation.
#[derive(Clone, Debug)]
pub struct ShowRandom {
    pub r: Scalar,
    pub z0: Scalar,
    pub zq: Scalar,
    pub ks: Vec<Scalar>,
}

/// Show the credential (p0, q0) on `m` with the roster entry `entry`, opened by `z1`.
pub fn show(
    p: &Params,
    x1: &RistrettoPoint,
    p0: &RistrettoPoint,
    q0: &RistrettoPoint,
    m: Scalar,
    entry: &RistrettoPoint,
    z1: Scalar,
    r: &ShowRandom,
    dv: &Departure,
    de: &Departure,
    contexts: (&'static [u8], &'static [u8]),
) -> Presentation {
    let pp = p0 * r.r;
    let q = q0 * r.r;
    let cq = q + p.h * r.zq;
    let cm = pp * m + p.h * r.z0;
    let v = x1 * r.z0 - p.h * r.zq;
    let valid = VALID_CREDENTIAL.prove(
        &mut Transcript::new(contexts.0),
        &[p.g, p.h, *x1, pp, v, cm],
        &[m, r.z0, -r.zq],
        &r.ks[..3],
        dv,
    );
    let equal = COMMITTED_VALUES_EQUAL.prove(
        &mut Transcript::new(contexts.1),
        &[p.g, p.h, pp, cm, *entry],
        &[m, r.z0, z1],
        &r.ks[3..6],
        de,
    );
    Presentation { roster: *entry, cq, p: pp, cm, valid, equal }
}

pub const SHOW: (&'static [u8], &'static [u8]) = (b"AEONFLUX SHOW", b"SIGNAL GROUP MEMBERSHIP");

pub fn valid_publics(p: &Params, k: &Key, x1: &RistrettoPoint, pr: &Presentation) -> Vec<RistrettoPoint> {
    let v = pr.p * k.x0 + pr.cm * k.x1 - pr.cq;
    vec![p.g, p.h, *x1, pr.p, v, pr.cm]
}

/// Does an issuer with key `k` and published key `x1` accept the presentation?
pub fn presentation_ok(p: &Params, k: &Key, x1: &RistrettoPoint, pr: &Presentation) -> bool {
    pr.p != RistrettoPoint::identity()
        && VALID_CREDENTIAL.verify(&mut Transcript::new(b"AEONFLUX SHOW"), &valid_publics(p, k, x1, pr), &pr.valid)
}

pub fn membership_ok(p: &Params, pr: &Presentation) -> bool {
    COMMITTED_VALUES_EQUAL.verify(
        &mut Transcript::new(b"SIGNAL GROUP MEMBERSHIP"),
        &[p.g, p.h, pr.p, pr.cm, pr.roster],
        &pr.equal,
    )
}
