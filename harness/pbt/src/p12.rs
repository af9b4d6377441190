//! C12: decoding never panics, and accepts canonical encodings only.

use aeonflux::amacs;
use aeonflux::credential::{Credential, CredentialIssuance, CredentialPresentation, CredentialRequest, VerifiedCredential};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen::Commitment;
use aeonflux::proofs::{attributes_blinded, committed_values_equal, issuance_blinded, issuance_revealed, valid_credential};
use aeonflux::user::User;
use serde::de::DeserializeOwned;
use serde::Serialize;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{catching, fail, Check, Res, Src};
use crate::gen;
use crate::p01::Bytes;
use crate::refimpl as r;

/// A part of an encoding: a point, a scalar, a scalar with a length as bincode
/// has it, or something optional which is all zeros if it's not there.
#[derive(Clone, Debug)]
enum Part {
    P,
    S,
    R,
    Opt(&'static str),
}

fn part_len(p: &Part) -> usize {
    match p {
        Part::P | Part::S => 32,
        Part::R => 40,
        Part::Opt(s) => 32 * s.len(),
    }
}

fn shape(s: &str) -> Vec<Part> {
    let mut v = Vec::new();
    for c in s.chars() {
        v.push(match c {
            'P' => Part::P,
            'S' => Part::S,
            'R' => Part::R,
            'k' => Part::Opt("SP"),
            'c' => Part::Opt("PPS"),
            _ => internal("shape"),
        });
    }
    v
}

fn is_part(p: &Part, b: &[u8]) -> bool {
    match p {
        Part::P => r::point(b).is_some(),
        Part::S => r::scalar(b).is_some(),
        Part::R => b[..8] == [32, 0, 0, 0, 0, 0, 0, 0] && r::scalar(&b[8..]).is_some(),
        Part::Opt(s) => b.iter().all(|c| *c == 0) || matches(&shape(s), b),
    }
}

fn matches(parts: &[Part], b: &[u8]) -> bool {
    let mut i = 0;
    for p in parts {
        let n = part_len(p);
        if b.len() < i + n || !is_part(p, &b[i..i + n]) {
            return false;
        }
        i += n;
    }
    i == b.len()
}

fn good(s: &mut Src, p: &Part) -> Vec<u8> {
    match p {
        Part::P => gen::point(s).compress().to_bytes().to_vec(),
        Part::S => gen::scalar(s).as_bytes().to_vec(),
        Part::R => {
            let mut v = vec![32, 0, 0, 0, 0, 0, 0, 0];
            v.extend(gen::scalar(s).as_bytes());
            v
        }
        Part::Opt(t) => {
            if s.chance(1, 3) {
                vec![0; part_len(p)]
            } else {
                let mut v = Vec::new();
                for q in shape(t) {
                    v.extend(good(s, &q));
                }
                v
            }
        }
    }
}

fn odd(s: &mut Src, p: &Part) -> Vec<u8> {
    match p {
        Part::P => gen::point_bytes(s).to_vec(),
        Part::S => gen::scalar_bytes(s).to_vec(),
        Part::R => {
            let mut v = vec![32, 0, 0, 0, 0, 0, 0, 0];
            if s.chance(1, 3) {
                let i = s.below(8);
                v[i] = s.byte();
            }
            v.extend(&gen::scalar_bytes(s));
            v
        }
        Part::Opt(t) => {
            let mut v = Vec::new();
            let parts = shape(t);
            let k = s.below(parts.len());
            for (i, q) in parts.iter().enumerate() {
                v.extend(if i == k { odd(s, q) } else if s.chance(1, 4) { vec![0; 32] } else { good(s, q) });
            }
            v
        }
    }
}

/// A type: the shape for some number of attributes, and the number's bounds.
struct Kind {
    name: &'static str,
    shape: fn(usize) -> String,
    min: usize,
    max: Option<usize>,
    decode: fn(&mut Src, &str, &[u8], bool) -> Res,
}

macro_rules! kind {
    ($name:expr, $t:ty, $shape:expr) => {
        Kind { name: $name, shape: |_| $shape.to_string(), min: 0, max: Some(0), decode: decode::<$t> }
    };
    ($name:expr, $t:ty, $shape:expr, $min:expr) => {
        Kind { name: $name, shape: $shape, min: $min, max: None, decode: decode::<$t> }
    };
}

const ISSUANCE: &str = "PPPSRRRRR";
const PRESENTATION: &str = "PPPRRRR";
const SIGNAL: &str = "PPPPRRRRRRRR";

static KINDS: &[Kind] = &[
    kind!("amacs::Tag", amacs::Tag, "PP"),
    kind!("amacs::PublicKey", amacs::PublicKey, |n| "P".repeat(n), 0),
    kind!("amacs::SecretKey", amacs::SecretKey, |n| "S".repeat(n + 1), 0),
    kind!("amacs::Keypair", amacs::Keypair, |n| format!("{}S{}", "P".repeat(n), "S".repeat(n)), 0),
    kind!("elgamal::PublicKey", elgamal::PublicKey, "P"),
    kind!("elgamal::SecretKey", elgamal::SecretKey, "S"),
    kind!("elgamal::Keypair", elgamal::Keypair, "SP"),
    kind!("SystemParameters", SystemParameters, "PP"),
    kind!("Commitment", Commitment, "P"),
    kind!("CommittedPhoneNumber", CommittedPhoneNumber, "P"),
    kind!("PhoneNumber", PhoneNumber, "S"),
    kind!("RosterEntryCommitment", RosterEntryCommitment, "PS"),
    kind!("Credential", Credential, "PPS"),
    kind!("CredentialRequest", CredentialRequest, |n| "S".repeat(n), 0),
    kind!("CredentialIssuance", CredentialIssuance, ISSUANCE),
    kind!("CredentialPresentation", CredentialPresentation, PRESENTATION),
    kind!("VerifiedCredential", VerifiedCredential, PRESENTATION),
    kind!("SignalCredentialPresentation", SignalCredentialPresentation, SIGNAL),
    kind!("VerifiedSignalCredential", VerifiedSignalCredential, SIGNAL),
    kind!("Issuer", Issuer, |n| format!("PP{}S{}", "P".repeat(n), "S".repeat(n)), 1),
    kind!("SignalIssuer", SignalIssuer, |n| format!("PP{}S{}", "P".repeat(n), "S".repeat(n)), 1),
    kind!("User", User, "PPPkc"),
    kind!("SignalUser", SignalUser, "SPPPkc"),
];

impl Kind {
    fn accepts(&self, b: &[u8]) -> bool {
        let max = self.max.unwrap_or(b.len() / 32 + 1);
        (self.min..max + 1).any(|n| matches(&shape(&(self.shape)(n)), b))
    }

    /// Something like an encoding of this type.
    fn input(&self, s: &mut Src) -> (Vec<u8>, &'static str) {
        let n = match self.max {
            Some(_) => 0,
            None => gen::count(s, self.min, 5),
        };
        let parts = shape(&(self.shape)(n));
        let mut v = Vec::new();
        let mut what = "well-formed";
        let k = if s.chance(1, 3) && !parts.is_empty() {
            what = "one odd part";
            s.below(parts.len())
        } else {
            usize::max_value()
        };
        for (i, p) in parts.iter().enumerate() {
            v.extend(if i == k { odd(s, p) } else { good(s, p) });
        }
        if s.chance(1, 2) {
            let times = if s.chance(1, 4) { 2 } else { 1 };
            for _ in 0..times {
                let (w, how) = gen::alter_bytes(s, &v);
                v = w;
                what = how;
            }
        } else if s.chance(1, 6) {
            // The right length or near to it, but random or constant.
            let mut len = v.len();
            if s.chance(1, 2) {
                len = (len + s.range(0, 66)).saturating_sub(33);
            }
            let c = s.byte();
            v = if s.chance(1, 2) { vec![c; len] } else { (0..len).map(|_| s.byte()).collect() };
            what = "noise";
        }
        (v, what)
    }
}

fn judge<T: Bytes>(name: &str, how: &str, b: &[u8], accept: bool, x: Result<Result<T, String>, String>) -> Res {
    match x {
        Err(m) => fail("panic", format!("{}: panicked decoding {} from {}: {}", name, how, gen::hex(b), m)),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(x)) => {
            let e = match catching(|| x.enc()) {
                Ok(e) => e,
                Err(m) => return fail("panic", format!("{}: decoded from {} {}, but can't be encoded: {}", name, how, gen::hex(b), m)),
            };
            ensure!(e == b, "malleable", "{}: decoded from {} {}, but encoded as {}", name, how, gen::hex(b), gen::hex(&e));
            ensure!(accept, "accepted", "{}: decoded from {} {}, which is no canonical encoding", name, how, gen::hex(b));
            Ok(())
        }
    }
}

fn le64(n: u64) -> Vec<u8> {
    (0..8).map(|i| (n >> (8 * i)) as u8).collect()
}

/// JSON which isn't a list of bytes, with what it stands for if it's accepted.
fn odd_json(s: &mut Src, b: &[u8]) -> String {
    let mut v: Vec<String> = b.iter().map(|c| c.to_string()).collect();
    let i = if v.is_empty() { 0 } else { s.below(v.len()) };
    let junk = *s.pick(&["256", "-1", "1.0", "1e2", "null", "true", "\"1\"", "[1]", "{}", "18446744073709551616", "0x1", ""]);
    match s.draw(7) {
        0 if !v.is_empty() => {
            v[i] = junk.to_string();
            format!("[{}]", v.join(","))
        }
        1 => {
            // The value modulo 256
            if !v.is_empty() {
                v[i] = format!("{}", b[i] as u32 + 256);
            }
            format!("[{}]", v.join(","))
        }
        2 => format!("[[{}]]", v.join(",")),
        3 => format!("{{\"0\":[{}]}}", v.join(",")),
        4 => format!("[{}", v.join(",")),
        5 => junk.to_string(),
        6 => format!("[{}] 1", v.join(",")),
        _ => serde_json::to_string(&String::from_utf8_lossy(b)).unwrap_or_default(),
    }
}

fn decode<T: Bytes + Serialize + DeserializeOwned>(s: &mut Src, name: &str, b: &[u8], accept: bool) -> Res {
    let x = catching(|| T::dec(b));
    if let Ok(Ok(_)) = x {
        s.label("decoded");
    }
    judge(name, "bytes", b, accept, x)?;
    // The compact binary format
    let mut v = le64(b.len() as u64);
    v.extend(b);
    judge(name, "bincode", b, accept, catching(|| bincode::deserialize::<T>(&v).map_err(|e| e.to_string())))?;
    if s.chance(1, 4) {
        // Another length than there are bytes
        let n = match s.draw(4) {
            0 => u64::max_value(),
            1 => 1 << s.below(64),
            2 => b.len() as u64 + 1,
            3 => s.below(b.len() + 2) as u64,
            _ => s.draw(300),
        };
        let mut w = le64(n);
        w.extend(b);
        match catching(|| bincode::deserialize::<T>(&w).map_err(|e| e.to_string())) {
            Err(m) => return fail("panic", format!("{}: panicked decoding bincode {}: {}", name, gen::hex(&w), m)),
            Ok(Err(_)) => {}
            Ok(Ok(x)) => {
                let e = x.enc();
                let same = e.len() as u64 == n && b.starts_with(&e);
                ensure!(same, "malleable", "{}: decoded from bincode {}, but encoded as {}", name, gen::hex(&w), gen::hex(&e));
            }
        }
        let cut = s.below(v.len());
        let short = catching(|| bincode::deserialize::<T>(&v[..cut]).is_ok());
        ensure!(short == Ok(false), "accepted", "{}: truncated bincode gives {:?}", name, short);
    }
    // JSON
    let j = format!("{:?}", b);
    judge(name, "JSON", b, accept, catching(|| serde_json::from_str::<T>(&j).map_err(|e| e.to_string())))?;
    if s.chance(1, 3) {
        let j = odd_json(s, b);
        match catching(|| serde_json::from_str::<T>(&j).map_err(|e| e.to_string())) {
            Err(m) => return fail("panic", format!("{}: panicked decoding JSON {}: {}", name, j, m)),
            Ok(Err(_)) => {}
            Ok(Ok(x)) => {
                // Only a list of bytes, or a string which consists of them, is ever meant.
                let e = x.enc();
                let list = serde_json::from_str::<Vec<u8>>(&j).ok();
                let text = serde_json::from_str::<String>(&j).ok().map(|t| t.into_bytes());
                ensure!(
                    list.as_ref() == Some(&e) || text.as_ref() == Some(&e),
                    "malleable",
                    "{}: decoded from JSON {}, but encoded as {}",
                    name,
                    j,
                    gen::hex(&e)
                );
            }
        }
    }
    Ok(())
}

fn structured(s: &mut Src) -> Res {
    let k = s.pick(KINDS);
    let (b, what) = k.input(s);
    let accept = k.accepts(&b);
    s.label(k.name);
    s.label(if accept { "canonical" } else { "not canonical" });
    s.label(what);
    s.interesting();
    s.note(format!("{}: {} ({})", k.name, gen::hex(&b), what));
    (k.decode)(s, k.name, &b, accept)
}

/// Encodings of one type given to all others, and any bytes to all.
fn unstructured(s: &mut Src) -> Res {
    let b = match s.draw(3) {
        0 => {
            let n = s.range(0, 500);
            (0..n).map(|_| s.byte()).collect()
        }
        1 => {
            // Blocks, as many as there happen to be
            let n = gen::count(s, 0, 12);
            let mut v = Vec::new();
            for _ in 0..n {
                let p = if s.chance(1, 2) { Part::P } else { Part::S };
                v.extend(if s.chance(1, 8) { odd(s, &p) } else { good(s, &p) });
            }
            v
        }
        2 => {
            let n = s.range(0, 500);
            vec![s.byte(); n]
        }
        _ => s.pick(KINDS).input(s).0,
    };
    let mut any = false;
    for k in KINDS {
        let accept = k.accepts(&b);
        any |= accept;
        (k.decode)(s, k.name, &b, accept)?;
    }
    if any {
        s.label("canonical for some type");
    }
    s.interesting();
    s.note(gen::hex(&b));
    Ok(())
}

/// Messages made by the library, altered.
fn altered(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let (name, b) = match s.draw(6) {
        0 => ("CredentialIssuance", issue(s, &w, &d)?.to_bytes()),
        1 => ("SignalUser", user(s, &w, &d)?.to_bytes()),
        2 => ("SignalIssuer", w.issuer.to_bytes()),
        3 => ("RosterEntryCommitment", entry(s, &w, &d)?.to_bytes()),
        4 => ("SignalUser", fresh_user(&w, &d)?.to_bytes()),
        _ => {
            let u = user(s, &w, &d)?;
            let e = entry(s, &w, &d)?;
            let p = show(s, &u, &e)?;
            if s.chance(1, 4) {
                ("CredentialPresentation", p.presentation.to_bytes())
            } else if s.chance(1, 4) {
                ("VerifiedSignalCredential", p.to_bytes())
            } else {
                ("SignalCredentialPresentation", p.to_bytes())
            }
        }
    };
    let k = match KINDS.iter().find(|k| k.name == name) {
        Some(k) => k,
        None => internal("kind"),
    };
    for _ in 0..8 {
        let (v, how) = gen::alter_bytes(s, &b);
        let accept = k.accepts(&v);
        s.label(how);
        (k.decode)(s, name, &v, accept)?;
    }
    // Every block replaced by its non-canonical counterpart, if there is one.
    for i in 0..b.len() / 32 {
        let mut v = b.clone();
        let mut t = [0u8; 32];
        t.copy_from_slice(&v[32 * i..32 * i + 32]);
        gen::add_order(&mut t);
        v[32 * i..32 * i + 32].copy_from_slice(&t);
        let accept = k.accepts(&v);
        (k.decode)(s, name, &v, accept)?;
    }
    s.label(name);
    s.interesting();
    s.note(format!("{} on {}", name, gen::dstr(&d)));
    Ok(())
}

/// The proofs on their own, in the compact binary format.
fn proofs(s: &mut Src) -> Res {
    fn go<T: Serialize + DeserializeOwned>(s: &mut Src, name: &str, n: usize) -> Res {
        let parts: Vec<Part> = vec![Part::R; n];
        let k = if s.chance(1, 2) { s.below(n) } else { n };
        let mut v = Vec::new();
        for (i, p) in parts.iter().enumerate() {
            v.extend(if i == k { odd(s, p) } else { good(s, p) });
        }
        if s.chance(1, 3) {
            v = gen::alter_bytes(s, &v).0;
        }
        let len = 40 * n;
        match catching(|| bincode::deserialize::<T>(&v)) {
            Err(m) => fail("panic", format!("{}: panicked decoding {}: {}", name, gen::hex(&v), m)),
            Ok(Err(_)) => Ok(()),
            Ok(Ok(x)) => {
                let e = bincode::serialize(&x).unwrap_or_default();
                s.label("decoded");
                // What follows the value is for the caller to look at.
                ensure!(v.starts_with(&e), "malleable", "{}: decoded from {}, but encoded as {}", name, gen::hex(&v), gen::hex(&e));
                ensure!(
                    v.len() >= len && matches(&parts, &v[..len]),
                    "accepted",
                    "{}: decoded from {}, which is no canonical encoding",
                    name,
                    gen::hex(&v)
                );
                Ok(())
            }
        }
    }
    s.interesting();
    let k = s.below(5);
    s.note(format!("proof {}", k));
    match k {
        0 => go::<issuance_revealed::Proof>(s, "issuance_revealed", 5),
        1 => go::<attributes_blinded::Proof>(s, "attributes_blinded", 5),
        2 => go::<issuance_blinded::Proof>(s, "issuance_blinded", 7),
        3 => go::<valid_credential::Proof>(s, "valid_credential", 4),
        _ => go::<committed_values_equal::Proof>(s, "committed_values_equal", 4),
    }
}

pub static C12: &[Check] = &[
    Check {
        name: "structured",
        quick: 400_000,
        thorough: 5_000_000,
        rule: "every case: input of a type's structure, well-formed or not, decoded from bytes, bincode and JSON",
        run: structured,
    },
    Check {
        name: "unstructured",
        quick: 20_000,
        thorough: 700_000,
        rule: "every case: any bytes or those of another type decoded as each of the types",
        run: unstructured,
    },
    Check {
        name: "altered",
        quick: 6000,
        thorough: 200_000,
        rule: "every case: a message made by the library, altered in several ways",
        run: altered,
    },
    Check {
        name: "proofs",
        quick: 60_000,
        thorough: 2_000_000,
        rule: "every case: something like a proof decoded from the compact binary format",
        run: proofs,
    },
];
