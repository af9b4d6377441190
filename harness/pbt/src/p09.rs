//! C09: the five zero-knowledge proofs, against the reference implementation.

use aeonflux::proofs;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;

use crate::common::*;
use crate::engine::{Check, Res, Src};
use crate::gen;
use crate::refimpl as r;

pub struct System {
    pub spec: &'static r::Spec,
    /// The bincode form of a proof made by the library.
    pub create: fn(&mut Transcript, &[RistrettoPoint], &[Scalar]) -> Vec<u8>,
    /// None: not decoded
    pub verify: fn(&mut Transcript, &[RistrettoPoint], &[u8]) -> Option<bool>,
}

macro_rules! system {
    ($m:ident, $spec:expr, ($($p:ident = $i:expr),*), ($($s:ident = $j:expr),*)) => {
        System {
            spec: &$spec,
            create: {
                fn create(t: &mut Transcript, p: &[RistrettoPoint], x: &[Scalar]) -> Vec<u8> {
                    let proof = proofs::$m::Proof::create(
                        t,
                        proofs::$m::Publics { $($p: &p[$i]),* },
                        proofs::$m::Secrets { $($s: &x[$j]),* },
                    );
                    bincode::serialize(&proof).unwrap()
                }
                create
            },
            verify: {
                fn verify(t: &mut Transcript, p: &[RistrettoPoint], b: &[u8]) -> Option<bool> {
                    let proof: proofs::$m::Proof = bincode::deserialize(b).ok()?;
                    Some(proof.verify(t, proofs::$m::Publics { $($p: &p[$i]),* }).is_ok())
                }
                verify
            },
        }
    };
}

pub static SYSTEMS: [System; 5] = [
    system!(issuance_revealed, r::ISSUANCE_REVEALED, (P = 0, Q = 1, Cx0 = 2, B = 3, A = 4, X1 = 5), (x0 = 0, x1 = 1, x0_tilde = 2, m1x1 = 3)),
    system!(attributes_blinded, r::ATTRIBUTES_BLINDED, (B = 0, A = 1, D = 2, encrypted_attribute_0_0 = 3, encrypted_attribute_0_1 = 4), (d = 0, e0 = 1, m0 = 2, nonce = 3)),
    system!(
        issuance_blinded,
        r::ISSUANCE_BLINDED,
        (B = 0, A = 1, X0 = 2, X1 = 3, D = 4, P = 5, T0_0 = 6, T0_1 = 7, EQ_commitment = 8, EQ_encryption = 9, encrypted_attribute_0_0 = 10, encrypted_attribute_0_1 = 11),
        (x0_tilde = 0, x0 = 1, x1 = 2, s = 3, b = 4, t0 = 5)
    ),
    system!(valid_credential, r::VALID_CREDENTIAL, (B = 0, A = 1, X0 = 2, P = 3, V = 4, Cm0 = 5), (m0 = 0, z0 = 1, minus_zQ = 2)),
    system!(committed_values_equal, r::COMMITTED_VALUES_EQUAL, (B = 0, A = 1, P = 2, Cm0 = 3, Cm1 = 4), (m0 = 0, z0 = 1, z1 = 2)),
];

/// Secrets and publics for which all relations are true.
pub fn statement(s: &mut Src, spec: &r::Spec) -> (Vec<RistrettoPoint>, Vec<Scalar>) {
    // Mostly as in the protocol, where B and A are independent generators.
    let special = s.chance(1, 3);
    let mut p: Vec<RistrettoPoint> =
        spec.publics.iter().map(|_| if special { gen::point(s) } else { gen::random_point(s) }).collect();
    if !special || s.chance(1, 2) {
        p[spec.public("B")] = gen::B;
    }
    if special && s.chance(1, 3) {
        // Coinciding publics
        let i = s.below(p.len());
        let j = s.below(p.len());
        p[i] = p[j];
        s.label("coinciding publics");
    }
    let extreme = s.chance(1, 3);
    let mut x: Vec<Scalar> =
        spec.secrets.iter().map(|_| if extreme { gen::scalar(s) } else { gen::random_scalar(s) }).collect();
    if s.chance(1, 8) {
        // Coinciding secrets
        let i = s.below(x.len());
        let j = s.below(x.len());
        x[i] = x[j];
        s.label("coinciding secrets");
    }
    for (lhs, terms) in spec.stmts.iter() {
        let mut sum = RistrettoPoint::identity();
        for (n, b) in terms.iter() {
            sum += p[spec.public(b)] * x[spec.secret(n)];
        }
        p[spec.public(lhs)] = sum;
    }
    if !spec.holds(&p, &x) {
        internal("a statement isn't true");
    }
    (p, x)
}

/// A context: the name of the transcript, and what was committed to it before.
#[derive(Clone, PartialEq, Debug)]
pub struct Context {
    name: &'static [u8],
    before: Vec<(&'static [u8], Vec<u8>)>,
}

static NAMES: [&str; 6] = ["AEONFLUX ISSUANCE", "AEONFLUX SHOW", "SIGNAL GROUP MEMBERSHIP", "", "AEONFLUX SHOW ", "x"];

impl Context {
    fn any(s: &mut Src) -> Context {
        let name = NAMES[s.below(NAMES.len())].as_bytes();
        let n = if s.chance(1, 3) { s.range(1, 2) } else { 0 };
        let before = (0..n)
            .map(|_| (if s.chance(1, 2) { "a".as_bytes() } else { "chal".as_bytes() }, gen::seed32(s)[..s.below(33)].to_vec()))
            .collect();
        Context { name, before }
    }
    fn other(&self, s: &mut Src) -> (Context, &'static str) {
        let mut c = self.clone();
        let what = match s.draw(3) {
            0 => {
                c.before.push((b"a", vec![s.byte()]));
                "a further message"
            }
            1 if !c.before.is_empty() => {
                c.before.pop();
                "a message less"
            }
            2 if !c.before.is_empty() => {
                c.before[0].1.push(0);
                "another message"
            }
            _ => {
                while c.name == self.name {
                    c.name = NAMES[s.below(NAMES.len())].as_bytes();
                    if c.name == self.name {
                        c.name = if c.name == b"y" { b"z" } else { b"y" };
                    }
                }
                "another name"
            }
        };
        (c, what)
    }
    fn transcript(&self) -> Transcript {
        let mut t = Transcript::new(self.name);
        for (l, m) in &self.before {
            t.commit_bytes(l, m);
        }
        t
    }
}

/// The library's verdict must be the reference's.
fn compare(y: &System, c: &Context, p: &[RistrettoPoint], proof: &r::RProof, what: &str) -> Result<bool, crate::engine::Fail> {
    let want = y.spec.verify(&mut c.transcript(), p, proof);
    let got = match (y.verify)(&mut c.transcript(), p, &proof.to_bytes()) {
        Some(b) => b,
        None => return crate::engine::fail(crate::engine::GIVEN_UP, "a proof isn't decoded".to_string()),
    };
    ensure!(
        got == want,
        if want { "proof-rejected" } else { "proof-accepted" },
        "{}: {}: the proof is {}",
        y.spec.name,
        what,
        if want { "rejected" } else { "accepted" }
    );
    Ok(got)
}

fn nonces(s: &mut Src, n: usize) -> Vec<Scalar> {
    (0..n).map(|_| gen::random_scalar(s)).collect()
}

/// A proof of a true statement, made by the library or by the reference.
fn make(s: &mut Src, y: &System, c: &Context, p: &[RistrettoPoint], x: &[Scalar]) -> Result<r::RProof, crate::engine::Fail> {
    if s.chance(2, 3) {
        let b = (y.create)(&mut c.transcript(), p, x);
        match r::RProof::from_bytes(y.spec, &b) {
            Some(x) => Ok(x),
            None => crate::engine::fail(crate::engine::GIVEN_UP, format!("a proof isn't encoded as documented: {}", gen::hex(&b))),
        }
    } else {
        let ks = nonces(s, x.len());
        Ok(y.spec.prove(&mut c.transcript(), p, x, &ks, &r::Departure::default()))
    }
}

/// True statements, and everything near to them.
fn sound(s: &mut Src) -> Res {
    let y = &SYSTEMS[s.below(5)];
    let spec = y.spec;
    let (p, x) = statement(s, spec);
    let c = Context::any(s);
    s.label(spec.name);
    // Completeness.
    let b = (y.create)(&mut c.transcript(), &p, &x);
    let ok = (y.verify)(&mut c.transcript(), &p, &b);
    ensure!(ok == Some(true), "complete", "{}: a proof of a true statement is rejected", spec.name);
    let proof = match r::RProof::from_bytes(spec, &b) {
        Some(x) => x,
        None => return crate::engine::fail(crate::engine::GIVEN_UP, "a proof isn't encoded as documented".to_string()),
    };
    ensure!(spec.verify(&mut c.transcript(), &p, &proof), "complete", "{}: a proof isn't one of the published statement", spec.name);
    let ks = nonces(s, x.len());
    let theirs = spec.prove(&mut c.transcript(), &p, &x, &ks, &r::Departure::default());
    ensure!(compare(y, &c, &p, &theirs, "the reference's proof")?, "reference", "{}: not even by the reference", spec.name);
    let proof = if s.chance(1, 2) { proof } else { theirs };

    // Every public value altered in turn.
    let params = r::Params { g: gen::B, h: p[spec.public("A")] };
    for i in 0..p.len() {
        let mut q = p.clone();
        q[i] = other_point(s, &params, &p[i]);
        let ok = compare(y, &c, &q, &proof, &format!("public {} altered", spec.publics[i]))?;
        ensure!(!ok, "public", "{}: {} may be altered", spec.name, spec.publics[i]);
    }
    // Two publics exchanged.
    let (i, j) = (s.below(p.len()), s.below(p.len()));
    let mut q = p.clone();
    q.swap(i, j);
    let ok = compare(y, &c, &q, &proof, "publics exchanged")?;
    ensure!(ok == (p == q), "public", "{}: {} and {} may be exchanged", spec.name, spec.publics[i], spec.publics[j]);
    // Every response altered in turn.
    for i in 0..x.len() {
        let mut w = proof.clone();
        w.responses[i] = other_scalar(s, &w.responses[i]);
        let ok = compare(y, &c, &p, &w, &format!("response {} altered", spec.secrets[i]))?;
        // A response counts if its secret occurs with a base other than the identity.
        let bound = spec.stmts.iter().any(|(_, t)| {
            let mut b = RistrettoPoint::identity();
            for (n, base) in t.iter() {
                if *n == spec.secrets[i] {
                    b += p[spec.public(base)];
                }
            }
            b != RistrettoPoint::identity()
        });
        ensure!(ok != bound, "response", "{}: altering response {}: accepted is {}", spec.name, spec.secrets[i], ok);
    }
    let mut w = proof.clone();
    let (i, j) = (s.below(x.len()), s.below(x.len()));
    w.responses.swap(i, j);
    compare(y, &c, &p, &w, "responses exchanged")?;
    // The challenge.
    let mut w = proof.clone();
    w.challenge = other_scalar(s, &w.challenge);
    let ok = compare(y, &c, &p, &w, "challenge altered")?;
    ensure!(!ok, "challenge", "{}: the challenge may be altered", spec.name);
    let mut w = proof.clone();
    w.challenge = -w.challenge;
    for x in w.responses.iter_mut() {
        *x = -*x;
    }
    compare(y, &c, &p, &w, "all negated")?;
    // Other contexts.
    for _ in 0..2 {
        let (d, what) = c.other(s);
        let ok = compare(y, &d, &p, &proof, what)?;
        ensure!(!ok, "context", "{}: accepted in another context: {}", spec.name, what);
    }
    s.interesting();
    s.note(format!("{} in context {:?}, {} messages before", spec.name, String::from_utf8_lossy(c.name), c.before.len()));
    Ok(())
}

/// False statements with the secrets that a prover wishes it had.
fn false_statements(s: &mut Src) -> Res {
    let y = &SYSTEMS[s.below(5)];
    let spec = y.spec;
    let (mut p, mut x) = statement(s, spec);
    let c = Context::any(s);
    let params = r::Params { g: gen::B, h: p[spec.public("A")] };
    // Make some relations false: the left hand side, a secret or a base is another.
    let what = match s.draw(3) {
        0 => {
            let i = s.below(spec.stmts.len());
            let k = spec.public(spec.stmts[i].0);
            p[k] = other_point(s, &params, &p[k]);
            format!("{} is another", spec.publics[k])
        }
        1 => {
            let k = s.below(p.len());
            p[k] = other_point(s, &params, &p[k]);
            format!("{} is another", spec.publics[k])
        }
        2 => {
            let k = s.below(x.len());
            x[k] = other_scalar(s, &x[k]);
            format!("{} is another", spec.secrets[k])
        }
        _ => {
            // Two errors, which would cancel out if relations were checked in sum.
            let i = s.below(spec.stmts.len());
            let j = s.below(spec.stmts.len());
            let e = gen::random_point(s);
            let (a, b) = (spec.public(spec.stmts[i].0), spec.public(spec.stmts[j].0));
            p[a] += e;
            p[b] -= e;
            format!("{} and {} are shifted", spec.publics[a], spec.publics[b])
        }
    };
    let wrong = spec.wrong(&p, &x);
    s.label(&format!("{} relations false", wrong));
    // The prover commits to the false statement, or it proves a true one and presents it with the false one.
    let proof = make(s, y, &c, &p, &x)?;
    let ok = compare(y, &c, &p, &proof, &what)?;
    ensure!(ok == (wrong == 0), "statement", "{}: {}: {} relations are false, accepted is {}", spec.name, what, wrong, ok);
    // A prover who leaves a relation out: all the others are proven properly.
    if wrong > 0 {
        s.interesting();
        s.note(format!("{}: {}", spec.name, what));
        let ks = nonces(s, x.len());
        let n = spec.publics.len();
        for i in 0..spec.stmts.len() {
            // Commitments which fit if relation i isn't committed to.
            let mut d = r::Departure::default();
            d.skip = Some(1 + n + i);
            let w = spec.prove(&mut c.transcript(), &p, &x, &ks, &d);
            let ok = compare(y, &c, &p, &w, "a relation left out")?;
            ensure!(!ok, "left-out", "{}: {}: accepted without {}", spec.name, what, spec.stmts[i].0);
        }
    }
    Ok(())
}

/// A prover who departs from the transcript is rejected, or it could choose
/// what it leaves out after the challenge.
fn departures(s: &mut Src) -> Res {
    let y = &SYSTEMS[s.below(5)];
    let (p, x) = statement(s, y.spec);
    let c = Context::any(s);
    let (d, what) = departure(s, y.spec);
    let ks = nonces(s, x.len());
    let proof = y.spec.prove(&mut c.transcript(), &p, &x, &ks, &d);
    // The library rejects it unless it's no departure after all, which the reference can tell.
    compare(y, &c, &p, &proof, &what)?;
    s.label(y.spec.name);
    s.interesting();
    s.note(what);
    Ok(())
}

/// Proofs from arbitrary scalars, simulated ones, and ones of other statements or systems.
fn arbitrary(s: &mut Src) -> Res {
    let y = &SYSTEMS[s.below(5)];
    let spec = y.spec;
    let c = Context::any(s);
    let (p, x) = statement(s, spec);
    let what = s.draw(4);
    let (q, proof, what) = match what {
        0 => {
            // Degenerate publics with arbitrary responses.
            let q: Vec<RistrettoPoint> = p.iter().map(|_| if s.chance(1, 2) { RistrettoPoint::identity() } else { gen::point(s) }).collect();
            let w = proof(s, x.len());
            (q, w, "arbitrary responses")
        }
        1 => {
            // The proof of another statement, with all, or only some publics, of it.
            let (p2, x2) = statement(s, spec);
            let w = make(s, y, &c, &p2, &x2)?;
            let q: Vec<RistrettoPoint> = (0..p.len()).map(|i| if s.chance(1, 2) { p[i] } else { p2[i] }).collect();
            (q, w, "a proof of another statement")
        }
        2 => {
            // Another system's proof.
            let z = &SYSTEMS[s.below(5)];
            let (p2, x2) = statement(s, z.spec);
            let mut w = make(s, z, &c, &p2, &x2)?;
            w.responses.resize(x.len(), Scalar::zero());
            (p.clone(), w, "a proof of another system")
        }
        3 => {
            // Challenge zero: then the statement doesn't matter to the equations.
            let ks = nonces(s, x.len());
            let q: Vec<RistrettoPoint> = p.iter().map(|_| gen::random_point(s)).collect();
            (q, r::RProof { challenge: Scalar::zero(), responses: ks }, "challenge zero")
        }
        _ => {
            // Simulated: chosen challenge and responses, so that commitments fit by construction.
            let w = proof(s, x.len());
            (p.clone(), w, "simulated")
        }
    };
    compare(y, &c, &q, &proof, what)?;
    s.label(what);
    s.interesting();
    s.note(format!("{}: {}", spec.name, what));
    Ok(())
}

/// Several proofs, one after another, over one transcript.
fn composed(s: &mut Src) -> Res {
    let n = s.range(2, 3);
    let c = Context::any(s);
    let which: Vec<usize> = (0..n).map(|_| s.below(5)).collect();
    let mut t = c.transcript();
    let mut all = Vec::new();
    for &i in &which {
        let y = &SYSTEMS[i];
        let (p, x) = statement(s, y.spec);
        let b = if s.chance(2, 3) {
            (y.create)(&mut t, &p, &x)
        } else {
            let ks = nonces(s, x.len());
            y.spec.prove(&mut t, &p, &x, &ks, &r::Departure::default()).to_bytes()
        };
        all.push((i, p, b));
    }
    let mut t = c.transcript();
    let mut u = c.transcript();
    for (k, (i, p, b)) in all.iter().enumerate() {
        let y = &SYSTEMS[*i];
        let ok = (y.verify)(&mut t, p, b);
        ensure!(ok == Some(true), "composed", "proof {} of {} in one transcript ({}) is rejected", k, n, y.spec.name);
        // The reference goes on with the same state.
        let w = match r::RProof::from_bytes(y.spec, b) {
            Some(w) => w,
            None => return crate::engine::fail(crate::engine::GIVEN_UP, "encoding".to_string()),
        };
        ensure!(y.spec.verify(&mut u, p, &w), "composed", "the reference rejects proof {} of {}", k, n);
    }
    let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
    t.challenge_bytes(b"after", &mut a);
    u.challenge_bytes(b"after", &mut b);
    ensure!(a == b, "composed", "verifying {} proofs leaves the transcript in another state", n);
    // The last one doesn't verify on its own, nor first.
    let (i, p, b) = &all[n - 1];
    let ok = (SYSTEMS[*i].verify)(&mut c.transcript(), p, b);
    ensure!(ok == Some(false), "context", "a proof made after {} others is accepted on its own", n - 1);
    s.interesting();
    s.note(format!("{:?}", which.iter().map(|i| SYSTEMS[*i].spec.name).collect::<Vec<_>>()));
    Ok(())
}

pub static C09: &[Check] = &[
    Check { name: "sound", quick: 5000, thorough: 120_000, rule: "every case: a true statement proven by library and reference, then every public, response, the challenge and the context altered", run: sound },
    Check { name: "false-statements", quick: 12000, thorough: 300_000, rule: "a relation is false for the prover's secrets", run: false_statements },
    Check { name: "departures", quick: 12000, thorough: 200_000, rule: "every case: a proof over a transcript which skips, repeats, exchanges or relabels an item", run: departures },
    Check { name: "arbitrary", quick: 12000, thorough: 200_000, rule: "every case: a proof from other statements, systems, or arbitrary scalars", run: arbitrary },
    Check { name: "composed", quick: 5000, thorough: 80_000, rule: "every case: two or three proofs over one transcript", run: composed },
];
