//! Setting up issuers, users and presentations for the checks of C02 to C04, C10 and C15.

use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;

use crate::engine::{GIVEN_UP, fail, Fail, Src};
use crate::gen;
use crate::refimpl as r;

pub struct Setup {
    pub sys: gen::Sys,
    pub p: r::Params,
    pub k: r::Key,
    pub x1: RistrettoPoint,
    pub issuer: SignalIssuer,
}

pub fn setup_with(sys: gen::Sys, k: r::Key) -> Setup {
    let issuer = SignalIssuer::new(sys.sp, gen::keypair(&sys.sp, &k));
    Setup { sys, p: gen::ref_params(&sys.sp), x1: sys.sp.h * k.x1, k, issuer }
}

/// An issuer with an extreme, a random or a generated key.
pub fn setup(s: &mut Src) -> Setup {
    let sys = gen::sys(s);
    match s.draw(2) {
        0 => {
            let k = gen::random_key(s);
            setup_with(sys, k)
        }
        1 => {
            let mut k = gen::key(s);
            if k.x0 == Scalar::zero() && k.x1 == Scalar::zero() {
                k.x0 = Scalar::one();
            }
            setup_with(sys, k)
        }
        _ => {
            let issuer = SignalIssuer::create(sys.sp, &mut gen::rng(s));
            let k = gen::issuer_key(&issuer);
            Setup { sys, p: gen::ref_params(&sys.sp), x1: issuer.issuer.keypair.public.Xn[0], k, issuer }
        }
    }
}

/// A breach of what a check takes for granted is not a finding about its property.
pub fn broken<E: std::fmt::Debug>(what: &'static str) -> impl Fn(E) -> Fail {
    move |e| Fail { sig: GIVEN_UP.to_string(), msg: format!("honest {} failed: {:?}", what, e) }
}

pub fn issue(s: &mut Src, w: &Setup, d: &[u8]) -> Result<SignalCredentialIssuance, Fail> {
    w.issuer.issue(d, &mut gen::rng(s)).map_err(broken("issue"))
}

pub fn fresh_user(w: &Setup, d: &[u8]) -> Result<SignalUser, Fail> {
    SignalUser::new(w.sys.sp, w.issuer.get_issuer_parameters(), None, d).map_err(broken("user"))
}

pub fn user(s: &mut Src, w: &Setup, d: &[u8]) -> Result<SignalUser, Fail> {
    let mut u = fresh_user(w, d)?;
    let i = issue(s, w, d)?;
    u.obtain_finish(Some(&i)).map_err(broken("obtain"))?;
    Ok(u)
}

pub fn entry(s: &mut Src, w: &Setup, d: &[u8]) -> Result<RosterEntryCommitment, Fail> {
    RosterEntryCommitment::create(d, &w.sys.sp, &mut gen::rng(s)).map_err(broken("roster entry"))
}

pub fn show(s: &mut Src, u: &SignalUser, e: &RosterEntryCommitment) -> Result<SignalCredentialPresentation, Fail> {
    u.show(&mut gen::rng(s), e).map_err(broken("show"))
}

/// An honest presentation as the reference implementation sees it.
pub fn honest(s: &mut Src, w: &Setup, d: &[u8]) -> Result<r::Presentation, Fail> {
    let u = user(s, w, d)?;
    let e = entry(s, w, d)?;
    let p = show(s, &u, &e)?;
    parse(&p)
}

pub fn parse(p: &SignalCredentialPresentation) -> Result<r::Presentation, Fail> {
    crate::engine::trace(&p.to_bytes());
    match r::Presentation::from_bytes(&p.to_bytes()) {
        Some(x) => Ok(x),
        None => fail(GIVEN_UP, format!("a presentation isn't encoded as documented: {}", gen::hex(&p.to_bytes()))),
    }
}

pub fn parse_issuance(p: &SignalCredentialIssuance) -> Result<r::Issuance, Fail> {
    crate::engine::trace(&p.to_bytes());
    match r::Issuance::from_bytes(&p.to_bytes()) {
        Some(x) => Ok(x),
        None => fail(GIVEN_UP, format!("an issuance isn't encoded as documented: {}", gen::hex(&p.to_bytes()))),
    }
}

pub fn proof(s: &mut Src, n: usize) -> r::RProof {
    r::RProof { challenge: gen::scalar(s), responses: (0..n).map(|_| gen::scalar(s)).collect() }
}

/// A scalar other than the given one.
pub fn other_scalar(s: &mut Src, x: &Scalar) -> Scalar {
    let y = match s.draw(6) {
        0 => x + Scalar::one(),
        1 => x - Scalar::one(),
        2 => -x,
        3 => Scalar::zero(),
        4 => x * Scalar::from(2u64),
        _ => gen::scalar(s),
    };
    if y == *x { x + Scalar::one() } else { y }
}

/// A point other than the given one.
pub fn other_point(s: &mut Src, w: &r::Params, x: &RistrettoPoint) -> RistrettoPoint {
    let y = match s.draw(9) {
        0 => -x,
        8 | 9 => gen::near_point(s, x),
        1 => x + w.g,
        2 => x + w.h,
        3 => RistrettoPoint::identity(),
        4 => x * Scalar::from(2u64),
        5 => w.h,
        _ => gen::point(s),
    };
    if y == *x { x + w.g } else { y }
}

pub fn show_random(s: &mut Src) -> r::ShowRandom {
    r::ShowRandom {
        r: gen::nonzero_scalar(s),
        z0: gen::scalar(s),
        zq: gen::scalar(s),
        ks: (0..6).map(|_| gen::random_scalar(s)).collect(),
    }
}

/// A departure from the transcript of `spec` which changes it, with a description.
pub fn departure(s: &mut Src, spec: &r::Spec) -> (r::Departure, String) {
    let n = spec.items();
    let mut d = r::Departure::default();
    let i = s.below(n);
    let what = match s.draw(5) {
        0 => {
            d.twice = Some(i);
            "commits twice to"
        }
        1 => {
            d.swap = Some(i);
            "swaps with its successor"
        }
        2 => {
            d.relabel = Some(i);
            "labels otherwise"
        }
        3 => {
            d.chal = true;
            "labels the challenge otherwise, not"
        }
        _ => {
            d.skip = Some(i);
            "does not commit to"
        }
    };
    let item = if i == 0 {
        "the name".to_string()
    } else if i <= spec.publics.len() {
        spec.publics[i - 1].to_string()
    } else {
        format!("com {}", spec.stmts[i - 1 - spec.publics.len()].0)
    };
    (d, format!("{} {} {}", spec.name, what, item))
}

/// End the process: the harness contradicts itself.
pub fn internal(what: &str) -> ! {
    eprintln!("internal error of the harness: {}", what);
    unsafe { libc::_exit(2) }
}
