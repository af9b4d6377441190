//! C17: the JavaScript interface does what the libraries do.

use aeonflux::amacs;
use aeonflux::issuer::IssuerParameters;
use aeonflux::parameters::SystemParameters;
use jsapi::js;
use rand::{ChaChaRng, SeedableRng};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;
use std::collections::HashMap;
use wasm_bindgen::JsValue;

use crate::common::*;
use crate::engine::{catching, fail, Check, Res, Src};
use crate::gen;
use crate::refimpl as r;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Params,
    Keypair,
    Issuer,
    IssuerParams,
    Issuance,
    User,
    Entry,
    Presentation,
    Verified,
    Commitment,
    // slices
    Phone,
    Seed,
}
use self::Kind::*;

struct Function {
    name: &'static str,
    args: &'static [Kind],
    result: Kind,
}

static FUNCTIONS: [Function; 9] = [
    Function { name: "system_parameters_create", args: &[Seed], result: Params },
    Function { name: "issuer_create", args: &[Params, Seed], result: Keypair },
    Function { name: "issuer_get_issuer_parameters", args: &[Issuer], result: IssuerParams },
    Function { name: "issuer_new", args: &[Params, Keypair], result: Issuer },
    Function { name: "issuer_issue", args: &[Issuer, Phone, Seed], result: Issuance },
    Function { name: "issuer_verify", args: &[Issuer, Presentation], result: Verified },
    Function { name: "issuer_verify_roster_membership", args: &[Issuer, Verified], result: Commitment },
    Function { name: "user_obtain_finish", args: &[Phone, Params, IssuerParams, Issuance], result: User },
    Function { name: "user_show", args: &[User, Entry, Seed], result: Presentation },
];

#[derive(Clone, Debug)]
enum Arg {
    /// The JSON form of a value; `None` is undefined.
    Js(Option<String>),
    Slice(Vec<u8>),
}

impl Arg {
    fn js(&self) -> JsValue {
        match self {
            Arg::Js(Some(t)) => JsValue::from_json(t),
            Arg::Js(None) => JsValue::undefined(),
            _ => internal("a slice where a value should be"),
        }
    }
    fn slice(&self) -> &[u8] {
        match self {
            Arg::Slice(b) => b,
            _ => internal("a value where a slice should be"),
        }
    }
    fn parse<T: DeserializeOwned>(&self) -> Option<T> {
        match self {
            Arg::Js(Some(t)) => serde_json::from_str(t).ok(),
            Arg::Js(None) => serde_json::from_str("null").ok(),
            _ => internal("a slice where a value should be"),
        }
    }
    fn show(&self) -> String {
        match self {
            Arg::Js(Some(t)) => t.clone(),
            Arg::Js(None) => "undefined".to_string(),
            Arg::Slice(b) => format!("0x{}", gen::hex(b)),
        }
    }
}

fn call(f: usize, a: &[Arg]) -> JsValue {
    match f {
        0 => js::system_parameters_create(a[0].slice()),
        1 => js::issuer_create(a[0].js(), a[1].slice()),
        2 => js::issuer_get_issuer_parameters(a[0].js()),
        3 => js::issuer_new(a[0].js(), a[1].js()),
        4 => js::issuer_issue(a[0].js(), a[1].slice(), a[2].slice()),
        5 => js::issuer_verify(a[0].js(), a[1].js()),
        6 => js::issuer_verify_roster_membership(a[0].js(), a[1].js()),
        7 => js::user_obtain_finish(a[0].slice(), a[1].js(), a[2].js(), a[3].js()),
        _ => js::user_show(a[0].js(), a[1].js(), a[2].slice()),
    }
}

fn json_of(b: &[u8]) -> String {
    format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn bytes_of(t: &str) -> Option<Vec<u8>> {
    match serde_json::from_str(t).ok()? {
        Value::Array(v) => {
            v.iter().map(|x| x.as_u64().and_then(|x| if x < 256 { Some(x as u8) } else { None })).collect()
        }
        _ => None,
    }
}

/// What the libraries return, as JSON.
fn native(f: usize, a: &[Arg]) -> Option<String> {
    fn rng(a: &Arg) -> Option<ChaChaRng> {
        let b = a.slice();
        if b.len() != 32 {
            return None;
        }
        let mut t = [0u8; 32];
        t.copy_from_slice(b);
        Some(ChaChaRng::from_seed(t))
    }
    fn j<T: Serialize>(x: &T) -> Option<String> {
        serde_json::to_string(x).ok()
    }
    match f {
        0 => j(&SystemParameters::hunt_and_peck(&mut rng(&a[0])?)),
        1 => j(&SignalIssuer::create(a[0].parse()?, &mut rng(&a[1])?).issuer.keypair),
        2 => j(&a[0].parse::<SignalIssuer>()?.get_issuer_parameters()),
        3 => j(&SignalIssuer::new(a[0].parse()?, a[1].parse::<amacs::Keypair>()?)),
        4 => j(&a[0].parse::<SignalIssuer>()?.issue(a[1].slice(), &mut rng(&a[2])?).ok()?),
        5 => j(&a[0].parse::<SignalIssuer>()?.verify(a[1].parse::<SignalCredentialPresentation>()?).ok()?),
        6 => j(&a[0].parse::<SignalIssuer>()?.verify_roster_membership(&a[1].parse::<VerifiedSignalCredential>()?).ok()?),
        7 => {
            let mut u = SignalUser::new(a[1].parse()?, a[2].parse::<IssuerParameters>()?, None, a[0].slice()).ok()?;
            u.obtain_finish(Some(&a[3].parse::<SignalCredentialIssuance>()?)).ok()?;
            j(&u)
        }
        _ => j(&a[0].parse::<SignalUser>()?.show(&mut rng(&a[2])?, &a[1].parse::<RosterEntryCommitment>()?).ok()?),
    }
}

/// It fails whatever the libraries say.
fn must_fail(f: usize, a: &[Arg]) -> bool {
    FUNCTIONS[f].args.iter().zip(a).any(|(k, a)| {
        let t = match a {
            Arg::Slice(b) => return if *k == Seed { b.len() != 32 } else { b.len() > 26 },
            Arg::Js(None) => return true,
            Arg::Js(Some(t)) => t,
        };
        let b = match serde_json::from_str::<Value>(t) {
            Ok(Value::Array(_)) => match bytes_of(t) {
                Some(b) => b,
                None => return true,
            },
            // Bytes may have another JSON form.
            Ok(Value::String(_)) => return false,
            _ => return true,
        };
        let n = b.len();
        match k {
            Params => n != 64 || r::point(&b[..32]).is_none() || r::point(&b[32..]).is_none(),
            Keypair => n % 64 != 32 || (n == 96 && (r::point(&b[..32]).is_none() || r::scalar(&b[32..64]).is_none() || r::scalar(&b[64..]).is_none())),
            Issuer => n % 64 != 32 || n < 96,
            IssuerParams => n % 32 != 0 || b.chunks(32).any(|b| r::point(b).is_none()),
            Issuance => r::Issuance::from_bytes(&b).is_none(),
            Entry => n != 64 || r::point(&b[..32]).is_none() || r::scalar(&b[32..]).is_none(),
            Presentation | Verified => r::Presentation::from_bytes(&b).is_none(),
            _ => false,
        }
    })
}

#[derive(Default)]
struct Pools {
    v: HashMap<u8, Vec<String>>,
    phones: Vec<Vec<u8>>,
}

impl Pools {
    fn len(&self, k: Kind) -> usize {
        self.v.get(&(k as u8)).map_or(0, |v| v.len())
    }
    fn add(&mut self, k: Kind, t: String) {
        self.v.entry(k as u8).or_insert_with(Vec::new).push(t);
    }
    fn pick(&self, s: &mut Src, k: Kind) -> Option<String> {
        let n = self.len(k);
        if n == 0 {
            return None;
        }
        // The first ones are those which fit together.
        let i = if s.chance(1, 4) { s.below(n) } else { 0 };
        Some(self.v[&(k as u8)][i].clone())
    }
    fn ready(&self, f: usize) -> bool {
        FUNCTIONS[f].args.iter().all(|k| *k == Seed || *k == Phone || self.len(*k) > 0)
    }
}

const VALUES: [Kind; 10] = [Params, Keypair, Issuer, IssuerParams, Issuance, User, Entry, Presentation, Verified, Commitment];

fn odd_value(s: &mut Src, pools: &Pools, k: Kind, base: Option<String>) -> Option<String> {
    let bytes = base.as_ref().and_then(|t| bytes_of(t)).unwrap_or_else(|| vec![1, 2, 3]);
    Some(match s.draw(12) {
        0 => return None,
        1 => s.pick(&["null", "0", "1", "true", "false", "{}", "[]", "\"\"", "-1", "1e99", "[[]]", "[null]", "\"0\"", "{\"0\":226}"]).to_string(),
        2 => {
            // One element is no byte.
            let mut v: Vec<String> = bytes.iter().map(|x| x.to_string()).collect();
            let i = s.below(v.len());
            let n = bytes[i];
            v[i] = match s.draw(8) {
                0 => (n as u32 + 256).to_string(),
                1 => (n as i32 - 256).to_string(),
                2 => format!("{}.5", n),
                3 => "null".to_string(),
                4 => format!("\"{}\"", n),
                5 => format!("[{}]", n),
                6 => "18446744073709551616".to_string(),
                7 => (n as u64 + (1 << 32)).to_string(),
                _ => "true".to_string(),
            };
            format!("[{}]", v.join(","))
        }
        3 => {
            // The same value, written in another way
            let v: Vec<String> = bytes.iter().map(|x| x.to_string()).collect();
            format!(" [ {} ]\n", v.join(" ,\t"))
        }
        4 => {
            let l = *s.pick(&VALUES);
            return Some(pools.pick(s, l).unwrap_or_else(|| "[]".to_string()));
        }
        5 => {
            let n = s.range(0, 500);
            let mut m = crate::engine::Mix(s.draw(u32::max_value() as u64));
            json_of(&(0..n).map(|_| m.next() as u8).collect::<Vec<_>>())
        }
        6 if k == Keypair || k == Issuer || k == IssuerParams => {
            // For another number of attributes
            let n = *s.pick(&[0usize, 2, 3, 4]);
            let mut v = if k == Issuer && bytes.len() >= 64 { bytes[..64].to_vec() } else { vec![] };
            for _ in 0..n {
                v.extend(&gen::random_point(s).compress().to_bytes());
            }
            if k != IssuerParams {
                for _ in 0..n + 1 {
                    v.extend(gen::scalar(s).as_bytes());
                }
            }
            s.label("another number of attributes");
            json_of(&v)
        }
        7 => {
            // As an object, a list of a list, or text
            match s.draw(3) {
                0 => format!("{{\"bytes\":{}}}", json_of(&bytes)),
                1 => format!("[{}]", json_of(&bytes)),
                2 => format!("\"{}\"", gen::hex(&bytes)),
                _ => serde_json::to_string(&bytes.iter().map(|b| *b as char).collect::<String>()).unwrap(),
            }
        }
        _ => {
            let (b, _) = gen::alter_bytes(s, &bytes);
            json_of(&b)
        }
    })
}

fn argument(s: &mut Src, pools: &Pools, k: Kind, odd: u64) -> (Arg, bool) {
    if k == Seed {
        if s.chance(1, odd * 2) {
            let n = *s.pick(&[0usize, 1, 16, 31, 33, 64, 256]);
            let b = s.byte();
            return (Arg::Slice(vec![b; n]), true);
        }
        return (Arg::Slice(gen::seed32(s).to_vec()), false);
    }
    if k == Phone {
        let i = if s.chance(1, 4) { s.below(pools.phones.len()) } else { 0 };
        let mut d = pools.phones[i].clone();
        if !s.chance(1, odd) {
            return (Arg::Slice(d), false);
        }
        match s.draw(3) {
            0 => {
                let n = *s.pick(&[26, 27, 28, 29, 31, 32, 33, 64, 255, 256, 257, 1000]);
                d.resize(n, 3);
            }
            1 => d = vec![],
            2 => {
                let b = s.byte();
                d.push(b);
            }
            _ => d = gen::digits(s),
        }
        return (Arg::Slice(d), true);
    }
    match pools.pick(s, k) {
        Some(t) => {
            if s.chance(1, odd) {
                (Arg::Js(odd_value(s, pools, k, Some(t))), true)
            } else {
                (Arg::Js(Some(t)), false)
            }
        }
        None => (Arg::Js(odd_value(s, pools, k, None)), true),
    }
}

fn next_call(s: &mut Src, pools: &Pools, odd: u64) -> (usize, Vec<Arg>, bool) {
    let missing = (0..9).filter(|f| pools.ready(*f) && pools.len(FUNCTIONS[*f].result) == 0).next();
    let mut f = s.below(9);
    let go_on = !s.chance(1, 3);
    match missing {
        Some(m) if go_on => f = m,
        _ => {
            for _ in 0..8 {
                if pools.ready(f) || s.chance(1, 16) {
                    break;
                }
                f = s.below(9);
            }
        }
    }
    let mut args = Vec::new();
    let mut any = false;
    for k in FUNCTIONS[f].args {
        let (a, o) = argument(s, pools, *k, odd);
        args.push(a);
        any |= o;
    }
    (f, args, any)
}

fn show_call(f: usize, a: &[Arg]) -> String {
    format!("{}({})", FUNCTIONS[f].name, a.iter().map(|a| a.show()).collect::<Vec<_>>().join(", "))
}

/// Is a message with proofs valid, for one of the issuers?
fn validity(f: usize, args: &[Arg], t: &str, pools: &Pools) -> Vec<bool> {
    let b = bytes_of(t).unwrap_or_default();
    if f == 4 {
        return match (args[0].parse::<SignalIssuer>(), r::Issuance::from_bytes(&b)) {
            (Some(ref w), Some(ref i)) if w.issuer.keypair.public.Xn.len() == 1 => {
                vec![r::issuance_ok(&gen::ref_params(&w.issuer.system_parameters), &w.issuer.keypair.public.Xn[0], i)]
            }
            _ => vec![],
        };
    }
    match (args[0].parse::<SignalUser>(), r::Presentation::from_bytes(&b)) {
        (Some(ref u), Some(ref p)) if u.user.issuer_parameters.Xn.len() == 1 => {
            let params = gen::ref_params(&u.user.system_parameters);
            let mut v = vec![r::membership_ok(&params, p)];
            for i in pools.v.get(&(Issuer as u8)).unwrap_or(&vec![]) {
                if let Ok(i) = serde_json::from_str::<SignalIssuer>(i) {
                    if i.issuer.keypair.secret.xn.len() == 1 {
                        let k = r::Key { x0: i.issuer.keypair.secret.x0, x1: i.issuer.keypair.secret.xn[0] };
                        v.push(r::presentation_ok(&params, &k, &u.user.issuer_parameters.Xn[0], p));
                    }
                }
            }
            v
        }
        _ => vec![],
    }
}

fn histories(s: &mut Src) -> Res {
    let mut pools = Pools::default();
    pools.phones.push(gen::digits(s));
    let near = gen::near(s, &pools.phones[0]);
    pools.phones.push(near);
    if s.chance(1, 3) {
        // Parameters and keys which the libraries made
        let y = gen::sys(s);
        pools.add(Params, serde_json::to_string(&y.sp).unwrap());
        let k = gen::key(s);
        pools.add(Keypair, json_of(&r::keypair_bytes(&gen::ref_params(&y.sp), &k)));
    }
    let odd = *s.pick(&[4u64, 12, 24]);
    let steps = s.range(8, 36);
    let mut trace = Vec::new();
    let mut members = 0;
    for _ in 0..steps {
        // Roster entries are made by the libraries.
        if pools.len(Params) > 0 && (pools.len(Entry) == 0 || s.chance(1, 8)) {
            let sp: Option<SystemParameters> = pools.pick(s, Params).and_then(|t| serde_json::from_str(&t).ok());
            let i = if s.chance(1, 4) { 1 } else { 0 };
            if let Some(sp) = sp {
                let e = RosterEntryCommitment::create(&pools.phones[i], &sp, &mut gen::rng(s)).map_err(broken("entry"))?;
                pools.add(Entry, serde_json::to_string(&e).unwrap());
            }
        }
        let (f, args, any) = next_call(s, &pools, odd);
        if any {
            s.label("odd argument");
        }
        trace.push(FUNCTIONS[f].name.to_string());
        let got = match catching(|| call(f, &args)) {
            Ok(g) => g,
            Err(m) => return fail("panic", format!("{} panicked: {}", show_call(f, &args), m)),
        };
        let t = match got.json {
            Some(t) => t,
            None => return fail("undefined", format!("{} returns undefined", show_call(f, &args))),
        };
        let want = match catching(|| native(f, &args)) {
            Ok(w) => w,
            Err(m) => return fail(crate::engine::GIVEN_UP, format!("{}: the library panicked: {}", show_call(f, &args), m)),
        };
        if must_fail(f, &args) {
            ensure!(t == "0", "accepted", "{} returns {}", show_call(f, &args), t);
            s.label("malformed argument");
        }
        let w = match want {
            None => {
                ensure!(t == "0", "accepted", "{} returns {}, the library operation fails", show_call(f, &args), t);
                s.label(&format!("{} fails", FUNCTIONS[f].name));
                continue;
            }
            Some(w) => w,
        };
        s.label(&format!("{} succeeds", FUNCTIONS[f].name));
        ensure!(t != "0", "refused", "{} fails, the library operation succeeds", show_call(f, &args));
        match FUNCTIONS[f].result {
            Issuance | Presentation => {
                let (a, b) = (bytes_of(&t).unwrap_or_default(), bytes_of(&w).unwrap_or_default());
                ensure!(
                    a.len() == b.len() && a.len() > 128 && a[..128] == b[..128],
                    "differs",
                    "{} returns {}, the library {}",
                    show_call(f, &args),
                    t,
                    w
                );
                let (x, y) = (validity(f, &args, &t, &pools), validity(f, &args, &w, &pools));
                ensure!(x == y, "validity", "{} returns a message of validity {:?} instead of {:?}: {}", show_call(f, &args), x, y, t);
            }
            _ => ensure!(t == w, "differs", "{} returns {}, the library {}", show_call(f, &args), t, w),
        }
        if f == 6 {
            members += 1;
        }
        // Go on with what either of them made.
        pools.add(FUNCTIONS[f].result, if s.chance(1, 2) { t } else { w });
    }
    if members > 0 {
        s.label("membership verified");
    }
    s.interesting();
    s.note(trace.join("; "));
    Ok(())
}

/// Every byte of a seed matters, as does its length.
fn seeds(s: &mut Src) -> Res {
    let w = setup(s);
    let d = gen::digits(s);
    let (u, e) = (user(s, &w, &d)?, entry(s, &w, &d)?);
    let j = |x: String| Arg::Js(Some(x));
    let f = *s.pick(&[0usize, 1, 4, 8]);
    let base: Vec<Arg> = match f {
        0 => vec![],
        1 => vec![j(serde_json::to_string(&w.sys.sp).unwrap())],
        4 => vec![j(serde_json::to_string(&w.issuer).unwrap()), Arg::Slice(d.clone())],
        _ => vec![j(serde_json::to_string(&u).unwrap()), j(serde_json::to_string(&e).unwrap())],
    };
    let seed = gen::seed32(s);
    let run = |seed: &[u8]| -> Result<String, crate::engine::Fail> {
        let mut a = base.clone();
        a.push(Arg::Slice(seed.to_vec()));
        match catching(|| call(f, &a)) {
            Ok(x) => Ok(x.json.unwrap_or_default()),
            Err(m) => fail("panic", format!("{} panicked: {}", show_call(f, &a), m)),
        }
    };
    let det = |t: &str| bytes_of(t).map(|b| b[..b.len().min(128)].to_vec());
    let a = run(&seed)?;
    ensure!(a != "0", "refused", "{} fails", FUNCTIONS[f].name);
    ensure!(det(&a) == det(&run(&seed)?), "differs", "{} differs for equal inputs", FUNCTIONS[f].name);
    for i in 0..32 {
        let mut t = seed;
        t[i] ^= 1 << s.below(8);
        ensure!(det(&a) != det(&run(&t)?), "seed", "{} doesn't depend on byte {} of the seed", FUNCTIONS[f].name, i);
    }
    for n in 0..=40usize {
        if n == 32 {
            continue;
        }
        let mut t = seed.to_vec();
        t.resize(n, 0);
        let x = run(&t)?;
        ensure!(x == "0", "accepted", "{} with a seed of {} bytes returns {}", FUNCTIONS[f].name, n, x);
    }
    s.label(FUNCTIONS[f].name);
    s.interesting();
    s.note(format!("{} with seed {}", FUNCTIONS[f].name, gen::hex(&seed)));
    Ok(())
}

pub static C17: &[Check] = &[
    Check {
        name: "histories",
        quick: 6000,
        thorough: 150_000,
        rule: "every case: a history of 8 to 36 calls, each compared with the libraries",
        run: histories,
    },
    Check {
        name: "seeds",
        quick: 1200,
        thorough: 30_000,
        rule: "every case: a function with a seed, with one bit of each of its bytes altered, and with 40 other lengths",
        run: seeds,
    },
];
