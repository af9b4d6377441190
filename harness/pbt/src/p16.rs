//! C16: results don't depend on the configuration.

use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{ChildStdin, ChildStdout, Command, Stdio};

use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::{amacs, elgamal, pedersen};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use serde_json::{json, Value};
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::phone_number::{PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{self, catching, trace, Check, Res, Src, GIVEN_UP};
use crate::ffi::{self, Arena, Arg, Kind, Lib, FUNCTIONS};
use crate::gen;
use crate::p01::Bytes;
use crate::p13::{describe, detail, next_call, validity, Pools};
use crate::refimpl as r;

// ---------------------------------------------------------------- the other build

/// Run the cases which are asked for, and tell how each of them ends.
pub fn serve() -> i32 {
    let mut out = crate::take_stdout();
    engine::install_panic_hook();
    let input = std::io::stdin();
    let mut input = BufReader::new(input.lock());
    loop {
        let mut line = String::new();
        match input.read_line(&mut line) {
            Ok(0) | Err(_) => return 0,
            _ => {}
        }
        let v: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
        let c = find(v["property"].as_str().unwrap_or(""), v["check"].as_str().unwrap_or(""));
        let end = match c {
            Some(c) => end_of(c, v["seed"].as_u64().unwrap_or(0)),
            None => json!({"error": "no such check"}),
        };
        if writeln!(out, "{}", end).is_err() {
            return 0;
        }
    }
}

fn find(prop: &str, check: &str) -> Option<&'static Check> {
    if check == EVERYTHING.name {
        return Some(&EVERYTHING);
    }
    crate::checks(prop).iter().find(|c| c.name == check)
}

fn end_of(c: &Check, seed: u64) -> Value {
    match engine::apart(c.run, seed, None) {
        Err(e) => json!({ "error": e }),
        Ok((None, d)) => json!({"sig": "holds", "digest": d}),
        Ok((Some(f), d)) => json!({"sig": f.sig, "digest": d, "msg": f.msg}),
    }
}

struct Other {
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

thread_local! {
    static OTHER: RefCell<Option<Other>> = RefCell::new(None);
}

/// Ask the other build, which runs as long as this thread.
fn other_build() -> Other {
    let alt = match std::env::var("PBT_ALT") {
        Ok(a) => a,
        Err(_) => internal("PBT_ALT isn't set"),
    };
    match Command::new(&alt).arg("serve").env_remove("PBT_ALT").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn() {
        Err(e) => internal(&format!("{}: {}", alt, e)),
        Ok(mut c) => Other { to: c.stdin.take().unwrap(), from: BufReader::new(c.stdout.take().unwrap()) },
    }
}

// ---------------------------------------------------------------- everything

/// What a call gives, as something that can be compared between two builds.
fn told<T, E: std::fmt::Debug + std::fmt::Display, F: FnOnce() -> Result<T, E>>(f: F) -> Option<T> {
    match catching(f) {
        Ok(Ok(x)) => {
            trace(b"ok");
            Some(x)
        }
        Ok(Err(e)) => {
            trace(format!("{:?} {}", e, e).as_bytes());
            None
        }
        Err(_) => {
            trace(b"panic");
            None
        }
    }
}

/// Something that was made from bytes, or its failure, in all formats.
fn formats<T>(s: &mut Src, x: &T)
where
    T: Bytes + serde::Serialize + serde::de::DeserializeOwned,
{
    let (b, how) = gen::alter_bytes(s, &x.enc());
    s.label(how);
    match s.draw(2) {
        0 => {
            if let Ok(Ok(y)) = catching(|| T::dec(&b)) {
                y.enc();
            }
        }
        1 => {
            let mut v = bincode::serialize(&b).unwrap();
            if s.chance(1, 4) {
                v = gen::alter_bytes(s, &v).0;
            }
            trace(&bincode::serialize(x).unwrap_or_default());
            match catching(|| bincode::deserialize::<T>(&v)) {
                Ok(Ok(y)) => {
                    y.enc();
                }
                r => trace(format!("{:?}", r.map(|r| r.err().map(|e| e.to_string()))).as_bytes()),
            }
        }
        _ => {
            trace(serde_json::to_string(x).unwrap_or_default().as_bytes());
            let mut t = serde_json::to_string(&b).unwrap();
            if s.chance(1, 4) {
                t.truncate(s.below(t.len()));
            }
            match catching(|| serde_json::from_str::<T>(&t)) {
                Ok(Ok(y)) => {
                    y.enc();
                }
                r => trace(format!("{:?}", r.map(|r| r.err().map(|e| e.to_string()))).as_bytes()),
            }
        }
    }
}

fn points(v: &[RistrettoPoint]) {
    for x in v {
        trace(x.compress().as_bytes());
    }
}

/// A number as anybody may give it.
fn any_digits(s: &mut Src) -> Vec<u8> {
    match s.draw(4) {
        0 | 1 => gen::digits(s),
        2 => {
            let d = gen::digits(s);
            gen::no_digits(s, &d)
        }
        3 => {
            let n = s.range(24, 30);
            gen::digits_n(s, n)
        }
        _ => {
            let n = s.below(40);
            (0..n).map(|_| s.byte()).collect()
        }
    }
}

/// Any calls of the libraries, with anything they take, whose results are told and nothing else.
fn everything(s: &mut Src) -> Res {
    let mut numbers: Vec<PhoneNumber> = Vec::new();
    let mut syss = vec![gen::sys(s).sp];
    let mut issuers = vec![gen::issuer(s, syss[0])];
    let mut users: Vec<SignalUser> = Vec::new();
    let mut issuances: Vec<SignalCredentialIssuance> = Vec::new();
    let mut entries: Vec<RosterEntryCommitment> = Vec::new();
    let mut presentations: Vec<SignalCredentialPresentation> = Vec::new();
    let mut verified: Vec<VerifiedSignalCredential> = Vec::new();
    let usual = gen::digits(s);
    let steps = s.range(8, 40);
    for _ in 0..steps {
        let d = if s.chance(3, 4) { usual.clone() } else { any_digits(s) };
        let sp = *s.pick(&syss);
        let i = s.below(issuers.len());
        match s.draw(17) {
            0 => {
                let d = any_digits(s);
                if let Some(n) = told(|| PhoneNumber::try_from_bytes(&d)) {
                    numbers.push(n);
                }
            }
            1 => {
                let t: String = any_digits(s).iter().map(|c| if *c < 10 { (b'0' + c) as char } else { std::char::from_u32(*c as u32).unwrap() }).collect();
                if let Some(n) = told(|| PhoneNumber::try_from_string(&t)) {
                    numbers.push(n);
                }
                points(&[gen::B * amacs::Message::from(t)[0]]);
            }
            2 => {
                let n = if numbers.is_empty() || s.chance(1, 4) { PhoneNumber(gen::scalar(s)) } else { s.pick(&numbers).clone() };
                trace(catching(|| String::from(n.clone())).unwrap_or_else(|_| "panic".to_string()).as_bytes());
                for k in 0..32 {
                    trace(&[n[k]]);
                }
                formats(s, &n);
                let (k, e) = (elgamal::Keypair::generate(&mut gen::rng(s)), gen::scalar(s));
                let x: Vec<elgamal::Encryption> = n.encrypt(&k, &e.into()).into();
                points(&[x[0].commitment, x[0].encryption]);
            }
            3 => {
                let sp = match s.draw(2) {
                    0 => gen::sys(s).sp,
                    1 => SystemParameters::hunt_and_peck(&mut gen::rng(s)),
                    _ => syss[0],
                };
                sp.enc();
                formats(s, &sp);
                syss.push(sp);
            }
            4 => {
                let j = gen::issuer(s, sp);
                j.enc();
                points(&j.get_issuer_parameters().Xn);
                formats(s, &j);
                issuers.push(j);
            }
            5 => {
                let key = if s.chance(1, 4) { Some(elgamal::Keypair::generate(&mut gen::rng(s))) } else { None };
                let sp = if s.chance(3, 4) { issuers[i].issuer.system_parameters } else { sp };
                if let Some(u) = told(|| SignalUser::new(sp, issuers[i].get_issuer_parameters(), key, &d)) {
                    u.enc();
                    users.push(u);
                }
            }
            6 => {
                let mut g = gen::rng(s);
                if let Some(x) = told(|| issuers[i].issue(&d, &mut g)) {
                    x.enc();
                    formats(s, &x);
                    issuances.push(x);
                }
            }
            7 | 8 if !users.is_empty() => {
                let k = s.below(users.len());
                let x = if issuances.is_empty() || s.chance(1, 16) { None } else { Some(s.below(issuances.len())) };
                told(|| users[k].obtain_finish(x.map(|x| &issuances[x])));
                users[k].enc();
                formats(s, &users[k]);
            }
            9 => {
                let mut g = gen::rng(s);
                let sp = if s.chance(3, 4) { issuers[i].issuer.system_parameters } else { sp };
                if let Some(e) = told(|| RosterEntryCommitment::create(&d, &sp, &mut g)) {
                    e.enc();
                    formats(s, &e);
                    entries.push(e);
                }
            }
            10 | 11 if !users.is_empty() && !entries.is_empty() => {
                let (u, e) = (s.below(users.len()), s.below(entries.len()));
                let mut g = gen::rng(s);
                if let Some(p) = told(|| users[u].show(&mut g, &entries[e])) {
                    p.enc();
                    formats(s, &p);
                    presentations.push(p);
                }
            }
            12 if !presentations.is_empty() => {
                let p = s.pick(&presentations).clone();
                if let Some(v) = told(|| issuers[i].verify(p)) {
                    formats(s, &v);
                    verified.push(v);
                }
            }
            13 if !verified.is_empty() => {
                let k = s.below(verified.len());
                if let Some(c) = told(|| issuers[i].verify_roster_membership(&verified[k])) {
                    formats(s, &c);
                }
            }
            14 if !entries.is_empty() => {
                let k = s.below(entries.len());
                told(|| entries[k].open(&d, &sp));
            }
            15 => {
                let n = gen::count(s, 0, 4);
                let mut g = gen::rng(s);
                let k = amacs::SecretKey::new(n, &mut g);
                k.get_public_key(&sp.h).enc();
                formats(s, &k);
                let m: Vec<Scalar> = (0..if s.chance(7, 8) { n } else { s.below(6) }).map(|_| gen::scalar(s)).collect();
                if let Some(t) = told(|| k.mac(&amacs::Message(m.clone()), &mut g)) {
                    t.enc();
                    let t = amacs::Rerandomization::new(&mut g).apply_to_tag(&t);
                    formats(s, &t);
                    let mut m = m;
                    if !m.is_empty() && s.chance(1, 2) {
                        let j = s.below(m.len());
                        m[j] = gen::scalar(s);
                    }
                    told(|| k.verify(&t, &amacs::Message(m)));
                }
            }
            16 => {
                let mut g = gen::rng(s);
                let k = elgamal::Keypair::generate(&mut g);
                formats(s, &k);
                let (m, e, m2) = (gen::scalar(s), Ephemeral::new(&mut g), gen::scalar(s));
                let (x, y) = (k.public.encrypt(&elgamal::Message::from(&m), &e), k.encrypt(&elgamal::Message::from(&m2), &gen::scalar(s).into()));
                let z = &x + &y;
                points(&[x.commitment, x.encryption, y.commitment, y.encryption, z.commitment, z.encryption, k.secret.decrypt(&z)]);
            }
            17 => {
                let mut g = gen::rng(s);
                let (v, b, n) = (gen::point(s), gen::point(s), Nonces::new(&mut g, 1 + s.below(3)));
                let c = pedersen::Commitment::to(&v, &n[0], &b);
                c.enc();
                formats(s, &c);
                for e in n.iter() {
                    trace(&e.to_bytes());
                    trace(&(-e.clone()).to_bytes());
                    trace(if c.open(&v, e, &b).is_ok() { b"opens" } else { b"doesn't" });
                }
                let w = gen::near_point(s, &v);
                trace(if c.open(&w, &n[0], &b).is_ok() { b"opens" } else { b"doesn't" });
            }
            _ => {}
        }
    }
    s.interesting();
    Ok(())
}

static EVERYTHING: Check = Check { name: "everything", quick: 0, thorough: 0, rule: "every case", run: everything };

/// The checks of other properties whose cases are functions of their choices.
const PROPERTIES: [&str; 14] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C15", "C18", "C10"];
const NOT: [&str; 5] = ["threads", "long", "distribution", "searched", "entropy"];

/// Cases of other properties end in the same way, with the same results, in the two builds
/// that have nothing in common as far as the configuration goes.
fn libraries(s: &mut Src) -> Res {
    OTHER.with(|o| *o.borrow_mut() = Some(other_build()));
    let n = s.range(4, 12);
    for _ in 0..n {
        let (prop, c) = if s.chance(1, 2) {
            ("C16", &EVERYTHING)
        } else {
            let prop = *s.pick(&PROPERTIES);
            let list: Vec<&'static Check> = crate::checks(prop).iter().filter(|c| !NOT.contains(&c.name)).collect();
            (prop, list[s.below(list.len())])
        };
        let seed = s.draw(u64::max_value() >> 1);
        let theirs = OTHER.with(|o| {
            let mut o = o.borrow_mut();
            let o = o.as_mut().unwrap();
            let ask = json!({"property": prop, "check": c.name, "seed": seed});
            if writeln!(o.to, "{}", ask).and_then(|_| o.to.flush()).is_err() {
                internal("the other build isn't there");
            }
            let ours = end_of(c, seed);
            let mut line = String::new();
            if o.from.read_line(&mut line).is_err() || line.is_empty() {
                internal("the other build doesn't answer");
            }
            (ours, serde_json::from_str::<Value>(&line).unwrap_or(Value::Null))
        });
        let (ours, theirs) = theirs;
        if !ours["error"].is_null() || !theirs["error"].is_null() {
            return engine::fail(GIVEN_UP, format!("{} {} of {}: {} and {}", prop, c.name, seed, ours, theirs));
        }
        ensure!(
            ours["sig"] == theirs["sig"] && ours["digest"] == theirs["digest"],
            "libraries-differ",
            "{} {} with seed {}: with std and 64 bits {}, with alloc and 32 bits {}",
            prop,
            c.name,
            seed,
            ours,
            theirs
        );
        s.label(&format!("{} {}", prop, c.name));
    }
    s.interesting();
    s.note(format!("{} cases of other properties in two builds", n));
    Ok(())
}

// ---------------------------------------------------------------- the C library

const BUILDS: [&str; 4] = ["ffi-u64", "ffi-u32", "ffi-std", "ffi-avx2"];

/// All builds, of which the last needs a processor that can run it.
fn load_builds(s: &mut Src) -> Vec<Lib> {
    let avx2 = std::env::var("PBT_AVX2").is_ok();
    if avx2 {
        s.label("with avx2");
    }
    BUILDS[..if avx2 { 4 } else { 3 }].iter().map(|b| Lib::load(b)).collect()
}

fn builds(s: &mut Src) -> Res {
    let libs = load_builds(s);
    let mut arena = Arena::new();
    let mut pools = Pools::start(s);
    let steps = s.range(8, 40);
    let mut trace = Vec::new();
    let mut accepted = 0;
    for _ in 0..steps {
        let (f, args, odd) = next_call(s, &mut pools, 8);
        if odd {
            s.label("odd argument");
        }
        let mut results = Vec::new();
        for l in libs.iter() {
            let got = l.call(&mut arena, f, &args);
            let b = ffi::take(&got);
            if !got.ptr.is_null() {
                ffi::release(&got);
            }
            results.push((got.len, b));
        }
        trace.push(describe(f, &args));
        let proof = match FUNCTIONS[f].result {
            Kind::Issuance | Kind::Presentation => true,
            _ => false,
        };
        let det = |b: &[u8]| if proof { b[..b.len().min(128)].to_vec() } else { b.to_vec() };
        for i in 1..results.len() {
            ensure!(
                results[0].0 == results[i].0 && det(&results[0].1) == det(&results[i].1),
                "differs",
                "{}: {} returns length {}, {}; {} returns length {}, {}",
                detail(f, &args),
                BUILDS[0],
                results[0].0,
                gen::hex(&results[0].1),
                BUILDS[i],
                results[i].0,
                gen::hex(&results[i].1)
            );
        }
        if results[0].0 != 0 {
            accepted += 1;
            // Messages with proofs go on from any build to all of them.
            let i = s.below(results.len());
            let b = results.swap_remove(i).1;
            if proof {
                s.label(&format!("message made by {}", BUILDS[i]));
                let issuers = pools.of(Kind::Issuer).clone();
                let v = validity(f, &args, &b, &issuers);
                for (_, other) in results.iter() {
                    let w = validity(f, &args, other, &issuers);
                    ensure!(v == w, "validity", "{}: messages of validity {:?} and {:?}", detail(f, &args), v, w);
                }
            }
            pools.add(FUNCTIONS[f].result, b);
        }
        s.label(&format!("{} {}", FUNCTIONS[f].name, if accepted > 0 { "some accepted" } else { "none accepted" }));
    }
    if accepted > 4 {
        s.interesting();
    }
    s.note(trace.join("; "));
    Ok(())
}

/// Arithmetic on extreme values.
fn extremes(s: &mut Src) -> Res {
    let libs = load_builds(s);
    let mut arena = Arena::new();
    let y = gen::sys(s);
    let p = gen::ref_params(&y.sp);
    let k = gen::key(s);
    let d = gen::digits_nonempty(s);
    let m = if s.chance(1, 2) { gen::scalar(s) } else { r::phone_scalar(&d).unwrap() };
    let (b, z) = (gen::nonzero_scalar(s), gen::scalar(s));
    let x1 = p.h * k.x1;
    let mut i = r::issue(&p, &k, m, b, z, &[gen::scalar(s), gen::scalar(s), gen::scalar(s), gen::scalar(s)], &r::Departure::default(), b"AEONFLUX ISSUANCE");
    if s.chance(1, 3) {
        let n = s.below(4);
        i.proof.responses[n] = other_scalar(s, &i.proof.responses[n]);
    }
    let pp = p.g * b;
    let o = gen::scalar(s);
    let roster = p.h * m + p.g * o;
    let rnd = show_random(s);
    let mut pr = r::show(&p, &x1, &pp, &(pp * (k.x0 + k.x1 * m)), m, &roster, o, &rnd, &r::Departure::default(), &r::Departure::default(), (b"AEONFLUX SHOW", b"SIGNAL GROUP MEMBERSHIP"));
    if s.chance(1, 4) {
        let n = s.below(pr.valid.responses.len());
        pr.valid.responses[n] = other_scalar(s, &pr.valid.responses[n]);
    }
    if s.chance(1, 4) {
        let n = s.below(pr.equal.responses.len());
        pr.equal.responses[n] = other_scalar(s, &pr.equal.responses[n]);
    }
    let mut issuer = y.sp.to_bytes();
    issuer.extend(r::keypair_bytes(&p, &k));
    let ip = r::enc(&x1).to_vec();
    let mut entry = r::enc(&roster).to_vec();
    entry.extend(o.as_bytes());
    let sp = y.sp.to_bytes();
    let calls: Vec<(usize, Vec<Vec<u8>>)> = vec![
        (7, vec![d.clone(), sp.clone(), ip, i.to_bytes()]),
        (5, vec![issuer.clone(), pr.to_bytes()]),
        (6, vec![issuer, pr.to_bytes()]),
        (11, vec![entry, d, sp]),
    ];
    for (f, args) in calls {
        let args: Vec<Arg> = args.iter().map(|b| Arg::of(b)).collect();
        let mut results = Vec::new();
        for l in libs.iter() {
            let got = l.call(&mut arena, f, &args);
            results.push((got.len, ffi::take(&got)));
            ffi::release(&got);
        }
        s.label(&format!("{} {}", FUNCTIONS[f].name, if results[0].0 > 0 { "accepts" } else { "refuses" }));
        for j in 1..results.len() {
            ensure!(
                results[0] == results[j],
                "differs",
                "{}: {} returns {}, {} returns {}",
                detail(f, &args),
                BUILDS[0],
                gen::hex(&results[0].1),
                BUILDS[j],
                gen::hex(&results[j].1)
            );
        }
    }
    s.interesting();
    s.note(format!("attribute {}", gen::hex(m.as_bytes())));
    Ok(())
}

pub static C16: &[Check] = &[
    Check {
        name: "libraries",
        quick: 700,
        thorough: 40_000,
        rule: "every case: 4 to 12 cases of the checks of other properties, each in both builds of the libraries",
        run: libraries,
    },
    Check {
        name: "builds",
        quick: 3000,
        thorough: 100_000,
        rule: "a history of 8 to 40 calls made in all builds, more than four of which succeeded",
        run: builds,
    },
    Check {
        name: "extremes",
        quick: 8000,
        thorough: 250_000,
        rule: "every case: messages with extreme values, verified by all builds",
        run: extremes,
    },
];
