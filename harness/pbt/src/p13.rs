//! C13: the C interface computes what the libraries do.  C14: it is memory
//! safe.  C16: its builds agree.

use std::collections::HashMap;
use std::process::Command;
use std::sync::{Arc, Barrier};

use aeonflux::amacs;
use aeonflux::issuer::IssuerParameters;
use aeonflux::parameters::SystemParameters;
use rand::{ChaChaRng, SeedableRng};
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{catching, fail, Check, Res, Src, GIVEN_UP};
use crate::ffi::{self, Arena, Arg, Buf, Kind, Lib, FUNCTIONS};
use crate::gen;
use crate::refimpl as r;

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug)]
enum Want {
    Fail,
    Exact(Vec<u8>),
    /// The deterministic part is the first 128 bytes, then come the proofs.
    Proof(Vec<u8>),
    /// Length 1 and no bytes
    Yes,
}

/// What the libraries do.
fn native(f: usize, args: &[Arg]) -> Want {
    fn go(f: usize, args: &[Arg]) -> Option<Want> {
        let mut a: Vec<&[u8]> = Vec::new();
        for (k, x) in FUNCTIONS[f].args.iter().zip(args) {
            let b = x.slice()?;
            // The interface is for credentials with one attribute.
            let len = match k {
                Kind::Keypair => 96,
                Kind::Issuer => 160,
                Kind::IssuerParams => 32,
                _ => b.len(),
            };
            if b.len() != len {
                return None;
            }
            a.push(b);
        }
        let rng = |b: &[u8]| {
            let mut t = [0u8; 32];
            t.copy_from_slice(b);
            ChaChaRng::from_seed(t)
        };
        let sp = |b: &[u8]| SystemParameters::from_bytes(b).ok();
        let issuer = |b: &[u8]| SignalIssuer::from_bytes(b).ok();
        let entry = |b: &[u8]| RosterEntryCommitment::from_bytes(b).ok();
        Some(match f {
            0 => Want::Exact(SystemParameters::hunt_and_peck(&mut rng(a[0])).to_bytes()),
            1 => Want::Exact(SignalIssuer::create(sp(a[0])?, &mut rng(a[1])).issuer.keypair.to_bytes()),
            2 => Want::Exact(SignalIssuer::new(sp(a[0])?, amacs::Keypair::from_bytes(a[1]).ok()?).to_bytes()),
            3 => Want::Exact(issuer(a[0])?.get_issuer_parameters().to_bytes()),
            4 => Want::Proof(issuer(a[0])?.issue(a[1], &mut rng(a[2])).ok()?.to_bytes()),
            5 => Want::Exact(issuer(a[0])?.verify(SignalCredentialPresentation::from_bytes(a[1]).ok()?).ok()?.to_bytes()),
            6 => Want::Exact(
                issuer(a[0])?.verify_roster_membership(&VerifiedSignalCredential::from_bytes(a[1]).ok()?).ok()?.to_bytes(),
            ),
            7 => {
                let mut u = SignalUser::new(sp(a[1])?, IssuerParameters::from_bytes(a[2]).ok()?, None, a[0]).ok()?;
                let i = SignalCredentialIssuance::from_bytes(a[3]).ok()?;
                u.obtain_finish(Some(&i)).ok()?;
                Want::Exact(u.to_bytes())
            }
            8 => Want::Proof(SignalUser::from_bytes(a[0]).ok()?.show(&mut rng(a[2]), &entry(a[1])?).ok()?.to_bytes()),
            9 => Want::Exact(RosterEntryCommitment::create(a[0], &sp(a[1])?, &mut rng(a[2])).ok()?.to_bytes()),
            10 => Want::Exact(entry(a[0])?.commitment.to_bytes()),
            _ => {
                let (e, p) = (entry(a[0])?, sp(a[2])?);
                if e.open(a[1], &p).is_ok() { Want::Yes } else { return None }
            }
        })
    }
    go(f, args).unwrap_or(Want::Fail)
}

// ---------------------------------------------------------------- histories

/// Values which calls can be given, by kind.
#[derive(Default)]
pub struct Pools {
    v: HashMap<u8, Vec<Vec<u8>>>,
}

impl Pools {
    pub fn of(&mut self, k: Kind) -> &mut Vec<Vec<u8>> {
        self.v.entry(k as u8).or_insert_with(Vec::new)
    }
    fn pick(&mut self, s: &mut Src, k: Kind) -> Option<Vec<u8>> {
        let v = self.of(k);
        if v.is_empty() {
            return None;
        }
        // The first ones are those which fit together.
        let n = v.len();
        let i = if s.chance(1, 4) { s.below(n) } else { 0 };
        Some(v[i].clone())
    }
    pub fn add(&mut self, k: Kind, b: Vec<u8>) {
        if k != Kind::Nothing {
            self.of(k).push(b);
        }
    }
    pub fn start(s: &mut Src) -> Pools {
        let mut p = Pools::default();
        let d = gen::digits_nonempty(s);
        if s.chance(1, 3) {
            let e = gen::near(s, &d);
            p.add(Kind::Phone, e);
        }
        p.add(Kind::Phone, d);
        if s.chance(1, 2) {
            // Parameters, and perhaps an issuer, which weren't made by the C library
            let y = gen::sys(s);
            p.add(Kind::Params, y.sp.to_bytes());
            if s.chance(1, 2) {
                let k = gen::key(s);
                p.add(Kind::Keypair, r::keypair_bytes(&gen::ref_params(&y.sp), &k));
            }
        }
        p
    }
}

const ALL: [Kind; 11] = [
    Kind::Params,
    Kind::Keypair,
    Kind::Issuer,
    Kind::IssuerParams,
    Kind::Phone,
    Kind::Seed,
    Kind::Issuance,
    Kind::User,
    Kind::Entry,
    Kind::Presentation,
    Kind::Verified,
];

fn any_bytes(s: &mut Src) -> Vec<u8> {
    let n = match s.draw(3) {
        0 => s.range(1, 8) * 32,
        1 => *s.pick(&[1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 159, 160, 161, 224, 287, 288, 289, 327, 328, 329, 447, 448, 449]),
        2 => s.range(1, ffi::MAX_ARG),
        _ => s.range(1, 500),
    };
    match s.draw(2) {
        0 => vec![s.byte(); n],
        1 => {
            let mut v = Vec::new();
            while v.len() < n {
                v.extend(if s.chance(1, 2) { gen::point(s).compress().to_bytes().to_vec() } else { gen::scalar(s).as_bytes().to_vec() });
                if v.len() > 512 {
                    v.resize(n, 1);
                }
            }
            v.truncate(n);
            v
        }
        _ => {
            let mut m = crate::engine::Mix(s.draw(u32::max_value() as u64));
            (0..n).map(|_| m.next() as u8).collect()
        }
    }
}

/// A value for an argument of a function.  One call in `odd` gets something else.
fn argument(s: &mut Src, pools: &mut Pools, k: Kind, odd: u64) -> (Arg, bool) {
    let at_end = !s.chance(1, 4);
    if k == Kind::Seed {
        let null = s.chance(1, odd * 4);
        let b = if s.chance(1, 16) { [s.byte(); 32] } else { gen::seed32(s) };
        return (Arg { bytes: b.to_vec(), null, at_end }, null);
    }
    let base = pools.pick(s, k);
    if base.is_some() && !s.chance(1, odd) {
        return (Arg { bytes: base.unwrap(), null: false, at_end }, false);
    }
    let mut null = false;
    let bytes = match (s.draw(9), base) {
        (0, Some(b)) => {
            null = true;
            b
        }
        (1, _) => vec![],
        (2, _) => any_bytes(s),
        (3, _) => {
            let l = *s.pick(&ALL);
            match pools.pick(s, l) {
                Some(b) => b,
                None => any_bytes(s),
            }
        }
        (4, Some(ref b)) if k == Kind::Phone => {
            // Too long, or no digits
            let mut v = b.clone();
            if v.is_empty() || s.chance(1, 2) {
                let n = *s.pick(&[25, 26, 27, 28, 29, 30, 31, 32, 33, 64, 255, 256, 257, 4096]);
                v.resize(n, 7);
            } else {
                let i = s.below(v.len());
                v[i] = s.byte();
            }
            v
        }
        (5, Some(ref b)) if k == Kind::Keypair || k == Kind::Issuer || k == Kind::IssuerParams => {
            // For another number of attributes
            let n = *s.pick(&[0usize, 2, 3, 4]);
            let head = if k == Kind::Issuer { b[..64].to_vec() } else { vec![] };
            let mut v = head;
            for _ in 0..n {
                v.extend(&gen::random_point(s).compress().to_bytes());
            }
            if k != Kind::IssuerParams {
                for _ in 0..n + 1 {
                    v.extend(gen::scalar(s).as_bytes());
                }
            }
            v
        }
        (5, Some(ref b)) if k == Kind::User && b.len() == 288 => {
            // Without a credential, or with a key for encryption
            let mut v = b.clone();
            if s.chance(1, 2) {
                for x in v[192..].iter_mut() {
                    *x = 0;
                }
            }
            if s.chance(1, 3) {
                let a = gen::scalar(s);
                v[128..160].copy_from_slice(a.as_bytes());
                let h = r::point(&b[64..96]).unwrap_or_default();
                v[160..192].copy_from_slice(&(a * h).compress().to_bytes());
            }
            v
        }
        (6, Some(ref b)) if b.len() >= 32 => {
            // Parts which are zero
            let mut v = b.clone();
            let n = v.len() / 32;
            let i = s.below(n);
            let j = s.range(i + 1, n);
            for x in v[32 * i..32 * j].iter_mut() {
                *x = 0;
            }
            v
        }
        (_, Some(b)) => gen::alter_bytes(s, &b).0,
        (_, None) => any_bytes(s),
    };
    (Arg { bytes, null, at_end }, true)
}

/// The next call: which function, with what, and whether any argument is odd.
pub fn next_call(s: &mut Src, pools: &mut Pools, odd: u64) -> (usize, Vec<Arg>, bool) {
    let mut f;
    // Mostly something which hasn't been done before
    let fewest = !s.chance(1, 3);
    let least = (0..12)
        .filter(|f| FUNCTIONS[*f].args.iter().all(|k| *k == Kind::Seed || !pools.v.get(&(*k as u8)).map_or(true, |v| v.is_empty())))
        .map(|f| (pools.v.get(&(FUNCTIONS[f].result as u8)).map_or(0, |v| v.len()), f))
        .filter(|(_, f)| FUNCTIONS[*f].result != Kind::Nothing)
        .min();
    loop {
        f = s.below(12);
        if let (true, Some((0, l))) = (fewest, least) {
            f = l;
        }
        // Unless it's meant, a call should have what it needs.
        let ready = FUNCTIONS[f].args.iter().all(|k| *k == Kind::Seed || !pools.of(*k).is_empty());
        if ready || s.chance(1, 16) || f == 0 {
            break;
        }
    }
    let mut args = Vec::new();
    let mut any = false;
    for k in FUNCTIONS[f].args {
        let (a, o) = argument(s, pools, *k, odd);
        args.push(a);
        any |= o;
    }
    (f, args, any)
}

pub fn describe(f: usize, args: &[Arg]) -> String {
    let a: Vec<String> =
        args.iter().map(|a| if a.null { "NULL".to_string() } else { format!("{} bytes", a.bytes.len()) }).collect();
    format!("{}({})", FUNCTIONS[f].name, a.join(", "))
}

pub fn detail(f: usize, args: &[Arg]) -> String {
    let a: Vec<String> = args.iter().map(|a| if a.null { "NULL".to_string() } else { gen::hex(&a.bytes) }).collect();
    format!("{}({})", FUNCTIONS[f].name, a.join(", "))
}

/// Whether a message which contains proofs is valid, for one of the issuers, as the reference sees it.
pub fn validity(f: usize, args: &[Arg], b: &[u8], issuers: &[Vec<u8>]) -> Vec<bool> {
    if f == 4 {
        let i = match (SignalIssuer::from_bytes(&args[0].bytes), r::Issuance::from_bytes(b)) {
            (Ok(w), Some(i)) => {
                r::issuance_ok(&gen::ref_params(&w.issuer.system_parameters), &w.issuer.keypair.public.Xn[0], &i)
            }
            _ => false,
        };
        return vec![i];
    }
    let u = SignalUser::from_bytes(&args[0].bytes);
    let p = r::Presentation::from_bytes(b);
    match (u, p) {
        (Ok(u), Some(p)) => {
            let params = gen::ref_params(&u.user.system_parameters);
            let mut v = vec![r::membership_ok(&params, &p)];
            for i in issuers {
                if let Ok(i) = SignalIssuer::from_bytes(i) {
                    let k = r::Key { x0: i.issuer.keypair.secret.x0, x1: i.issuer.keypair.secret.xn[0] };
                    v.push(r::presentation_ok(&params, &k, &u.user.issuer_parameters.Xn[0], &p));
                }
            }
            v
        }
        _ => vec![],
    }
}

/// Compare a result with what the libraries make.
fn agree(f: usize, args: &[Arg], want: &Want, got: &Buf, issuers: &[Vec<u8>]) -> Res {
    let b = ffi::take(got);
    let what = || detail(f, args);
    match want {
        Want::Fail => {
            ensure!(got.len == 0, "accepted", "{} succeeds, the library operation doesn't", what());
        }
        Want::Yes => {
            ensure!(got.len == 1 && got.ptr.is_null(), "refused", "{}: length {} instead of 1", what(), got.len);
        }
        Want::Exact(w) => {
            ensure!(got.len != 0, "refused", "{} fails, the library operation succeeds", what());
            ensure!(b == *w, "differs", "{} returns {}, the library {}", what(), gen::hex(&b), gen::hex(w));
            ensure!(b.len() == FUNCTIONS[f].len, "length", "{} returns {} bytes", what(), b.len());
        }
        Want::Proof(w) => {
            ensure!(got.len != 0, "refused", "{} fails, the library operation succeeds", what());
            ensure!(b.len() == w.len() && b.len() == FUNCTIONS[f].len, "length", "{} returns {} bytes", what(), b.len());
            ensure!(b[..128] == w[..128], "differs", "{} returns {}, the library {}", what(), gen::hex(&b), gen::hex(w));
            let (x, y) = (validity(f, args, &b, issuers), validity(f, args, w, issuers));
            ensure!(x == y, "validity", "{} returns a message of validity {:?} instead of {:?}: {}", what(), x, y, gen::hex(&b));
        }
    }
    Ok(())
}

fn label_outcome(s: &mut Src, f: usize, want: &Want, odd: bool) {
    let ok = match want {
        Want::Fail => "fails",
        _ => "succeeds",
    };
    s.label(&format!("{} {}", FUNCTIONS[f].name, ok));
    if odd {
        s.label("odd argument");
    }
}

fn differential(s: &mut Src) -> Res {
    let lib = Lib::load("ffi-u64");
    let mut arena = Arena::new();
    let mut pools = Pools::start(s);
    let steps = s.range(8, 40);
    let mut trace = Vec::new();
    let mut verified = false;
    for _ in 0..steps {
        let (f, args, odd) = next_call(s, &mut pools, 12);
        let want = match catching(|| native(f, &args)) {
            Ok(w) => w,
            // That's another property's business.
            Err(m) => return fail(crate::engine::GIVEN_UP, format!("{}: the library panicked: {}", describe(f, &args), m)),
        };
        label_outcome(s, f, &want, odd);
        let got = lib.call(&mut arena, f, &args);
        let issuers = pools.of(Kind::Issuer).clone();
        agree(f, &args, &want, &got, &issuers)?;
        trace.push(describe(f, &args));
        if got.len != 0 && !got.ptr.is_null() {
            let b = ffi::take(&got);
            ffi::release(&got);
            verified |= f == 6;
            pools.add(FUNCTIONS[f].result, b);
        }
    }
    if verified {
        s.label("membership verified");
    }
    if trace.len() >= 8 {
        s.interesting();
    }
    s.note(trace.join("; "));
    Ok(())
}

/// Every single bit of a seed matters.
fn seeds(s: &mut Src) -> Res {
    let lib = Lib::load("ffi-u64");
    let mut arena = Arena::new();
    let y = gen::sys(s);
    let k = gen::random_key(s);
    let d = gen::digits_nonempty(s);
    let sp = y.sp.to_bytes();
    let w = setup_with(y, k);
    let (u, e) = (user(s, &w, &d)?, entry(s, &w, &d)?);
    let f = *s.pick(&[0usize, 1, 4, 8, 9]);
    let seed = gen::seed32(s);
    let call = |arena: &mut Arena, seed: &[u8]| {
        let list: Vec<Vec<u8>> = match f {
            0 => vec![],
            1 => vec![sp.clone()],
            4 => vec![w.issuer.to_bytes(), d.clone()],
            8 => vec![u.to_bytes(), e.to_bytes()],
            _ => vec![d.clone(), sp.clone()],
        };
        let mut args: Vec<Arg> = list.iter().map(|b| Arg::of(b)).collect();
        args.push(Arg::of(seed));
        let got = lib.call(arena, f, &args);
        let b = ffi::take(&got);
        ffi::release(&got);
        b
    };
    let det = |b: &[u8]| b[..b.len().min(128)].to_vec();
    let a = call(&mut arena, &seed);
    ensure!(a.len() == FUNCTIONS[f].len, "length", "{} returns {} bytes", FUNCTIONS[f].name, a.len());
    let again = call(&mut arena, &seed);
    ensure!(det(&a) == det(&again), "differs", "{} differs for equal inputs: {} and {}", FUNCTIONS[f].name, gen::hex(&a), gen::hex(&again));
    for i in 0..32 {
        let mut t = seed;
        t[i] ^= 1 << s.below(8);
        let b = call(&mut arena, &t);
        ensure!(b.len() == a.len(), "length", "{} returns {} bytes", FUNCTIONS[f].name, b.len());
        ensure!(det(&a) != det(&b), "seed", "{} doesn't depend on byte {} of the seed", FUNCTIONS[f].name, i);
    }
    s.label(FUNCTIONS[f].name);
    s.interesting();
    s.note(format!("{} with seed {}", FUNCTIONS[f].name, gen::hex(&seed)));
    Ok(())
}

// ---------------------------------------------------------------- a C program

static MAIN_C: &str = r#"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "credential.h"
int other(void);
static size_t get(const char *hex, uint8_t *out) {
    size_t n = strlen(hex) / 2;
    for (size_t i = 0; i < n; i++) { unsigned x; sscanf(hex + 2 * i, "%2x", &x); out[i] = x; }
    return n;
}
static void put(const char *name, buf_t b, uint64_t declared) {
    printf("%s %llu %llu ", name, (unsigned long long)b.len, (unsigned long long)declared);
    if (b.ptr == NULL) printf("NULL");
    else for (uint64_t i = 0; i < b.len; i++) printf("%02x", b.ptr[i]);
    printf("\n");
}
int main(int argc, char **argv) {
    uint8_t s0[32], s1[32], s2[32], s3[32], s4[32], phone[64], wrong[64];
    if (argc != 8) return 3;
    get(argv[1], s0); get(argv[2], s1); get(argv[3], s2); get(argv[4], s3); get(argv[5], s4);
    size_t n = get(argv[6], phone), m = get(argv[7], wrong);
    printf("other %d\n", other());
    buf_t sp = system_parameters_create(s0); put("sp", sp, LENGTH_SYSTEM_PARAMETERS);
    buf_t kp = issuer_create(sp.ptr, sp.len, s1); put("kp", kp, LENGTH_ISSUER_KEYPAIR);
    buf_t is = issuer_new(sp.ptr, sp.len, kp.ptr, kp.len); put("issuer", is, LENGTH_ISSUER);
    buf_t ip = issuer_get_issuer_parameters(is.ptr, is.len); put("ip", ip, LENGTH_ISSUER_PARAMETERS);
    buf_t iss = issuer_issue(is.ptr, is.len, phone, n, s2); put("issuance", iss, LENGTH_CREDENTIAL_ISSUANCE);
    buf_t us = user_obtain_finish(phone, n, sp.ptr, sp.len, ip.ptr, ip.len, iss.ptr, iss.len); put("user", us, LENGTH_USER);
    buf_t no = user_obtain_finish(wrong, m, sp.ptr, sp.len, ip.ptr, ip.len, iss.ptr, iss.len); put("nouser", no, 0);
    buf_t en = roster_entry_commitment_create(phone, n, sp.ptr, sp.len, s3); put("entry", en, LENGTH_ROSTER_ENTRY_COMMITMENT);
    buf_t co = roster_entry_commitment_remove_opening(en.ptr, en.len); put("commitment", co, LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING);
    buf_t op = roster_entry_commitment_open(en.ptr, en.len, phone, n, sp.ptr, sp.len); put("open", op, 1);
    buf_t on = roster_entry_commitment_open(en.ptr, en.len, wrong, m, sp.ptr, sp.len); put("noopen", on, 0);
    buf_t pr = user_show(us.ptr, us.len, en.ptr, en.len, s4); put("presentation", pr, LENGTH_CREDENTIAL_PRESENTATION);
    buf_t ve = issuer_verify(is.ptr, is.len, pr.ptr, pr.len); put("verified", ve, LENGTH_VERIFIED_CREDENTIAL);
    buf_t me = issuer_verify_roster_membership(is.ptr, is.len, ve.ptr, ve.len); put("membership", me, LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING);
    printf("seed %u\n", (unsigned)LENGTH_SEED);
    buf_t all[] = { sp, kp, is, ip, iss, us, no, en, co, op, on, pr, ve, me };
    for (size_t i = 0; i < sizeof all / sizeof *all; i++) free((void *)all[i].ptr);
    return 0;
}
"#;

static OTHER_C: &str = r#"
#include "credential.h"
int other(void) { return (int)LENGTH_USER; }
"#;

/// Compiled once for each process.
fn program() -> Result<std::path::PathBuf, String> {
    let ffi = std::env::var("PBT_FFI").unwrap_or_else(|_| "/verif/target".to_string());
    let dir = std::env::temp_dir().join(format!("pbt-c-{}", std::process::id()));
    let exe = dir.join("prog");
    if exe.exists() {
        return Ok(dir);
    }
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("main.c"), MAIN_C).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("other.c"), OTHER_C).map_err(|e| e.to_string())?;
    let lib = format!("{}/ffi-u64/release", ffi);
    let out = Command::new("gcc")
        .current_dir(&dir)
        .args(&["-O1", "-I/repo/ffi/src/include", "main.c", "other.c", "-o", "prog.tmp", "-L"])
        .arg(&lib)
        .arg(format!("-Wl,-rpath,{}", lib))
        .arg("-lcredential")
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).to_string());
    }
    std::fs::rename(dir.join("prog.tmp"), &exe).map_err(|e| e.to_string())?;
    Ok(dir)
}

/// A C program which uses the header in two of its files.
fn c_program(s: &mut Src) -> Res {
    let dir = match program() {
        Ok(d) => d,
        Err(e) => return fail("header", format!("a C program with this header can't be built: {}", e)),
    };
    let d = gen::digits_nonempty(s);
    let wrong = {
        let w = gen::near(s, &d);
        if w.is_empty() { vec![1, 2] } else { w }
    };
    let wrong = if wrong == d { vec![d[0] ^ 1] } else { wrong };
    let seeds: Vec<[u8; 32]> = (0..5).map(|_| gen::seed32(s)).collect();
    let mut c = Command::new(dir.join("prog"));
    for x in seeds.iter() {
        c.arg(gen::hex(x));
    }
    let out = match c.arg(gen::hex(&d)).arg(gen::hex(&wrong)).output() {
        Ok(o) => o,
        Err(e) => internal(&format!("the C program can't be run: {}", e)),
    };
    let _ = std::fs::remove_dir_all(&dir);
    ensure!(out.status.success(), "crash", "the C program ended with {:?}", out.status);
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut got: HashMap<String, (u64, u64, Vec<u8>)> = HashMap::new();
    for line in text.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        if w.len() == 4 {
            let b = if w[3] == "NULL" {
                vec![]
            } else {
                (0..w[3].len() / 2).map(|i| u8::from_str_radix(&w[3][2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
            };
            got.insert(w[0].to_string(), (w[1].parse().unwrap_or(9999), w[2].parse().unwrap_or(9999), b));
        }
    }
    ensure!(text.contains("other 288\n") && text.contains("seed 32\n"), "length", "the header's constants differ: {}", text);
    let mut step = |name: &str, f: usize, args: &[&[u8]]| -> Result<Vec<u8>, crate::engine::Fail> {
        let args: Vec<Arg> = args.iter().map(|b| Arg::of(b)).collect();
        let want = native(f, &args);
        let (len, declared, b) = match got.get(name) {
            Some(x) => x.clone(),
            None => return fail("crash", format!("the C program printed no {}", name)),
        };
        let none = b.is_empty();
        let buf = Buf { len, ptr: if none { std::ptr::null() } else { b.as_ptr() } };
        agree(f, &args, &want, &buf, &[])?;
        ensure!(len == declared, "length", "{}: {} bytes, but the header declares {}", name, len, declared);
        Ok(b)
    };
    let sp = step("sp", 0, &[&seeds[0]])?;
    let kp = step("kp", 1, &[&sp, &seeds[1]])?;
    let is = step("issuer", 2, &[&sp, &kp])?;
    let ip = step("ip", 3, &[&is])?;
    let iss = step("issuance", 4, &[&is, &d, &seeds[2]])?;
    let us = step("user", 7, &[&d, &sp, &ip, &iss])?;
    step("nouser", 7, &[&wrong, &sp, &ip, &iss])?;
    let en = step("entry", 9, &[&d, &sp, &seeds[3]])?;
    step("commitment", 10, &[&en])?;
    step("open", 11, &[&en, &d, &sp])?;
    step("noopen", 11, &[&en, &wrong, &sp])?;
    let pr = step("presentation", 8, &[&us, &en, &seeds[4]])?;
    let ve = step("verified", 5, &[&is, &pr])?;
    let me = step("membership", 6, &[&is, &ve])?;
    ensure!(me == en[..32].to_vec(), "differs", "membership of another roster entry");
    s.interesting();
    s.note(format!("a C program for {}", gen::dstr(&d)));
    Ok(())
}

pub static C13: &[Check] = &[
    Check {
        name: "differential",
        quick: 6000,
        thorough: 200_000,
        rule: "every case: a history of 8 to 40 calls of the C library, each compared with the libraries",
        run: differential,
    },
    Check {
        name: "seeds",
        quick: 1200,
        thorough: 40_000,
        rule: "every case: one function with a seed, and with one bit of each of the seed's bytes altered",
        run: seeds,
    },
    Check {
        name: "c-program",
        quick: 24,
        thorough: 400,
        rule: "every case: a protocol run by a C program built with the header",
        run: c_program,
    },
    Check {
        name: "threads",
        quick: 300,
        thorough: 12_000,
        rule: "every case: two to four threads using the library at the same time",
        run: threads,
    },
];

// ---------------------------------------------------------------- C14

struct Live {
    buf: Buf,
    copy: Vec<u8>,
    what: String,
}

fn check_live(live: &[Live]) -> Res {
    for l in live {
        ensure!(ffi::take(&l.buf) == l.copy, "changed", "what {} returned has changed later", l.what);
    }
    Ok(())
}

/// Whether a result is as documented, apart from its contents.
fn check_result(f: usize, args: &[Arg], got: &Buf, arena: &Arena, live: &[Live]) -> Res {
    let what = || detail(f, args);
    if f == 11 {
        ensure!(got.ptr.is_null() && got.len <= 1, "result", "{} returns length {}, pointer {:?}", what(), got.len, got.ptr);
        return Ok(());
    }
    if got.len == 0 || got.ptr.is_null() {
        ensure!(
            got.len == 0 && got.ptr.is_null(),
            "failure",
            "{} fails with length {} and pointer {:?}",
            what(),
            got.len,
            got.ptr
        );
        return Ok(());
    }
    ensure!(!arena.contains(got.ptr), "retained", "{} returns a pointer to its argument", what());
    ensure!(got.len < 1 << 20, "result", "{} returns {} bytes", what(), got.len);
    let (lo, hi) = (got.ptr as usize, got.ptr as usize + got.len as usize);
    for l in live {
        let (a, b) = (l.buf.ptr as usize, l.buf.ptr as usize + l.buf.len as usize);
        ensure!(hi <= a || b <= lo, "shared", "{} returns memory which {} returned earlier", what(), l.what);
    }
    Ok(())
}

/// It fails whatever the result would be: a missing argument, a wrong length, or something malformed.
fn must_fail(f: usize, args: &[Arg]) -> bool {
    FUNCTIONS[f].args.iter().zip(args).any(|(k, a)| {
        let n = a.bytes.len();
        a.null
            || n == 0
            || match k {
                Kind::Params => n != 64 || r::point(&a.bytes[..32]).is_none() || r::point(&a.bytes[32..]).is_none(),
                Kind::Keypair => {
                    n != 96 || r::point(&a.bytes[..32]).is_none() || r::scalar(&a.bytes[32..64]).is_none() || r::scalar(&a.bytes[64..]).is_none()
                }
                Kind::Issuer => n != 160,
                Kind::IssuerParams => n != 32 || r::point(&a.bytes).is_none(),
                Kind::Phone => n > 26,
                Kind::Issuance => r::Issuance::from_bytes(&a.bytes).is_none(),
                Kind::User => n != 288,
                Kind::Entry => n != 64 || r::point(&a.bytes[..32]).is_none() || r::scalar(&a.bytes[32..]).is_none(),
                Kind::Presentation | Kind::Verified => r::Presentation::from_bytes(&a.bytes).is_none(),
                _ => false,
            }
    })
}

fn safety(s: &mut Src) -> Res {
    let lib = Lib::load("ffi-u64");
    // What is freed or not yet written is not what it seems to be.
    unsafe { ffi::mallopt(ffi::M_PERTURB, 0x5b) };
    let mut arena = Arena::new();
    let mut pools = Pools::start(s);
    let mut live: Vec<Live> = Vec::new();
    let steps = s.range(10, 50);
    let odd_rate = *s.pick(&[3u64, 6, 12]);
    let mut trace = Vec::new();
    let mut failed = 0;
    for _ in 0..steps {
        if live.len() > 2 && s.chance(1, 6) {
            // Somebody frees something.
            let i = s.below(live.len());
            let l = live.swap_remove(i);
            ensure!(ffi::take(&l.buf) == l.copy, "changed", "what {} returned has changed later", l.what);
            ffi::release(&l.buf);
            trace.push("free".to_string());
        }
        let (f, args, odd) = next_call(s, &mut pools, odd_rate);
        if odd {
            s.label("odd argument");
        }
        let got = lib.call(&mut arena, f, &args);
        check_result(f, &args, &got, &arena, &live)?;
        if must_fail(f, &args) {
            ensure!(got.len == 0, "accepted", "{} succeeds", detail(f, &args));
            s.label("malformed argument");
            failed += 1;
        }
        trace.push(describe(f, &args));
        if !got.ptr.is_null() {
            let b = ffi::take(&got);
            let usable = unsafe { ffi::malloc_usable_size(got.ptr as *const libc::c_void) };
            ensure!(usable >= b.len(), "heap", "{} returns {} bytes in a block of {}", detail(f, &args), b.len(), usable);
            if FUNCTIONS[f].len != 0 {
                ensure!(b.len() == FUNCTIONS[f].len, "length", "{} returns {} bytes", detail(f, &args), b.len());
            }
            live.push(Live { buf: got, copy: b.clone(), what: describe(f, &args) });
            pools.add(FUNCTIONS[f].result, b);
        }
        // The caller's other memory comes and goes, too.
        if s.chance(1, 4) {
            let n = s.range(1, 600);
            let mut v = vec![0xc3u8; n];
            v[n / 2] = 1;
            drop(v);
        }
        check_live(&live)?;
    }
    drop(arena);
    check_live(&live)?;
    for l in live.iter() {
        ffi::release(&l.buf);
    }
    if failed > 0 && live.len() > 2 {
        s.interesting();
    }
    s.note(trace.join("; "));
    Ok(())
}

/// Several threads use the library at the same time.
fn threads(s: &mut Src) -> Res {
    let lib = Lib::load("ffi-u64");
    let n = s.range(2, 4);
    // In some cases only short calls, but many of them
    let short = s.chance(1, 3);
    // Every thread gets a list of calls of its own, with what they return when made one after another.
    let mut lists = Vec::new();
    for _ in 0..n {
        let mut arena = Arena::new();
        let mut pools = Pools::start(s);
        let mut list = Vec::new();
        for _ in 0..s.range(6, 20) {
            let (f, args, _) = next_call(s, &mut pools, if short { 40 } else { 10 });
            let got = lib.call(&mut arena, f, &args);
            check_result(f, &args, &got, &arena, &[])?;
            let b = ffi::take(&got);
            if !got.ptr.is_null() {
                ffi::release(&got);
                pools.add(FUNCTIONS[f].result, b.clone());
            }
            if !short || [2, 3, 9, 10, 11].contains(&f) {
                list.push((f, args, got.len, b));
            }
        }
        lists.push(list);
    }
    let rounds = if short { 60 } else { 3 };
    let start = Arc::new(Barrier::new(n));
    let seed = s.draw(u32::max_value() as u64);
    let handles: Vec<_> = lists
        .into_iter()
        .enumerate()
        .map(|(i, list)| {
            let (lib, start) = (lib.clone(), start.clone());
            std::thread::spawn(move || -> Result<(), String> {
                crate::engine::os_seed(seed + i as u64);
                let mut arena = Arena::new();
                start.wait();
                for _ in 0..rounds {
                    let mut kept = Vec::new();
                    for (f, args, len, before) in list.iter() {
                        let got = lib.call(&mut arena, *f, args);
                        let b = ffi::take(&got);
                        let same = match FUNCTIONS[*f].result {
                            Kind::Issuance | Kind::Presentation => {
                                b.len() == before.len() && b[..b.len().min(128)] == before[..b.len().min(128)]
                            }
                            _ => b == *before,
                        };
                        if !same || got.len != *len {
                            return Err(format!("{}: length {} instead of {}, {}", describe(*f, args), got.len, len, gen::hex(&b)));
                        }
                        kept.push((got, b));
                    }
                    for (got, b) in kept {
                        if ffi::take(&got) != b {
                            return Err("a result has changed".to_string());
                        }
                        ffi::release(&got);
                    }
                }
                Ok(())
            })
        })
        .collect();
    let mut bad = None;
    for h in handles {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(m)) => bad = Some(m),
            Err(_) => bad = Some("a thread panicked".to_string()),
        }
    }
    if let Some(m) = bad {
        return fail("concurrent", format!("used by {} threads at the same time: {}", n, m));
    }
    s.label(&format!("{} threads", n));
    s.label(if short { "short calls" } else { "any calls" });
    s.interesting();
    s.note(format!("{} threads", n));
    Ok(())
}

/// One valid argument of a call, and then something more.
fn lengths(s: &mut Src) -> Res {
    let lib = Lib::load("ffi-u64");
    let mut arena = Arena::new();
    let y = gen::sys(s);
    let k = gen::random_key(s);
    let d = gen::digits_nonempty(s);
    let w = setup_with(y, k);
    let (u, e) = (user(s, &w, &d)?, entry(s, &w, &d)?);
    let i = issue(s, &w, &d)?;
    let p = show(s, &u, &e)?;
    let f = 1 + s.below(11);
    let mut args = Vec::new();
    let mut long = Vec::new();
    for (n, kind) in FUNCTIONS[f].args.iter().enumerate() {
        if *kind != Kind::Seed {
            long.push(n);
        }
        args.push(Arg::of(&match kind {
            Kind::Params => w.sys.sp.to_bytes(),
            Kind::Keypair => r::keypair_bytes(&w.p, &w.k),
            Kind::Issuer => w.issuer.to_bytes(),
            Kind::IssuerParams => w.issuer.get_issuer_parameters().to_bytes(),
            Kind::Phone => d.clone(),
            Kind::Issuance => i.to_bytes(),
            Kind::User => u.to_bytes(),
            Kind::Entry => e.to_bytes(),
            Kind::Presentation | Kind::Verified => p.to_bytes(),
            _ => gen::seed32(s).to_vec(),
        }));
    }
    let good = lib.call(&mut arena, f, &args);
    if good.len == 0 {
        return fail(GIVEN_UP, format!("{} fails", describe(f, &args)));
    }
    ffi::release(&good);
    let which = *s.pick(&long);
    let power = *s.pick(&[0u32, 5, 8, 8, 10, 12, 16, 16, 16, 20, 24, 31, 32, 32]);
    let more = s.range(1, if power < 20 { 3 } else { 1 }) << power;
    let is_phone = FUNCTIONS[f].args[which] == Kind::Phone;
    let got = lib.call_long(&mut arena, f, &args, which, more);
    let what = format!("{} with {} further bytes in argument {}", describe(f, &args), more, which);
    s.label(FUNCTIONS[f].name);
    s.label(&format!("2^{} more", power));
    s.note(what.clone());
    if is_phone && d.len() + more <= 26 {
        // Just another number
        if !got.ptr.is_null() {
            ffi::release(&got);
        }
        return Ok(());
    }
    ensure!(got.len == 0 && got.ptr.is_null(), "accepted", "{} returns length {}", what, got.len);
    s.interesting();
    Ok(())
}

pub static C14: &[Check] = &[
    Check {
        name: "lengths",
        quick: 6000,
        thorough: 60_000,
        rule: "a call which succeeds, of which one argument is then longer by up to 2^32 bytes",
        run: lengths,
    },
    Check {
        name: "safety",
        quick: 24_000,
        thorough: 400_000,
        rule: "a history of 10 to 50 calls with at least one malformed argument and three results alive at the end",
        run: safety,
    },
    Check {
        name: "threads",
        quick: 400,
        thorough: 12_000,
        rule: "every case: two to four threads using the library at the same time",
        run: threads,
    },
];
