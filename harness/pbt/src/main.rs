#![allow(non_snake_case)]
#![feature(integer_atomics)]
#![feature(asm)]
#![feature(thread_local)]

#[macro_use]
mod engine;
mod gen;
mod os;
mod refimpl;
#[macro_use]
mod p01;
mod common;
mod p02;
mod p03;
mod p04;
mod p05;
mod p09;
mod p10;
mod p11;
mod p12;
mod ffi;
mod p13;
mod p15;
mod p16;
mod p18;
#[cfg(feature = "js")]
mod p17;

use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

use serde_json::{json, Value};

use crate::engine::{Check, Failure};

#[global_allocator]
static ALLOCATOR: p18::watch::Watching = p18::watch::Watching;

pub fn checks(prop: &str) -> &'static [Check] {
    match prop {
        "C01" => p01::CHECKS,
        "C02" => p02::CHECKS,
        "C03" => p03::CHECKS,
        "C04" => p04::CHECKS,
        "C05" => p05::C05,
        "C06" => p05::C06,
        "C07" => p05::C07,
        "C08" => p05::C08,
        "C09" => p09::C09,
        "C10" => p10::C10,
        "C11" => p11::C11,
        "C12" => p12::C12,
        "C13" => p13::C13,
        "C14" => p13::C14,
        "C15" => p15::C15,
        "C16" => p16::C16,
        "C18" => p18::C18,
        "C19" => p18::C19,
        #[cfg(feature = "js")]
        "C17" => p17::C17,
        _ => &[],
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2]),
        Some("record") => {
            p15::record();
            0
        }
        Some("replay") => replay(&args[2]),
        Some("serve") => p16::serve(),
        _ => {
            eprintln!("usage: pbt run PROPERTY | pbt replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn env(name: &str, default: &str) -> String {
    std::env::var(name).unwrap_or_else(|_| default.to_string())
}

/// The libraries print errors to the standard output: keep a copy of it for us.
fn take_stdout() -> std::fs::File {
    use std::os::unix::io::FromRawFd;
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        std::fs::File::from_raw_fd(keep)
    }
}

/// The known findings of a property: signature -> description.
fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let file = env("PBT_KNOWN", "/verif/known-findings.json");
    if let Ok(b) = std::fs::read(&file) {
        let v: Value = serde_json::from_slice(&b).expect("known findings");
        for f in v["findings"].as_array().cloned().unwrap_or_default() {
            if f["property"] == prop {
                m.insert(f["signature"].as_str().unwrap().to_string(), f["what"].as_str().unwrap_or("").to_string());
            }
        }
    }
    m
}

fn run(prop: &str) -> i32 {
    use std::io::Write;
    let mut out = take_stdout();
    engine::install_panic_hook();
    let started = Instant::now();
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    // The other build has other cases.
    let other = std::env::var("PBT_BUILD").is_ok();
    let case_seed = if other { seed ^ 0x616c_7400 } else { seed };
    let tier = env("VERIF_TIER", "quick");
    let thorough = tier == "thorough";
    let scale: f64 = env("PBT_SCALE", "1").parse().unwrap_or(1.0);
    let workers: u64 = env("PBT_WORKERS", "8").parse().unwrap_or(8);
    let only = std::env::var("PBT_ONLY").ok();
    let known = known_findings(prop);
    let sigs: HashSet<String> = known.keys().cloned().collect();

    let list = checks(prop);
    if list.is_empty() {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut samples = Vec::new();
    let mut per_check = serde_json::Map::new();
    let mut rules = Vec::new();
    let mut violations = Vec::new();
    let mut hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors = Vec::new();

    for c in list {
        if let Some(ref o) = only {
            if o != c.name {
                continue;
            }
        }
        let most = if thorough { c.thorough } else { c.quick };
        // The other build has a part of them, but not next to none.
        let least = if other { most.min(24) } else { 0 };
        let cases = ((most as f64 * scale).ceil() as u64).max(least);
        let t = Instant::now();
        let rep = engine::search(prop, c, case_seed, cases, workers, &sigs);
        evaluations += rep.evaluations;
        nontrivial += rep.nontrivial;
        samples.extend(rep.samples.iter().take(2).map(|s| s.1.clone()));
        rules.push(format!("{}: {}", c.name, c.rule));
        per_check.insert(
            c.name.to_string(),
            json!({
                "evaluations": rep.evaluations,
                "distinct_nontrivial": rep.nontrivial,
                "given_up": rep.discarded,
                "labels": rep.labels,
                "wall_s": secs(t),
            }),
        );
        if std::env::var("PBT_VERBOSE").is_ok() {
            eprintln!("{} {}: {} cases, {} non-trivial, {:.1} s, {:?}", prop, c.name, rep.evaluations, rep.nontrivial, secs(t), rep.labels);
        }
        for (k, n) in rep.known {
            *hit.entry(k).or_insert(0) += n;
        }
        if let Some(e) = rep.error {
            errors.push(format!("{}: {}", c.name, e));
        }
        if let Some(f) = rep.failure {
            let f = engine::shrink(c.run, &f, &sigs);
            let path = write_replay(prop, c, seed, &f);
            eprintln!("{} {}: [{}] {}", prop, c.name, f.sig, f.msg);
            let _ = writeln!(out, "{} {}: [{}] {}", prop, c.name, f.sig, one_line(&f.msg));
            let _ = writeln!(out, "VIOLATION property={} replay={}", prop, path);
            violations.push(json!({"check": c.name, "signature": f.sig, "what": f.msg, "replay": path}));
        }
    }
    if let (Some(alt), true) = (std::env::var("PBT_ALT").ok(), violations.is_empty() && !ONE_BUILD.contains(&prop)) {
        match in_other_build(&alt, prop, scale) {
            Err(e) => errors.push(e),
            Ok((code, lines, v)) => {
                for l in lines.lines().filter(|l| code == 1 && !l.starts_with("KNOWN-FINDING")) {
                    let _ = writeln!(out, "{}", l);
                }
                let c = &v["coverage"];
                evaluations += c["evaluations"].as_u64().unwrap_or(0);
                nontrivial += c["distinct_nontrivial"].as_u64().unwrap_or(0);
                for (k, x) in c["checks"].as_object().cloned().unwrap_or_default() {
                    per_check.insert(format!("{} in the other build", k), x);
                }
                for (k, n) in c["known_findings_seen"].as_object().cloned().unwrap_or_default() {
                    *hit.entry(k).or_insert(0) += n.as_u64().unwrap_or(0);
                }
                violations.extend(v["violations_found"].as_array().cloned().unwrap_or_default());
                if code > 1 {
                    errors.push(format!("the other build: exit code {}", code));
                }
            }
        }
    }
    for (k, what) in known.iter() {
        if other {
            break;
        }
        if hit.get(k).cloned().unwrap_or(0) > 0 {
            let _ = writeln!(out, "KNOWN-FINDING: property={} [{}] {}", prop, k, what);
        }
    }
    let evidence = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": rules.join("; "),
            "samples": samples,
            "checks": per_check,
            "known_findings_seen": hit,
        },
        "assumptions": [
            "curve25519-dalek, merlin, sha2, serde and bincode compute what they document",
            "the system's random generator is replaced by one seeded from the case",
        ],
        "wall_s": secs(started),
        "violations": violations.len(),
        "violations_found": violations,
    });
    let file = env("PBT_EVIDENCE", &format!("/verif/evidence/{}.json", prop));
    if let Err(e) = std::fs::write(&file, serde_json::to_vec_pretty(&evidence).unwrap()) {
        eprintln!("{}: {}", file, e);
        return 2;
    }
    if !violations.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        eprintln!("errors: {:?}", errors);
        return 3;
    }
    let _ = writeln!(out, "{}: {} cases, {} distinct and non-trivial, {:.1} s", prop, evaluations, nontrivial, secs(started));
    0
}

/// The C interface is compared with the libraries in builds of its own.
const ONE_BUILD: [&str; 3] = ["C13", "C14", "C16"];

/// A quarter as many cases in the build with the other arithmetic, the other way of
/// allocating, and without the checks of debug builds.
fn in_other_build(alt: &str, prop: &str, scale: f64) -> Result<(i32, String, Value), String> {
    let file = std::env::temp_dir().join(format!("pbt-other-{}-{}.json", std::process::id(), prop));
    let r = std::process::Command::new(alt)
        .args(&["run", prop])
        .env("PBT_BUILD", "alt")
        .env("PBT_SCALE", format!("{}", scale * 0.25))
        .env("PBT_EVIDENCE", &file)
        .env_remove("PBT_ALT")
        .stderr(std::process::Stdio::inherit())
        .output()
        .map_err(|e| format!("{}: {}", alt, e))?;
    let v = std::fs::read(&file).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()));
    let _ = std::fs::remove_file(&file);
    let code = r.status.code().unwrap_or(3);
    Ok((code, String::from_utf8_lossy(&r.stdout).to_string(), v.map_err(|e| format!("{}: {}, exit code {}", alt, e, code))?))
}

fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}

fn secs(t: Instant) -> f64 {
    let d = t.elapsed();
    (d.as_secs() as f64 * 10.0 + d.subsec_millis() as f64 / 100.0).round() / 10.0
}

fn write_replay(prop: &str, c: &Check, seed: u64, f: &Failure) -> String {
    let dir = env("PBT_REPLAYS", "/verif/replays");
    let _ = std::fs::create_dir_all(&dir);
    let build = env("PBT_BUILD", "usual");
    let other = if build == "usual" { "" } else { "-other" };
    let path = format!("{}/{}-{}-{}{}.json", dir, prop, c.name, f.case, other);
    let v = json!({
        "property": prop, "check": c.name, "build": build, "seed": seed, "case": f.case,
        "signature": f.sig, "what": f.msg, "notes": f.notes, "choices": f.choices,
        "how": format!("/verif/check replay {}", path),
    });
    let _ = std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap());
    path
}

fn replay(file: &str) -> i32 {
    use std::io::Write;
    let mut out = take_stdout();
    engine::install_panic_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay file");
    let prop = v["property"].as_str().unwrap_or("");
    let list = checks(prop);
    let c = match list.iter().find(|c| v["check"] == c.name) {
        Some(c) => c,
        None => {
            eprintln!("unknown check");
            return 2;
        }
    };
    match engine::replay(c.run, &engine::to_choices(&v["choices"])) {
        Err(e) => {
            eprintln!("{}", e);
            3
        }
        Ok(Some(ref f)) if f.sig == engine::GIVEN_UP => {
            let _ = writeln!(out, "given up: {}", f.msg);
            3
        }
        Ok(None) => {
            let _ = writeln!(out, "holds");
            0
        }
        Ok(Some(f)) => {
            let _ = writeln!(out, "[{}] {}", f.sig, one_line(&f.msg));
            let _ = writeln!(out, "VIOLATION property={} replay={}", prop, file);
            1
        }
    }
}
