//! C18: parameters and keys.  C19: secrets are erased.

use aeonflux::amacs::{self, Rerandomization};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use rand::{ChaChaRng, SeedableRng};
use rand_core::{CryptoRng, Error, RngCore};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{self, fail, Check, Res, Src};
use crate::gen::{self, ScriptRng};
use crate::refimpl as r;

// ---------------------------------------------------------------- C18

/// Remembers what it has given away.
struct Recorder {
    inner: ScriptRng,
    log: Vec<u8>,
}

impl RngCore for Recorder {
    fn next_u32(&mut self) -> u32 {
        let x = self.inner.next_u32();
        self.log.extend(&x.to_le_bytes());
        x
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.inner.next_u64();
        self.log.extend(&x.to_le_bytes());
        x
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.inner.fill_bytes(b);
        self.log.extend(b.iter());
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl CryptoRng for Recorder {}

/// A stream which starts with blocks that are unusable, excluded or extreme.
fn script(s: &mut Src) -> (Vec<u8>, Vec<&'static str>) {
    let mut v = Vec::new();
    let mut what = Vec::new();
    for _ in 0..s.range(0, 12) {
        let (b, w): ([u8; 32], _) = match s.draw(11) {
            0 => (r::enc(&gen::B), "base"),
            1 => ([0u8; 32], "identity"),
            2 => ([0xff; 32], "ones"),
            3 => {
                let mut b = [0u8; 32];
                b[0] = s.byte();
                (b, "small")
            }
            4 => {
                // The identity, or the base point, in a non-canonical form
                let mut p = [0xffu8; 32];
                p[0] = 0xed;
                p[31] = 0x7f;
                if s.chance(1, 2) {
                    p = r::enc(&gen::B);
                    p[31] |= 0x80;
                }
                (p, "non-canonical")
            }
            5 => (r::ORDER, "order"),
            6 => {
                // A point with a bit flipped
                let mut b = r::enc(&gen::random_point(s));
                let i = s.below(256);
                b[i / 8] ^= 1 << (i % 8);
                (b, "altered point")
            }
            7 => (r::enc(&-gen::B), "minus base"),
            8 => (r::enc(&gen::point(s)), "point"),
            _ => (gen::seed32(s), "random"),
        };
        v.extend(&b);
        what.push(w);
    }
    (v, what)
}

fn recorder(script: &[u8], seed: [u8; 32]) -> Recorder {
    Recorder { inner: ScriptRng::new(script.to_vec(), ChaChaRng::from_seed(seed)), log: Vec::new() }
}

/// The same as `f()` with other randomness of the system, in another thread.
fn elsewhere<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(seed: u64, f: F) -> T {
    std::thread::spawn(move || {
        engine::os_seed(seed);
        f()
    })
    .join()
    .unwrap_or_else(|_| internal("a thread panicked"))
}

fn parameters(s: &mut Src) -> Res {
    let (v, what) = script(s);
    let seed = gen::seed32(s);
    for w in what.iter() {
        s.label(w);
    }
    let mut g = recorder(&v, seed);
    let sp = SystemParameters::hunt_and_peck(&mut g);
    let stream = || format!("generator output {}...", gen::hex(&g.log));
    ensure!(sp.g == gen::B && r::enc(&sp.g) == r::enc(&gen::B), "g", "g is {}, {}", gen::hex(&r::enc(&sp.g)), stream());
    ensure!(sp.h != RistrettoPoint::identity(), "identity", "h is the identity, {}", stream());
    ensure!(sp.h != gen::B, "equal", "h is g, {}", stream());
    let h = r::enc(&sp.h);
    ensure!(r::point(&h) == Some(sp.h), "point", "h is no valid point");
    ensure!(
        g.log.windows(32).any(|w| w == h),
        "trapdoor",
        "h = {} wasn't decoded from what the generator returned, {}",
        gen::hex(&h),
        stream()
    );
    // It depends on the generator only.
    let again = SystemParameters::hunt_and_peck(&mut recorder(&v, seed));
    ensure!(again == sp, "function", "different parameters for equal generators, {}", stream());
    let other_os = s.draw(u32::max_value() as u64);
    let w = v.clone();
    let there = elsewhere(other_os, move || SystemParameters::hunt_and_peck(&mut recorder(&w, seed)).to_bytes());
    ensure!(there == sp.to_bytes(), "function", "the system's randomness makes a difference, {}", stream());
    // Other generators give other parameters.
    let mut t = seed;
    let i = s.below(256);
    t[i / 8] ^= 1 << (i % 8);
    let (a, b) = (
        SystemParameters::hunt_and_peck(&mut ChaChaRng::from_seed(seed)),
        SystemParameters::hunt_and_peck(&mut ChaChaRng::from_seed(t)),
    );
    let (c, d) = (
        SystemParameters::hunt_and_peck(&mut ChaChaRng::from_seed(seed)),
        SystemParameters::hunt_and_peck(&mut ChaChaRng::from_seed(t)),
    );
    ensure!(a == c && b == d, "function", "different parameters for one of the seeds {} and {}", gen::hex(&seed), gen::hex(&t));
    for _ in 0..s.draw(3) {
        // Not always the same number of calls
        let e = SystemParameters::hunt_and_peck(&mut ChaChaRng::from_seed(t));
        ensure!(e == b, "function", "different parameters for the seed {}", gen::hex(&t));
    }
    ensure!(a.h != b.h, "distinct", "equal parameters for the seeds {} and {}", gen::hex(&seed), gen::hex(&t));
    // Parameters made of a chosen second generator
    let p = gen::point(s);
    if p != gen::B && p != RistrettoPoint::identity() {
        let x = SystemParameters::from(p);
        let y = SystemParameters::from(r::enc(&p));
        ensure!(x == y && x.g == gen::B && x.h == p, "chosen", "wrong parameters from the chosen point {}", gen::hex(&r::enc(&p)));
    }
    if what.len() > 0 {
        s.interesting();
    }
    s.note(format!("{:?}", what));
    Ok(())
}

fn scalars_of(b: &[u8]) -> Vec<Vec<u8>> {
    b.chunks(32).map(|c| c.to_vec()).collect()
}

fn keys(s: &mut Src) -> Res {
    let n = if s.chance(1, 2) { gen::count(s, 0, 8) } else { *s.pick(&[0usize, 1, 2, 3, 5, 8, 16, 40]) };
    let h = gen::point(s);
    let seed = gen::seed32(s);
    let (v, what) = if s.chance(1, 2) { script(s) } else { (vec![], vec![]) };
    let k = amacs::SecretKey::new(n, &mut recorder(&v, seed));
    ensure!(k.xn.len() == n && k.len() == n + 1, "size", "a key for {} attributes has {} scalars", n, k.xn.len());
    let p = k.get_public_key(&h);
    ensure!(p.Xn.len() == n && p.len() == n, "size", "a public key for {} attributes has {} points", n, p.Xn.len());
    for i in 0..n {
        ensure!(
            r::enc(&p.Xn[i]) == r::enc(&(h * k.xn[i])),
            "public",
            "X{} = {} isn't h * x{}, h = {}, key {}",
            i + 1,
            gen::hex(&r::enc(&p.Xn[i])),
            i + 1,
            gen::hex(&r::enc(&h)),
            gen::hex(&k.to_bytes())
        );
    }
    for b in scalars_of(&k.to_bytes()) {
        ensure!(r::scalar(&b).is_some(), "canonical", "a secret scalar isn't canonical: {}", gen::hex(&b));
    }
    let again = amacs::SecretKey::new(n, &mut recorder(&v, seed));
    ensure!(again.to_bytes() == k.to_bytes(), "function", "different keys for equal generators");
    let (w, os) = (v.clone(), s.draw(u32::max_value() as u64));
    let there = elsewhere(os, move || amacs::SecretKey::new(n, &mut recorder(&w, seed)).to_bytes());
    ensure!(there == k.to_bytes(), "function", "the system's randomness makes a difference");
    // Two generators without a script: all scalars of both keys are different and large.
    let mut t = seed;
    let i = s.below(256);
    t[i / 8] ^= 1 << (i % 8);
    let a = amacs::SecretKey::new(n, &mut ChaChaRng::from_seed(seed));
    let b = amacs::SecretKey::new(n, &mut ChaChaRng::from_seed(t));
    let mut all = scalars_of(&a.to_bytes());
    all.extend(scalars_of(&b.to_bytes()));
    for (i, x) in all.iter().enumerate() {
        ensure!(x[20..].iter().any(|c| *c != 0), "entropy", "scalar {} is small: {}", i, gen::hex(x));
        for y in all[..i].iter() {
            ensure!(x != y, "distinct", "equal scalars in keys of {} attributes from seeds {} and {}", n, gen::hex(&seed), gen::hex(&t));
            let (x, y) = (r::scalar(x).unwrap(), r::scalar(y).unwrap());
            ensure!(x + y != Scalar::zero(), "distinct", "opposite scalars in keys of {} attributes", n);
        }
    }
    // Key pairs
    let k = amacs::Keypair::new(&h, &mut recorder(&v, seed));
    ensure!(k.public.Xn.len() == 1 && k.secret.xn.len() == 1, "size", "a key pair has {} and {} parts", k.public.len(), k.secret.len());
    ensure!(k.public.Xn[0] == h * k.secret.xn[0], "public", "a key pair's public key isn't h * x1, h = {}", gen::hex(&r::enc(&h)));
    let e = elgamal::Keypair::generate(&mut recorder(&v, seed));
    let x = Scalar::from(e.secret.clone());
    ensure!(r::enc(&RistrettoPoint::from(e.public)) == r::enc(&(gen::B * x)), "public", "an elGamal public key isn't the base times {}", gen::hex(x.as_bytes()));
    for _ in 0..s.range(1, 3) {
        let l = amacs::Keypair::new(&h, &mut recorder(&v, seed));
        ensure!(l.to_bytes() == k.to_bytes(), "function", "different key pairs for equal generators");
        let f = elgamal::Keypair::generate(&mut recorder(&v, seed));
        ensure!(f.to_bytes() == e.to_bytes(), "function", "different elGamal keys for equal generators");
        let c = amacs::SecretKey::new(n, &mut ChaChaRng::from_seed(t));
        ensure!(c.to_bytes() == b.to_bytes(), "function", "different keys for the seed {}", gen::hex(&t));
    }
    s.label(&format!("{} attributes", n));
    s.interesting();
    s.note(format!("{} attributes, generator {:?}", n, what));
    Ok(())
}

/// Created and restored issuers are equivalent.
fn issuers(s: &mut Src) -> Res {
    let y = gen::sys(s);
    let seed = gen::seed32(s);
    let (v, what) = if s.chance(1, 2) { script(s) } else { (vec![], vec![]) };
    let signal = SignalIssuer::create(y.sp, &mut recorder(&v, seed));
    let plain = Issuer::create(y.sp, &mut recorder(&v, seed));
    ensure!(signal.to_bytes() == plain.to_bytes(), "function", "issuers made with equal generators differ");
    let k = &signal.issuer.keypair;
    ensure!(signal.issuer.system_parameters == y.sp, "parameters", "an issuer has other system parameters");
    ensure!(k.secret.xn.len() == 1, "size", "an issuer's key is for {} attributes", k.secret.xn.len());
    ensure!(
        k.public.Xn == vec![y.sp.h * k.secret.xn[0]],
        "public",
        "an issuer's public key isn't h * x1: {}",
        gen::hex(&signal.to_bytes())
    );
    let ip = signal.get_issuer_parameters();
    ensure!(ip == k.public && plain.get_issuer_parameters() == ip, "public", "the issuer publishes another key");
    // Restored in one of several ways
    let restored = match s.draw(3) {
        0 => SignalIssuer::new(y.sp, k.clone()),
        1 => SignalIssuer::new(y.sp, amacs::Keypair::from_bytes(&k.to_bytes()).map_err(broken("decode"))?),
        2 => SignalIssuer { issuer: Issuer::new(y.sp, k.clone()) },
        _ => SignalIssuer::from_bytes(&signal.to_bytes()).map_err(broken("decode"))?,
    };
    ensure!(restored.to_bytes() == signal.to_bytes(), "restored", "the restored issuer is another: {} and {}", gen::hex(&restored.to_bytes()), gen::hex(&signal.to_bytes()));
    ensure!(restored.get_issuer_parameters() == ip, "restored", "the restored issuer publishes another key");
    // Both issue the same, and accept what the other has issued.
    let d = gen::digits(s);
    let t = gen::seed32(s);
    let a = signal.issue(&d, &mut ChaChaRng::from_seed(t)).map_err(broken("issue"))?;
    let b = restored.issue(&d, &mut ChaChaRng::from_seed(t)).map_err(broken("issue"))?;
    ensure!(a.to_bytes()[..128] == b.to_bytes()[..128], "restored", "the restored issuer issues another credential");
    let e = RosterEntryCommitment::create(&d, &y.sp, &mut gen::rng(s)).map_err(broken("entry"))?;
    for (i, other, what) in &[(&a, &restored, "created"), (&b, &signal, "restored")] {
        let mut u = SignalUser::new(y.sp, ip.clone(), None, &d).map_err(broken("user"))?;
        if let Err(e) = u.obtain_finish(Some(i)) {
            return fail("restored", format!("the user rejects what the {} issuer issued: {:?}", what, e));
        }
        let p = show(s, &u, &e)?;
        match other.verify(p) {
            Err(e) => return fail("restored", format!("the other issuer rejects what the {} issuer issued: {:?}", what, e)),
            Ok(v) => ensure!(other.verify_roster_membership(&v).is_ok(), "restored", "the other issuer rejects the membership"),
        }
    }
    s.interesting();
    s.note(format!("generator {:?}, number {}", what, gen::dstr(&d)));
    Ok(())
}

pub static C18: &[Check] = &[
    Check {
        name: "parameters",
        quick: 40_000,
        thorough: 2_000_000,
        rule: "the generator first returns at least one crafted block",
        run: parameters,
    },
    Check {
        name: "keys",
        quick: 12_000,
        thorough: 400_000,
        rule: "every case: keys for up to 70 attributes under a generated base",
        run: keys,
    },
    Check {
        name: "issuers",
        quick: 10_000,
        thorough: 300_000,
        rule: "every case: an issuer created and restored, each accepting what the other issued",
        run: issuers,
    },
];

// ---------------------------------------------------------------- C19

/// The allocator of this program, which looks for secrets in what is freed.
pub mod watch {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

    pub struct Watching;

    static ARMED: AtomicBool = AtomicBool::new(false);
    static CLEAN: AtomicBool = AtomicBool::new(false);
    static FOUND: AtomicUsize = AtomicUsize::new(0);
    static FREED: AtomicUsize = AtomicUsize::new(0);
    const MAX: usize = 1 << 12;
    static mut NEEDLES: [[u8; 8]; MAX] = [[0; 8]; MAX];
    static mut COUNT: usize = 0;

    /// Look for any eight bytes in a row of any of the secrets.
    unsafe fn scan(p: *const u8, n: usize) -> usize {
        let mut hits = 0;
        if n < 8 {
            return 0;
        }
        for i in 0..=n - 8 {
            let w = (p.add(i) as *const [u8; 8]).read_volatile();
            if w == [0; 8] {
                continue;
            }
            for k in 0..COUNT {
                if NEEDLES[k] == w {
                    hits += 1;
                    break;
                }
            }
        }
        hits
    }

    unsafe impl GlobalAlloc for Watching {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            // Unused parts of a block mustn't hold what somebody else left there.
            if CLEAN.load(Ordering::Relaxed) {
                return System.alloc_zeroed(l);
            }
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if ARMED.load(Ordering::Relaxed) {
                FREED.fetch_add(1, Ordering::Relaxed);
                FOUND.fetch_add(scan(p, l.size()), Ordering::Relaxed);
            }
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if !CLEAN.load(Ordering::Relaxed) {
                return System.realloc(p, l, n);
            }
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, if n < l.size() { n } else { l.size() });
                self.dealloc(p, l);
            }
            q
        }
    }

    fn needles(secrets: &[[u8; 32]]) {
        unsafe {
            COUNT = 0;
            for s in secrets {
                for w in s.windows(8) {
                    // Few nonzero bytes could be there by accident.
                    if COUNT < MAX && w.iter().filter(|c| **c != 0).count() >= 5 {
                        NEEDLES[COUNT].copy_from_slice(w);
                        COUNT += 1;
                    }
                }
            }
        }
    }

    /// Run `f`, and count places in freed memory where a part of a secret is.
    pub fn during<F: FnOnce()>(secrets: &[[u8; 32]], f: F) -> (usize, usize) {
        start(secrets);
        arm();
        f();
        stop()
    }

    pub fn start(secrets: &[[u8; 32]]) {
        needles(secrets);
        FOUND.store(0, Ordering::SeqCst);
        FREED.store(0, Ordering::SeqCst);
    }

    /// From now on.
    pub fn clean() {
        CLEAN.store(true, Ordering::SeqCst);
    }

    pub fn arm() {
        ARMED.store(true, Ordering::SeqCst);
    }

    pub fn stop() -> (usize, usize) {
        ARMED.store(false, Ordering::SeqCst);
        (FOUND.load(Ordering::SeqCst), FREED.load(Ordering::SeqCst))
    }

    /// Count such places in memory that need not be valid any more.
    pub unsafe fn within(secrets: &[[u8; 32]], p: *const u8, n: usize) -> usize {
        needles(secrets);
        scan(p, n)
    }
}

/// The optimiser must not know what happens to it.
fn opaque<T>(x: &T) {
    unsafe { asm!("" : : "r"(x as *const T) : "memory" : "volatile") }
}

fn bytes32(x: &Scalar) -> [u8; 32] {
    *x.as_bytes()
}

/// A value, dropped in one of several places.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    InPlace,
    Boxed,
    Vector,
    Optional,
    Stack,
    Assigned,
}
const PLACES: [Place; 6] = [Place::InPlace, Place::Boxed, Place::Vector, Place::Optional, Place::Stack, Place::Assigned];

struct Spot {
    at: *const u8,
}

/// The value is dropped at the end of this function; where it was is known to the caller.
#[inline(never)]
fn on_stack<T>(make: &dyn Fn() -> T, spot: &mut Spot) {
    let x = make();
    opaque(&x);
    spot.at = &x as *const T as *const u8;
    opaque(&spot.at);
    watch::arm();
}

/// How many remains of the secrets there are after a value has been dropped.
fn remains<T>(place: Place, secrets: &[[u8; 32]], make: &dyn Fn() -> T) -> (usize, usize) {
    match place {
        Place::InPlace => {
            let mut b: Vec<T> = Vec::with_capacity(1);
            b.push(make());
            opaque(&b[0]);
            let p = b.as_mut_ptr();
            let (found, freed) = watch::during(secrets, || unsafe { std::ptr::drop_in_place(p) });
            let own = unsafe { watch::within(secrets, p as *const u8, std::mem::size_of::<T>()) };
            unsafe { b.set_len(0) };
            (found + own, freed + 1)
        }
        Place::Boxed => {
            let b = Box::new(make());
            opaque(&*b);
            watch::during(secrets, move || drop(b))
        }
        Place::Vector => {
            let mut b: Vec<T> = Vec::with_capacity(4);
            b.push(make());
            b.push(make());
            opaque(&b[0]);
            watch::during(secrets, move || drop(b))
        }
        Place::Optional => {
            let mut b = Box::new(Some(make()));
            opaque(&*b);
            let p = &mut *b as *mut Option<T>;
            let (found, freed) = watch::during(secrets, || unsafe { std::ptr::drop_in_place(p) });
            let own = unsafe { watch::within(secrets, p as *const u8, std::mem::size_of::<Option<T>>()) };
            std::mem::forget(b);
            (found + own, freed + 1)
        }
        Place::Stack => {
            let mut spot = Spot { at: std::ptr::null() };
            let mut own = 0;
            watch::start(secrets);
            on_stack(make, &mut spot);
            let (found, freed) = watch::stop();
            let n = std::mem::size_of::<T>();
            // What is there now: copied first, since further calls use the stack, too.
            let mut copy = [0u8; 1024];
            if n <= 1024 {
                for i in 0..n {
                    copy[i] = unsafe { spot.at.add(i).read_volatile() };
                }
                own = unsafe { watch::within(secrets, copy.as_ptr(), n) };
            }
            (found + own, freed + 1)
        }
        Place::Assigned => {
            // Only what it owned is freed, its own storage is reused.
            let mut b = Box::new(Some(make()));
            opaque(&*b);
            watch::during(secrets, || {
                *b = None;
                opaque(&*b);
            })
        }
    }
}

/// Does the memory hold the secret before the drop?  Otherwise nothing would be shown.
fn present<T>(secrets: &[[u8; 32]], make: &dyn Fn() -> T, freed_without: bool) -> usize {
    let b = Box::new(make());
    let mut n = unsafe { watch::within(secrets, &*b as *const T as *const u8, std::mem::size_of::<T>()) };
    if freed_without {
        n += 1;
    }
    drop(b);
    n
}

fn random_secret(s: &mut Src) -> Scalar {
    let x = match s.draw(3) {
        0 => -gen::nonzero_scalar(s),
        _ => gen::random_scalar(s),
    };
    // A small one couldn't be recognised.
    if x.as_bytes()[8..24].iter().filter(|c| **c != 0).count() < 8 {
        return gen::random_scalar(s);
    }
    x
}

/// A generator which makes `Scalar::random()` return these.
fn giving(v: &[Scalar]) -> ScriptRng {
    let mut b = Vec::new();
    for x in v {
        b.extend(x.as_bytes());
        b.extend(&[0u8; 32]);
    }
    ScriptRng::new(b, ChaChaRng::from_seed([7; 32]))
}

fn erased(s: &mut Src) -> Res {
    watch::clean();
    let n = *s.pick(&[1usize, 1, 2, 3, 4, 7, 16, 33, 60]);
    let xs: Vec<Scalar> = (0..=n).map(|_| random_secret(s)).collect();
    let all: Vec<[u8; 32]> = xs.iter().map(bytes32).collect();
    let one = &all[..1];
    let place = *s.pick(&PLACES);
    let p = gen::B;
    let sp = SystemParameters { g: p, h: p + p };
    let amac = || amacs::SecretKey { x0: xs[0], xn: xs[1..].to_vec() };
    let pair = || amacs::Keypair { public: amacs::PublicKey { Xn: vec![p; n] }, secret: amac() };
    let elg = || elgamal::SecretKey::from_bytes(&all[0]);
    if elg().is_err() {
        return fail(engine::GIVEN_UP, "an elGamal key can't be decoded".to_string());
    }
    let elg_pair = || elgamal::Keypair { secret: elg().ok().unwrap(), public: elgamal::PublicKey::from(&elg().ok().unwrap()) };
    let user = || aeonflux::user::User {
        system_parameters: sp,
        issuer_parameters: amacs::PublicKey { Xn: vec![p] },
        key: Some(elg_pair()),
        // With `None` there would be unused storage, with anything in it.
        credential: Some(aeonflux::credential::Credential {
            mac: amacs::Tag { nonce: p, mac: p },
            attributes: Vec::new(),
        }),
    };
    macro_rules! check {
        ($name:expr, $secrets:expr, $inline:expr, $make:expr) => {{
            let make = $make;
            let seen = present($secrets, &make, !$inline);
            ensure!(seen > 0, engine::GIVEN_UP, "{}: its secrets aren't where they are looked for", $name);
            let (found, blocks) = remains(place, $secrets, &make);
            (found, blocks, $name)
        }};
    }
    let (found, blocks, name) = match s.below(14) {
        0 => check!("amacs::SecretKey", &all, true, amac),
        1 => check!("amacs::Keypair", &all, true, pair),
        2 => check!("Issuer", &all, true, || Issuer { system_parameters: sp, keypair: pair() }),
        3 => check!("SignalIssuer", &all, true, || SignalIssuer { issuer: Issuer { system_parameters: sp, keypair: pair() } }),
        4 => check!("elgamal::SecretKey", one, true, || elg().ok().unwrap()),
        5 => check!("elgamal::Keypair", one, true, elg_pair),
        6 => check!("User", one, true, user),
        7 => check!("SignalUser", one, true, || SignalUser { phone_number: PhoneNumber(Scalar::zero()), user: user() }),
        8 => check!("Ephemeral", one, true, || Ephemeral::from(xs[0])),
        9 => check!("RosterEntryCommitment", one, true, || RosterEntryCommitment {
            commitment: signal_credential::phone_number::CommittedPhoneNumber(aeonflux::pedersen::Commitment::to(
                &p,
                &Ephemeral::from(Scalar::zero()),
                &p
            )),
            opening: Ephemeral::from(xs[0]),
        }),
        10 => check!("Nonces", &all, false, || {
            let mut g = giving(&xs);
            Nonces::new(&mut g, n + 1)
        }),
        11 => check!("Rerandomization", one, true, || Rerandomization::new(&mut giving(&xs[..1]))),
        12 => check!("a clone of amacs::SecretKey", &all, true, || amac().clone()),
        _ => check!("a clone of Nonces", &all, false, || Nonces::new(&mut giving(&xs), n + 1).clone()),
    };
    ensure!(found == 0, "left", "{} of {} scalars, dropped in {:?}: parts of its secrets are left at {} places", name, n + 1, place, found);
    s.label(name);
    s.label(&format!("{:?}", place));
    if blocks > 0 {
        s.interesting();
    }
    s.note(format!("{} with {} scalars, {:?}", name, n + 1, place));
    Ok(())
}

pub static C19: &[Check] = &[Check {
    name: "erased",
    quick: 200_000,
    thorough: 6_000_000,
    rule: "at least one storage location or heap block was inspected after the value had been dropped",
    run: erased,
}];
