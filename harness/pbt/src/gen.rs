//! Generators shared by the checks.

use aeonflux::amacs;
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use rand::{ChaChaRng, SeedableRng};
use rand_core::{CryptoRng, Error, RngCore};
use signal_credential::issuer::SignalIssuer;

use crate::engine::{Mix, Src};
use crate::refimpl as r;

pub const B: RistrettoPoint = RISTRETTO_BASEPOINT_POINT;

/// The seed of random data, which differs from all others of the case even if
/// their choices are shrunk to be equal.
fn place(s: &mut Src) -> u64 {
    let n = s.choices.len() as u64;
    s.draw(u32::max_value() as u64) | (n + 1) << 32
}

pub fn seed32(s: &mut Src) -> [u8; 32] {
    let mut m = Mix(place(s));
    let mut b = [0u8; 32];
    for c in b.iter_mut() {
        *c = m.next() as u8;
    }
    b
}

/// Much like a number, but with bytes which are no digits.
pub fn no_digits(s: &mut Src, d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    if v.is_empty() || (v.len() < 26 && s.chance(1, 3)) {
        let i = s.below(v.len() + 1);
        v.insert(i, *s.pick(&[10u8, 11, 13, 15, 32, 43, 45, 48, 128, 255]));
    } else {
        let times = s.range(1, 3);
        for _ in 0..times {
            let i = s.below(v.len());
            let x = v[i] % 16 % 10;
            v[i] = match s.draw(5) {
                0 => x + 16 * s.range(1, 15) as u8,
                1 => x + 10 * s.range(1, 24) as u8,
                2 => x | 0x80,
                3 => x + 48,
                4 => 15,
                _ => s.range(10, 255) as u8,
            };
        }
    }
    v
}

/// How many parts something has: mostly `min` to `usual`, seldom many more.
pub fn count(s: &mut Src, min: usize, usual: usize) -> usize {
    match s.draw(39) {
        39 => s.range(min, 70),
        37 | 38 => s.range(min, 33),
        35 | 36 => s.range(min, 2 * usual + 2),
        _ => s.range(min, usual),
    }
}

/// The caller's generator.
pub fn rng(s: &mut Src) -> ChaChaRng {
    ChaChaRng::from_seed(seed32(s))
}

pub fn random_scalar(s: &mut Src) -> Scalar {
    let mut m = Mix(place(s) ^ 0x5ca1_a55c);
    let mut b = [0u8; 64];
    for c in b.iter_mut() {
        *c = m.next() as u8;
    }
    Scalar::from_bytes_mod_order_wide(&b)
}

/// Another point whose encoding differs from that of `x` in a few bytes only.
pub fn near_point(s: &mut Src, x: &RistrettoPoint) -> RistrettoPoint {
    let enc = x.compress().to_bytes();
    let from = s.below(32);
    let n = *s.pick(&[1usize, 1, 2, 4, 8, 16, 24, 31]);
    let mut m = Mix(place(s) ^ 0x4ea4_0000);
    for _ in 0..200 {
        let mut b = enc;
        for i in 0..n {
            b[(from + i) % 32] = m.next() as u8;
        }
        if b != enc {
            if let Some(y) = CompressedRistretto(b).decompress() {
                return y;
            }
        }
    }
    -x
}

pub fn random_point(s: &mut Src) -> RistrettoPoint {
    let mut m = Mix(place(s) ^ 0x9017_0000);
    let mut b = [0u8; 64];
    for c in b.iter_mut() {
        *c = m.next() as u8;
    }
    RistrettoPoint::from_uniform_bytes(&b)
}

/// Any scalar, extreme ones included.
pub fn scalar(s: &mut Src) -> Scalar {
    match s.draw(11) {
        0 => Scalar::from(s.draw(3)),
        1 => -Scalar::from(s.draw(3)),
        2 => {
            // A power of two, perhaps minus one.
            let k = s.below(253);
            let mut b = [0u8; 32];
            b[k / 8] = 1 << (k % 8);
            let x = Scalar::from_bytes_mod_order(b);
            if s.chance(1, 2) { x - Scalar::one() } else { x }
        }
        3 => {
            let d = digits(s);
            r::phone_scalar(&d).unwrap()
        }
        4 => Scalar::from(2u64).invert() * Scalar::from(s.draw(5)),
        _ => random_scalar(s),
    }
}

pub fn nonzero_scalar(s: &mut Src) -> Scalar {
    let x = scalar(s);
    if x == Scalar::zero() { Scalar::one() } else { x }
}

/// Any point, special ones included.
pub fn point(s: &mut Src) -> RistrettoPoint {
    match s.draw(7) {
        0 => RistrettoPoint::identity(),
        1 => B,
        2 => -B,
        3 => B * scalar(s),
        _ => random_point(s),
    }
}

/// The digits of a phone number, all of 0 to 9, and none to 26 of them.
pub fn digits(s: &mut Src) -> Vec<u8> {
    let n = match s.draw(7) {
        0 => s.range(1, 3),
        1 => 0,
        2 => 26,
        3 => s.range(20, 26),
        4 => s.range(0, 26),
        _ => s.range(9, 14),
    };
    digits_n(s, n)
}

pub fn digits_n(s: &mut Src, n: usize) -> Vec<u8> {
    match s.draw(5) {
        // mostly zeros
        0 => (0..n).map(|_| if s.chance(1, 4) { s.draw(9) as u8 } else { 0 }).collect(),
        1 => {
            let d = s.draw(9) as u8;
            vec![d; n]
        }
        _ => (0..n).map(|_| s.draw(9) as u8).collect(),
    }
}

/// Phone numbers which are accepted by the C interface, too.
pub fn digits_nonempty(s: &mut Src) -> Vec<u8> {
    let mut d = digits(s);
    if d.is_empty() {
        d.push(s.draw(9) as u8);
    }
    d
}

/// A phone number which differs from `d` but is near to it.
pub fn near(s: &mut Src, d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    match s.draw(6) {
        0 if v.len() < 26 => v.insert(0, 0),
        1 if v.len() < 26 => v.push(0),
        2 if !v.is_empty() => {
            v.pop();
        }
        3 if !v.is_empty() => {
            v.remove(0);
        }
        4 if v.len() > 1 => {
            let i = s.below(v.len() - 1);
            v.swap(i, i + 1);
        }
        5 if !v.is_empty() => {
            let i = s.below(v.len());
            v[i] = (v[i] + s.range(1, 9) as u8) % 10;
        }
        _ => v = digits(s),
    }
    if v == d {
        // Change the last digit, or add one.
        if v.is_empty() {
            v.push(0);
        } else {
            let n = v.len();
            v[n - 1] = (v[n - 1] + 1) % 10;
        }
    }
    v
}

/// System parameters, and the discrete logarithm of h if the case knows it.
#[derive(Clone, Copy)]
pub struct Sys {
    pub sp: SystemParameters,
    pub a: Option<Scalar>,
}

pub fn sys(s: &mut Src) -> Sys {
    match s.draw(7) % 5 {
        0 => {
            let mut a = nonzero_scalar(s);
            if a == Scalar::one() {
                a = Scalar::from(2u64);
            }
            Sys { sp: SystemParameters::from(B * a), a: Some(a) }
        }
        1 => {
            let p = random_point(s);
            Sys { sp: SystemParameters::from(p.compress().to_bytes()), a: None }
        }
        2 => {
            let p = random_point(s);
            Sys { sp: SystemParameters::from(p), a: None }
        }
        3 => {
            let mut g = rng(s);
            Sys { sp: SystemParameters::hunt_and_peck(&mut g), a: None }
        }
        _ => other_base(s),
    }
}

/// Parameters whose g is not the standard base point, which only `from_bytes()` gives.
fn other_base(s: &mut Src) -> Sys {
    let mut b = random_point(s).compress().to_bytes().to_vec();
    b.extend(&random_point(s).compress().to_bytes());
    Sys { sp: SystemParameters::from_bytes(&b).unwrap(), a: None }
}

pub fn trapdoor_sys(s: &mut Src) -> Sys {
    let a = random_scalar(s);
    Sys { sp: SystemParameters::from(B * a), a: Some(a) }
}

pub fn ref_params(sp: &SystemParameters) -> r::Params {
    r::Params { g: sp.g, h: sp.h }
}

pub fn key(s: &mut Src) -> r::Key {
    r::Key { x0: scalar(s), x1: scalar(s) }
}

pub fn random_key(s: &mut Src) -> r::Key {
    r::Key { x0: random_scalar(s), x1: random_scalar(s) }
}

pub fn keypair(sp: &SystemParameters, k: &r::Key) -> amacs::Keypair {
    let secret = amacs::SecretKey { x0: k.x0, xn: vec![k.x1] };
    let public = amacs::PublicKey { Xn: vec![sp.h * k.x1] };
    amacs::Keypair { public, secret }
}

/// An issuer, made in any of the supported ways.
pub fn issuer(s: &mut Src, sp: SystemParameters) -> SignalIssuer {
    match s.draw(3) {
        0 => {
            let k = random_key(s);
            SignalIssuer::new(sp, keypair(&sp, &k))
        }
        1 => {
            let mut k = key(s);
            // A key with x1 = 0 is useless but valid; with x0 = x1 = 0 all tags are trivial.
            if k.x0 == Scalar::zero() && k.x1 == Scalar::zero() {
                k.x0 = Scalar::one();
            }
            SignalIssuer::new(sp, keypair(&sp, &k))
        }
        _ => SignalIssuer::create(sp, &mut rng(s)),
    }
}

pub fn issuer_key(i: &SignalIssuer) -> r::Key {
    r::Key { x0: i.issuer.keypair.secret.x0, x1: i.issuer.keypair.secret.xn[0] }
}

/// Encodings which are worth trying where a point is expected.
pub fn point_bytes(s: &mut Src) -> [u8; 32] {
    match s.draw(9) {
        0 => [0u8; 32],
        1 => B.compress().to_bytes(),
        2 => {
            // A valid encoding, with a bit flipped.
            let mut b = random_point(s).compress().to_bytes();
            let i = s.below(256);
            b[i / 8] ^= 1 << (i % 8);
            b
        }
        3 => {
            // A valid encoding with p = 2^255 - 19 added, if it fits, i.e. not canonical.
            let mut b = [0u8; 32];
            b[0] = s.draw(18) as u8;
            add_p(&mut b);
            b
        }
        4 => {
            // The negative of a valid encoding: an odd field element.
            let b = random_point(s).compress().to_bytes();
            neg_mod_p(&b)
        }
        5 => {
            let mut b = random_point(s).compress().to_bytes();
            b[31] |= 0x80;
            b
        }
        6 => {
            let mut b = [0u8; 32];
            for c in b.iter_mut() {
                *c = s.byte();
            }
            b
        }
        _ => random_point(s).compress().to_bytes(),
    }
}

fn add_p(b: &mut [u8; 32]) {
    let mut carry = 0u16;
    for i in 0..32 {
        let p: u16 = if i == 0 { 0xed } else if i == 31 { 0x7f } else { 0xff };
        let x = b[i] as u16 + p + carry;
        b[i] = x as u8;
        carry = x >> 8;
    }
}

fn neg_mod_p(b: &[u8; 32]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut borrow = 0i16;
    for i in 0..32 {
        let p: i16 = if i == 0 { 0xed } else if i == 31 { 0x7f } else { 0xff };
        let mut x = p - b[i] as i16 - borrow;
        borrow = 0;
        if x < 0 {
            x += 256;
            borrow = 1;
        }
        out[i] = x as u8;
    }
    out
}

/// Encodings which are worth trying where a scalar is expected.
pub fn scalar_bytes(s: &mut Src) -> [u8; 32] {
    match s.draw(9) {
        0 => [0u8; 32],
        1 => r::ORDER,
        2 => {
            // The order plus or minus a little
            let mut b = r::ORDER;
            let d = s.range(1, 19) as u8;
            if s.chance(1, 2) { b[0] += d.min(18) } else { b[0] -= d }
            b
        }
        3 => {
            // A canonical scalar plus the order.
            let mut b = [0u8; 32];
            b.copy_from_slice(scalar(s).as_bytes());
            let times = s.range(1, 7);
            for _ in 0..times {
                add_order(&mut b);
            }
            b
        }
        4 => [0xffu8; 32],
        5 => {
            let mut b = [0u8; 32];
            b.copy_from_slice(random_scalar(s).as_bytes());
            b[31] |= 1 << s.range(4, 7);
            b
        }
        6 => {
            let mut b = [0u8; 32];
            for c in b.iter_mut() {
                *c = s.byte();
            }
            b
        }
        _ => {
            let mut b = [0u8; 32];
            b.copy_from_slice(scalar(s).as_bytes());
            b
        }
    }
}

pub fn add_order(b: &mut [u8; 32]) {
    let mut carry = 0u16;
    for i in 0..32 {
        let x = b[i] as u16 + r::ORDER[i] as u16 + carry;
        b[i] = x as u8;
        carry = x >> 8;
    }
}

/// A generator which returns given bytes first, then those of another generator.
pub struct ScriptRng {
    pub script: Vec<u8>,
    pub pos: usize,
    pub then: ChaChaRng,
}

impl ScriptRng {
    pub fn new(script: Vec<u8>, then: ChaChaRng) -> ScriptRng {
        ScriptRng { script, pos: 0, then }
    }
}

impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        b.iter().rev().fold(0, |a, c| (a << 8) | *c as u32)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        b.iter().rev().fold(0, |a, c| (a << 8) | *c as u64)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.iter_mut() {
            if self.pos < self.script.len() {
                *c = self.script[self.pos];
                self.pos += 1;
            } else {
                let mut one = [0u8; 1];
                self.then.fill_bytes(&mut one);
                *c = one[0];
            }
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ScriptRng {}

/// A generator which always returns the same byte.
pub struct ConstRng(pub u8);

impl RngCore for ConstRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        u64::max_value() / 255 * self.0 as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.iter_mut() {
            *c = self.0;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ConstRng {}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}

pub fn dstr(d: &[u8]) -> String {
    d.iter().map(|c| if *c < 10 { (b'0' + c) as char } else { '?' }).collect()
}

/// Change `b` in one of several ways, so that it differs from what it was.
pub fn alter_bytes(s: &mut Src, b: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = b.to_vec();
    let how = match s.draw(8) {
        0 | 1 | 2 if !v.is_empty() => {
            let i = s.below(v.len() * 8);
            v[i / 8] ^= 1 << (i % 8);
            "bit"
        }
        3 if v.len() >= 32 => {
            let n = v.len() / 32;
            let i = s.below(n) * 32;
            let c = if s.chance(1, 2) { point_bytes(s) } else { scalar_bytes(s) };
            v[i..i + 32].copy_from_slice(&c);
            "block"
        }
        4 if v.len() >= 64 => {
            // Exchange two blocks.
            let n = v.len() / 32;
            let i = s.below(n) * 32;
            let j = s.below(n) * 32;
            for k in 0..32 {
                v.swap(i + k, j + k);
            }
            "swap"
        }
        5 if !v.is_empty() => {
            let n = s.below(v.len());
            v.truncate(n);
            "truncated"
        }
        6 => {
            let n = s.range(1, 40);
            let c = if s.chance(1, 2) { 0 } else { s.byte() };
            for _ in 0..n {
                v.push(c);
            }
            "extended"
        }
        7 if !v.is_empty() => {
            let i = s.below(v.len());
            v[i] = s.byte();
            "byte"
        }
        _ => {
            if v.is_empty() {
                v.push(s.byte());
            } else {
                let i = s.below(v.len());
                v.remove(i);
            }
            "removed"
        }
    };
    (v, how)
}

pub fn decompress(b: &[u8]) -> Option<RistrettoPoint> {
    if b.len() != 32 {
        return None;
    }
    let mut t = [0u8; 32];
    t.copy_from_slice(b);
    CompressedRistretto(t).decompress()
}

/// A generator one bit of whose output is flipped.
pub struct FlipRng {
    pub rng: ChaChaRng,
    pub flip: Option<u64>,
    pub drawn: u64,
}

impl FlipRng {
    fn pass(&mut self, bits: u64) -> Option<u64> {
        let start = self.drawn;
        self.drawn += bits;
        match self.flip {
            Some(f) if f >= start && f < self.drawn => Some(f - start),
            _ => None,
        }
    }
}

impl RngCore for FlipRng {
    fn next_u32(&mut self) -> u32 {
        let x = self.rng.next_u32();
        self.pass(32).map_or(x, |i| x ^ 1 << i)
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.rng.next_u64();
        self.pass(64).map_or(x, |i| x ^ 1 << i)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.rng.fill_bytes(dest);
        if let Some(i) = self.pass(8 * dest.len() as u64) {
            dest[(i / 8) as usize] ^= 1 << (i % 8);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for FlipRng {}
