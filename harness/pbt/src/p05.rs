//! C05: algebraic MACs.  C06: phone numbers.  C07: commitments.  C08: encryption.

use aeonflux::amacs::{self, Message, Rerandomization, SecretKey, Tag};
use aeonflux::elgamal;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen::Commitment;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, EncryptedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

use crate::common::*;
use crate::engine::{catching, Check, Res, Src};
use crate::gen;
use crate::refimpl as r;

fn exponent(k: &SecretKey, m: &[Scalar]) -> Scalar {
    let mut e = k.x0;
    for (x, m) in k.xn.iter().zip(m) {
        e += x * m;
    }
    e
}

fn verifies(k: &SecretKey, t: &Tag, m: &[Scalar]) -> bool {
    k.xn.len() == m.len() && t.nonce != RistrettoPoint::identity() && t.mac == t.nonce * exponent(k, m)
}

fn compare(k: &SecretKey, t: &Tag, m: &[Scalar], what: &str) -> Res {
    let want = verifies(k, t, m);
    let got = k.verify(t, &Message(m.to_vec()));
    ensure!(
        got.is_ok() == want,
        if want { "mac-rejected" } else { "mac-accepted" },
        "{}: the tag {} of a message of {} elements under a key of {}",
        what,
        if want { "was rejected" } else { "was accepted" },
        m.len(),
        k.xn.len()
    );
    Ok(())
}

fn mac_key(s: &mut Src, n: usize) -> SecretKey {
    match s.draw(2) {
        0 => SecretKey::new(n, &mut gen::rng(s)),
        _ => SecretKey { x0: gen::scalar(s), xn: (0..n).map(|_| gen::scalar(s)).collect() },
    }
}

fn other_message(s: &mut Src, m: &[Scalar]) -> (Vec<Scalar>, &'static str) {
    let mut v = m.to_vec();
    let what = match s.draw(6) {
        0 if !v.is_empty() => {
            let i = s.below(v.len());
            v[i] = other_scalar(s, &v[i]);
            "element altered"
        }
        1 if v.len() > 1 => {
            let i = s.below(v.len());
            let j = s.below(v.len());
            v.swap(i, j);
            "elements exchanged"
        }
        2 if !v.is_empty() => {
            v.pop();
            "truncated"
        }
        3 => {
            v.push(Scalar::zero());
            "extended by zero"
        }
        4 => {
            v.push(gen::scalar(s));
            "extended"
        }
        5 if !v.is_empty() => {
            v.remove(0);
            "first element removed"
        }
        _ => {
            for x in v.iter_mut() {
                *x = gen::scalar(s);
            }
            "all altered"
        }
    };
    (v, what)
}

fn rerandomisation(s: &mut Src) -> (Rerandomization, Option<Scalar>) {
    if s.chance(1, 2) {
        // A chosen factor.
        let t = gen::nonzero_scalar(s);
        let mut b = t.as_bytes().to_vec();
        b.extend(&[0u8; 32]);
        let mut g = gen::ScriptRng::new(b, gen::rng(s));
        (Rerandomization::new(&mut g), Some(t))
    } else {
        (Rerandomization::new(&mut gen::rng(s)), None)
    }
}

fn macs(s: &mut Src) -> Res {
    let n = gen::count(s, 0, 6);
    let k = mac_key(s, n);
    ensure!(k.xn.len() == n, "key-size", "a key for {} elements has {}", n, k.xn.len());
    let m: Vec<Scalar> = (0..n).map(|_| gen::scalar(s)).collect();
    let mut g = gen::rng(s);
    let t = match k.mac(&Message(m.clone()), &mut g) {
        Ok(t) => t,
        Err(e) => return crate::engine::fail("mac", format!("no tag for {} elements: {:?}", n, e)),
    };
    ensure!(t.nonce != RistrettoPoint::identity(), "nonce", "the nonce of a tag is the identity");
    ensure!(t.mac == t.nonce * exponent(&k, &m), "mac-value", "the tag of {} elements has another value than documented", n);
    compare(&k, &t, &m, "fresh")?;
    // Never the same nonce again, whatever the message.
    let mut seen = vec![t.nonce];
    for _ in 0..2 {
        let m2 = if s.chance(1, 2) { m.clone() } else { m.iter().map(|_| gen::scalar(s)).collect() };
        let u = k.mac(&Message(m2), &mut g).map_err(broken("mac"))?;
        ensure!(!seen.contains(&u.nonce), "nonce", "the nonce of a tag was repeated");
        seen.push(u.nonce);
    }
    // Messages of other lengths.
    let (w, _) = other_message(s, &m);
    let rw = k.mac(&Message(w.clone()), &mut g);
    ensure!(rw.is_ok() == (w.len() == n), "mac-length", "a key for {} elements: tagging {} gave {:?}", n, w.len(), rw.is_ok());
    // Rerandomised, and through bytes.
    let mut cur = t.clone();
    let rounds = gen::count(s, 0, 4);
    for _ in 0..rounds {
        let (x, factor) = rerandomisation(s);
        let a = x.apply_to_tag(&cur);
        let b = &cur * &x;
        let c = &x * &cur;
        ensure!(a == b && a == c, "rerandomise", "the ways to rerandomise a tag differ");
        if let Some(f) = factor {
            ensure!(a.nonce == cur.nonce * f && a.mac == cur.mac * f, "rerandomise", "a tag wasn't multiplied by the factor");
            ensure!(f == Scalar::one() || a.nonce != cur.nonce, "rerandomise", "the nonce is unchanged");
        }
        cur = a;
        compare(&k, &cur, &m, "rerandomised")?;
        if s.chance(1, 3) {
            let b = cur.to_bytes();
            ensure!(b.len() == 64, "encoding", "a tag has {} bytes", b.len());
            let back = Tag::from_bytes(&b).map_err(broken("decode"))?;
            ensure!(back == cur, "round-trip", "a tag isn't restored from its bytes");
            cur = back;
            compare(&k, &cur, &m, "restored")?;
        }
    }
    // Other messages.
    for _ in 0..3 {
        let (w, what) = other_message(s, &m);
        if w != m {
            s.label(what);
        }
        compare(&k, &cur, &w, what)?;
    }
    // Other keys.
    let k2 = match s.draw(3) {
        0 => {
            let mut k2 = k.clone();
            k2.x0 = other_scalar(s, &k.x0);
            k2
        }
        1 if n > 0 => {
            let mut k2 = k.clone();
            let i = s.below(n);
            k2.xn[i] = other_scalar(s, &k.xn[i]);
            k2
        }
        2 if n > 1 => {
            let mut k2 = k.clone();
            k2.xn.swap(0, n - 1);
            k2
        }
        _ => mac_key(s, n),
    };
    compare(&k2, &cur, &m, "another key")?;
    // Other tags.
    for _ in 0..3 {
        let mut x = cur.clone();
        let what = match s.draw(9) {
            8 => {
                x.mac = gen::near_point(s, &x.mac);
                "mac altered in a few bytes"
            }
            9 => {
                x.nonce = gen::near_point(s, &x.nonce);
                "nonce altered in a few bytes"
            }
            0 => {
                x.mac = gen::point(s);
                "mac replaced"
            }
            1 => {
                x.nonce = gen::point(s);
                "nonce replaced"
            }
            2 => {
                x.mac = RistrettoPoint::identity();
                x.nonce = RistrettoPoint::identity();
                "degenerate"
            }
            3 => {
                x.mac = x.nonce;
                "mac is the nonce"
            }
            4 => {
                std::mem::swap(&mut x.mac, &mut x.nonce);
                "exchanged"
            }
            5 => {
                x.mac = -x.mac;
                "negated"
            }
            6 => {
                // The sum of two valid tags is valid.
                x.mac += t.mac;
                x.nonce += t.nonce;
                "summed"
            }
            _ => {
                x.mac += x.nonce;
                "shifted"
            }
        };
        s.label(what);
        compare(&k, &x, &m, what)?;
    }
    s.label(&if n > 6 { "more than six elements".to_string() } else { format!("{} elements", n) });
    s.interesting();
    s.note(format!("{} elements, {} rerandomisations", n, rounds));
    Ok(())
}

/// Degenerate tags verify for nothing.
fn degenerate(s: &mut Src) -> Res {
    let n = gen::count(s, 0, 4);
    let mut k = mac_key(s, n);
    let m: Vec<Scalar> = (0..n).map(|_| gen::scalar(s)).collect();
    if s.chance(1, 2) {
        // A key with the value 0 on this message.
        k.x0 -= exponent(&k, &m);
        s.label("value zero");
    }
    let t = Tag {
        nonce: RistrettoPoint::identity(),
        mac: if s.chance(1, 2) { RistrettoPoint::identity() } else { gen::point(s) },
    };
    compare(&k, &t, &m, "identity as nonce")?;
    let t = Tag { nonce: gen::point(s), mac: RistrettoPoint::identity() };
    compare(&k, &t, &m, "identity as mac")?;
    let msg = amacs::Message::from(gen::hex(&[s.byte()]));
    ensure!(msg.0.len() == 1, "message", "a string gives a message of {} elements", msg.0.len());
    s.interesting();
    s.note(format!("{} elements", n));
    Ok(())
}

/// Messages made from texts, scalars and lists.
fn messages(s: &mut Src) -> Res {
    let n = match s.draw(9) {
        0 => s.range(60, 400),
        1 | 2 => s.range(20, 70),
        _ => s.range(0, 20),
    };
    const ALPHABET: [char; 12] = ['0', '1', '9', '+', ' ', 'a', 'A', '\0', '\n', 'é', '\u{10ffff}', '\u{80}'];
    let a: Vec<char> = (0..n).map(|_| *s.pick(&ALPHABET)).collect();
    let mut b = a.clone();
    let what = match s.draw(4) {
        0 => {
            let c = *s.pick(&ALPHABET);
            b.push(c);
            "appended"
        }
        1 if n > 0 => {
            b.pop();
            "shortened"
        }
        2 if n > 0 => {
            let i = s.below(n);
            b[i] = *s.pick(&ALPHABET);
            "one character replaced"
        }
        3 if n > 1 => {
            let (i, j) = (s.below(n), s.below(n));
            b.swap(i, j);
            "two exchanged"
        }
        _ => {
            let c = *s.pick(&ALPHABET);
            b.insert(0, c);
            "put before"
        }
    };
    let (mut x, mut y): (String, String) = (a.iter().collect(), b.iter().collect());
    if s.chance(1, 12) {
        // Long texts which differ at the end only.
        let start: String = std::iter::repeat(*s.pick(&ALPHABET)).take(s.range(400, 9000)).collect();
        x.insert_str(0, &start);
        y.insert_str(0, &start);
        s.label("long texts");
    }
    let m = Message::from(x.clone());
    ensure!(m.0.len() == 1, "message", "a text gives a message of {} elements", m.0.len());
    ensure!(Message::from(x.clone()).0 == m.0, "message", "{:?} gives two messages", x);
    ensure!(Scalar::from_canonical_bytes(m.0[0].to_bytes()) == Some(m.0[0]), "message", "{:?} gives a message which isn't canonical", x);
    let w = Message::from(y.clone());
    ensure!(w.0.len() == 1, "message", "a text gives a message of {} elements", w.0.len());
    ensure!((w.0 == m.0) == (x == y), "message", "{:?} and {:?}: equal messages: {}", x, y, w.0 == m.0);
    let k = mac_key(s, 1);
    let t = k.mac(&m, &mut gen::rng(s)).map_err(broken("mac"))?;
    compare(&k, &t, &m.0, "of a text")?;
    compare(&k, &t, &w.0, what)?;
    // From scalars.
    let z = gen::scalar(s);
    ensure!(Message::from(z).0 == vec![z], "message", "a scalar gives another message");
    let l = gen::count(s, 0, 5);
    let v: Vec<Scalar> = (0..l).map(|_| gen::scalar(s)).collect();
    ensure!(Message::from(v.clone()).0 == v, "message", "a list of {} gives another message", l);
    if x != y {
        s.label(what);
        s.interesting();
    }
    if x.len() < 2000 {
        s.note(format!("{:?} and {:?}", x, y));
    } else {
        s.note(format!("texts of {} and {} bytes", x.len(), y.len()));
    }
    Ok(())
}

pub static C05: &[Check] = &[
    Check { name: "messages", quick: 15_000, thorough: 300_000, rule: "every case where the two texts, of which one was made from the other, differ", run: messages },
    Check { name: "macs", quick: 50_000, thorough: 1_500_000, rule: "every case: a tag, rerandomised mostly up to four times, seldom more often, against three other messages, another key and three other tags", run: macs },
    Check { name: "degenerate", quick: 20_000, thorough: 300_000, rule: "every case: tags with the identity as nonce or mac", run: degenerate },
];

// ---------------------------------------------------------------- C06

fn text(d: &[u8]) -> String {
    d.iter().map(|c| (b'0' + c) as char).collect()
}

/// Both encoders and the decoder on one number, and on a near one.
fn numbers(s: &mut Src) -> Res {
    let d = gen::digits(s);
    let t = text(&d);
    let want = r::phone_scalar(&d).unwrap();
    let a = PhoneNumber::try_from_string(&t);
    let b = PhoneNumber::try_from_bytes(&d);
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return crate::engine::fail("refused", format!("{}: text gives {:?}, digits give {:?}", t, a.is_ok(), b.is_ok())),
    };
    ensure!(a.0.to_bytes() == want.to_bytes(), "layout", "{} is encoded as {}", t, gen::hex(a.0.as_bytes()));
    ensure!(b.0.to_bytes() == want.to_bytes(), "layout", "the digits {} are encoded as {}", t, gen::hex(b.0.as_bytes()));
    ensure!(Scalar::from_canonical_bytes(a.0.to_bytes()) == Some(a.0), "canonical", "{} isn't encoded canonically", t);
    let back = String::from(b.clone());
    crate::engine::trace(back.as_bytes());
    ensure!(back == t, "decode", "{} was decoded as {:?}", t, back);
    for i in 0..32 {
        ensure!(b[i] == want.as_bytes()[i], "index", "byte {} of {} is {}", i, t, b[i]);
    }
    let bytes = b.to_bytes();
    ensure!(bytes == want.as_bytes().to_vec(), "bytes", "{} has bytes {}", t, gen::hex(&bytes));
    ensure!(PhoneNumber::from_bytes(&bytes).ok() == Some(b.clone()), "bytes", "{} isn't restored from its bytes", t);
    let m: Message = b.clone().into();
    ensure!(m.0 == vec![want], "message", "{} gives another message", t);
    let e = gen::near(s, &d);
    let c = PhoneNumber::try_from_bytes(&e).map_err(broken("encode"))?;
    let c2 = PhoneNumber::try_from_string(&text(&e)).map_err(broken("encode"))?;
    ensure!(c != b && c.0 != b.0, "injective", "{} and {} are encoded equally", t, text(&e));
    ensure!(c2 != a, "injective", "the texts {} and {} are encoded equally", t, text(&e));
    // What isn't a number is never taken for one.
    let f = gen::no_digits(s, &d);
    if let Ok(x) = PhoneNumber::try_from_bytes(&f) {
        ensure!(x.0 != b.0, "no-number", "the bytes {} are encoded like the number {}", gen::hex(&f), t);
        let u = String::from(x.clone());
        if let Ok(y) = PhoneNumber::try_from_string(&u) {
            ensure!(y != x, "no-number", "the bytes {} are encoded like the number {}", gen::hex(&f), u);
        }
    }
    let mut w: Vec<char> = t.chars().collect();
    if w.is_empty() || s.chance(1, 2) {
        let i = s.below(w.len() + 1);
        w.insert(i, *s.pick(&['+', ' ', '-', '(', 'a', '\0', '\n', '.']));
    } else {
        let i = s.below(w.len());
        let c = w[i] as u32 - '0' as u32;
        w[i] = std::char::from_u32(match s.draw(4) {
            0 => c,
            1 => 'a' as u32 + c,
            2 => '0' as u32 + 10 + c,
            3 => '0' as u32 + 16 + c,
            _ => 0x0660 + c,
        })
        .unwrap_or('x');
    }
    let w: String = w.into_iter().collect();
    if let Ok(x) = PhoneNumber::try_from_string(&w) {
        ensure!(x.0 != b.0, "no-number", "the text {:?} is encoded like the number {}", w, t);
        let u = String::from(x.clone());
        if let Ok(y) = PhoneNumber::try_from_bytes(&u.bytes().map(|c| c - b'0').collect::<Vec<u8>>()) {
            ensure!(y != x, "no-number", "the text {:?} is encoded like the number {}", w, u);
        }
    }
    s.label(&format!("{} digits", d.len()));
    s.interesting();
    s.note(format!("{} and {}", t, text(&e)));
    Ok(())
}

/// Too long, and arbitrary, input.
fn any_input(s: &mut Src) -> Res {
    let long = s.chance(1, 2);
    let n = if long {
        match s.draw(2) {
            0 => s.range(27, 34),
            1 => s.range(250, 300),
            _ => s.range(27, 700),
        }
    } else {
        s.range(0, 26)
    };
    let b: Vec<u8> = match s.draw(4) {
        0 | 1 => gen::digits_n(s, n),
        2 => vec![s.byte(); n],
        _ => (0..n).map(|_| s.byte()).collect(),
    };
    let t: String = match s.draw(3) {
        0 => b.iter().map(|c| (b'0' + c % 10) as char).collect(),
        1 => b.iter().map(|c| (c & 0x7f) as char).collect(),
        // characters of several bytes
        2 => b.iter().take(n / 2).map(|c| std::char::from_u32(0x80 + 3 * *c as u32).unwrap()).collect(),
        _ => String::from_utf8_lossy(&b).into_owned(),
    };
    let x = catching(|| PhoneNumber::try_from_bytes(&b)).or_else(|e| crate::engine::fail("panic", format!("bytes {}: {}", gen::hex(&b), e)))?;
    if b.len() > 26 {
        ensure!(x.is_err(), "too-long", "{} digits were accepted", b.len());
    }
    let y = catching(|| PhoneNumber::try_from_string(&t)).or_else(|e| crate::engine::fail("panic", format!("text {:?}: {}", t, e)))?;
    if t.len() > 26 {
        ensure!(y.is_err(), "too-long", "text of {} bytes was accepted", t.len());
    }
    // Whoever takes a number takes the same ones.
    let sys = gen::sys(s);
    let mut g = gen::rng(s);
    let issuer = SignalIssuer::create(sys.sp, &mut g);
    let i = issuer.issue(&b, &mut g).is_ok();
    let u = SignalUser::new(sys.sp, issuer.get_issuer_parameters(), None, &b).is_ok();
    let e = RosterEntryCommitment::create(&b, &sys.sp, &mut g).is_ok();
    ensure!(
        i == x.is_ok() && u == x.is_ok() && e == x.is_ok(),
        "disagree",
        "{} bytes: the encoder says {}, issuer {}, user {}, roster entry {}",
        b.len(),
        x.is_ok(),
        i,
        u,
        e
    );
    // Converting anything to text.
    let mut raw = gen::scalar_bytes(s);
    if s.chance(1, 2) {
        raw = *gen::scalar(s).as_bytes();
    }
    if s.chance(1, 3) {
        // Only few bytes set
        let keep = s.range(0, 31);
        for c in raw.iter_mut().skip(keep) {
            *c = 0;
        }
    }
    let p = catching(|| PhoneNumber::from_bytes(&raw)).or_else(|e| crate::engine::fail("panic", format!("bytes {}: {}", gen::hex(&raw), e)))?;
    if let Ok(p) = p {
        catching(|| String::from(p)).or_else(|e| crate::engine::fail("panic", format!("to text: {}: {}", gen::hex(&raw), e)))?;
    }
    let p = PhoneNumber(Scalar::from_bits(raw));
    catching(|| String::from(p)).or_else(|e| crate::engine::fail("panic", format!("to text: {}: {}", gen::hex(&raw), e)))?;
    s.label(if long { "too long" } else { "short" });
    s.interesting();
    s.note(format!("{} bytes, text of {} bytes", b.len(), t.len()));
    Ok(())
}

/// Many numbers of one case are all distinct.
fn injective(s: &mut Src) -> Res {
    let mut all: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let base = gen::digits(s);
    let n = s.range(10, 40);
    for _ in 0..n {
        let mut d = if s.chance(1, 4) { gen::digits(s) } else { base.clone() };
        let steps = s.range(0, 3);
        for _ in 0..steps {
            d = gen::near(s, &d);
        }
        let p = PhoneNumber::try_from_bytes(&d).map_err(broken("encode"))?;
        all.push((p.to_bytes(), d));
    }
    all.sort();
    for w in all.windows(2) {
        ensure!(w[0].0 != w[1].0 || w[0].1 == w[1].1, "injective", "{} and {} are encoded equally", text(&w[0].1), text(&w[1].1));
    }
    s.interesting();
    s.note(format!("{} numbers around {}", n, text(&base)));
    Ok(())
}

pub static C06: &[Check] = &[
    Check { name: "numbers", quick: 500_000, thorough: 10_000_000, rule: "every case: a number and a near one through both encoders and the decoder", run: numbers },
    Check { name: "any-input", quick: 200_000, thorough: 4_000_000, rule: "every case: too long or arbitrary bytes and text, and an arbitrary scalar", run: any_input },
    Check { name: "injective", quick: 40_000, thorough: 1_000_000, rule: "every case: 10 to 40 numbers around one, all distinct", run: injective },
];

// ---------------------------------------------------------------- C07

fn eph(s: &mut Src) -> Scalar {
    gen::scalar(s)
}

fn open_is(c: &Commitment, v: &RistrettoPoint, n: &Scalar, base: &RistrettoPoint, what: &str) -> Res {
    let p: RistrettoPoint = (*c).into();
    let want = p == v + base * n;
    let got = c.open(v, &Ephemeral::from(*n), base).is_ok();
    ensure!(got == want, if want { "not-opened" } else { "opened" }, "{}: opens is {}, but must be {}", what, got, want);
    Ok(())
}

fn pedersen(s: &mut Src) -> Res {
    let v = gen::point(s);
    let n = eph(s);
    let base = gen::point(s);
    let c = Commitment::to(&v, &Ephemeral::from(n), &base);
    let p: RistrettoPoint = c.into();
    ensure!(p == v + base * n, "value", "a commitment doesn't have the documented value");
    ensure!(c.to_bytes() == r::enc(&p).to_vec(), "bytes", "a commitment isn't encoded as its point");
    open_is(&c, &v, &n, &base, "honest")?;
    let params = r::Params { g: gen::B, h: base };
    let v2 = other_point(s, &params, &v);
    open_is(&c, &v2, &n, &base, "other value")?;
    let n2 = other_scalar(s, &n);
    open_is(&c, &v, &n2, &base, "other opening")?;
    let b2 = other_point(s, &params, &base);
    open_is(&c, &v, &n, &b2, "other base")?;
    let (v3, n3) = (gen::point(s), gen::scalar(s));
    open_is(&c, &v3, &n3, &base, "all other")?;
    // A trapdoor opening is an opening.
    let t = gen::scalar(s);
    open_is(&c, &(v + base * t), &(n - t), &base, "shifted")?;
    // Arithmetic of commitments.
    let k = gen::scalar(s);
    ensure!(&c * &k == p * k && &k * &c == p * k, "scale", "a multiple of a commitment is wrong");
    let mut q = v;
    q -= c;
    ensure!(q == v - p, "subtract", "the difference from a commitment is wrong");
    s.interesting();
    s.note("a commitment to an arbitrary point".to_string());
    Ok(())
}

fn entries(s: &mut Src) -> Res {
    let sys = gen::sys(s);
    let (g, h) = (sys.sp.g, sys.sp.h);
    let d = gen::digits(s);
    let m = r::phone_scalar(&d).unwrap();
    let mut rg = gen::rng(s);
    let e = RosterEntryCommitment::create(&d, &sys.sp, &mut rg).or_else(|e| crate::engine::fail("create", format!("{:?}", e)))?;
    let f = RosterEntryCommitment::create(&d, &sys.sp, &mut rg).or_else(|e| crate::engine::fail("create", format!("{:?}", e)))?;
    let scal = |e: &RosterEntryCommitment| {
        let o: &Scalar = (&e.opening).into();
        *o
    };
    let o = scal(&e);
    let c: RistrettoPoint = e.commitment.0.into();
    ensure!(c == h * m + g * o, "value", "an entry doesn't have the documented value");
    ensure!(o != Scalar::zero() && scal(&f) != o, "fresh", "the opening isn't fresh");
    ensure!(e.commitment != f.commitment, "fresh", "two entries on one number are equal");
    ensure!(e.open(&d, &sys.sp).is_ok(), "not-opened", "an entry doesn't open with its number {}", gen::dstr(&d));
    let d2 = gen::near(s, &d);
    ensure!(e.open(&d2, &sys.sp).is_err(), "opened", "an entry on {} opens with {}", gen::dstr(&d), gen::dstr(&d2));
    let nd = gen::no_digits(s, &d);
    ensure!(e.open(&nd, &sys.sp).is_err(), "opened", "an entry on {} opens with {}", gen::dstr(&d), gen::hex(&nd));
    // The opening depends on most of what the generator returns.
    let seed = gen::seed32(s);
    let mut start = Vec::new();
    for _ in 0..2 {
        start.extend(&gen::seed32(s));
    }
    let make = |b: &[u8]| {
        RosterEntryCommitment::create(&d, &sys.sp, &mut gen::ScriptRng::new(b.to_vec(), rand::SeedableRng::from_seed(seed)))
            .map(|e| scal(&e))
            .map_err(broken("create"))
    };
    let usual = make(&start)?;
    let bytes = (0..64).step_by(4).chain((2..64).step_by(4));
    let mut depends = 0;
    for i in bytes {
        let mut b = start.clone();
        b[i] ^= 1 << (i / 8 % 8);
        if make(&b)? != usual {
            depends += 1;
        }
    }
    // Of the 64 bytes, half were altered, one by one.
    ensure!(depends >= 12, "fresh", "the opening depends on {} of 32 bytes of the generator", depends);
    let long: Vec<u8> = {
        let mut v = d.clone();
        let n = s.range(27, 60);
        v.resize(n, 0);
        v
    };
    ensure!(e.open(&long, &sys.sp).is_err(), "opened", "an entry opens with a number of {} digits", long.len());
    // Other parameters
    let mut sp2 = sys.sp;
    let params = r::Params { g, h };
    if s.chance(1, 2) {
        sp2.g = other_point(s, &params, &g);
    } else {
        sp2.h = other_point(s, &params, &h);
    }
    let want = c == sp2.h * m + sp2.g * o;
    ensure!(e.open(&d, &sp2).is_ok() == want, "opened", "under other parameters opens is {}", !want);
    // Another opening, or the commitment of another.
    let o2 = other_scalar(s, &o);
    let x = RosterEntryCommitment { commitment: e.commitment, opening: o2.into() };
    ensure!(x.open(&d, &sys.sp).is_ok() == (c == h * m + g * o2), "opened", "another opening is accepted");
    let x = RosterEntryCommitment { commitment: f.commitment, opening: o.into() };
    ensure!(x.open(&d, &sys.sp).is_err(), "opened", "the opening of another entry is accepted");
    let p2 = if s.chance(1, 2) { gen::near_point(s, &c) } else { gen::point(s) };
    let c2 = Commitment::from_bytes(&r::enc(&p2)).map_err(broken("decode"))?;
    let x = RosterEntryCommitment { commitment: CommittedPhoneNumber(c2), opening: o.into() };
    ensure!(x.open(&d, &sys.sp).is_ok() == (RistrettoPoint::from(c2) == c), "opened", "another commitment is accepted");
    // Committed phone numbers with any nonce.
    let n = gen::scalar(s);
    let pn = PhoneNumber::try_from_bytes(&d).map_err(broken("encode"))?;
    let k = CommittedPhoneNumber::from_phone_number(&pn, &n.into(), &g, &h);
    ensure!(RistrettoPoint::from(k.0) == h * m + g * n, "value", "a committed number doesn't have the documented value");
    ensure!(k.open(&pn, &n.into(), &g, &h).is_ok(), "not-opened", "a committed number doesn't open");
    let pn2 = PhoneNumber::try_from_bytes(&d2).map_err(broken("encode"))?;
    ensure!(k.open(&pn2, &n.into(), &g, &h).is_err(), "opened", "a committed number opens with another");
    let n2 = other_scalar(s, &n);
    let want = RistrettoPoint::from(k.0) == h * m + g * n2;
    ensure!(k.open(&pn, &n2.into(), &g, &h).is_ok() == want, "opened", "a committed number opens with another nonce");
    let want = RistrettoPoint::from(k.0) == g * m + h * n;
    ensure!(k.open(&pn, &n.into(), &h, &g).is_ok() == want, "opened", "a committed number opens with the bases exchanged");
    // Through bytes.
    let y = RosterEntryCommitment::from_bytes(&e.to_bytes()).map_err(broken("decode"))?;
    ensure!(y.open(&d, &sys.sp).is_ok() && y.open(&d2, &sys.sp).is_err(), "restored", "a restored entry opens otherwise");
    s.interesting();
    s.note(format!("{} and {}", gen::dstr(&d), gen::dstr(&d2)));
    Ok(())
}

/// The arithmetic of nonces, in all its forms.
fn nonces(s: &mut Src) -> Res {
    let n = gen::scalar(s);
    let p = gen::point(s);
    let want = p * n;
    let e = || Ephemeral::from(n);
    let t = &RISTRETTO_BASEPOINT_TABLE;
    let all = vec![
        ("&e * &p", &e() * &p),
        ("&p * &e", &p * &e()),
        ("p * &e", p * &e()),
        ("e * &p", e() * &p),
        ("&e * p", &e() * p),
        ("&p * e", &p * e()),
        ("e * p", e() * p),
        ("p * e", p * e()),
    ];
    for (w, x) in all {
        ensure!(x == want, "product", "{} is wrong", w);
    }
    ensure!(&e() * t == gen::B * n && t * &e() == gen::B * n, "product", "the product with the table of the base point is wrong");
    let ne = -e();
    let x: &Scalar = (&ne).into();
    ensure!(*x == -n, "negative", "the negative is wrong");
    let y = e();
    let x: &Scalar = (&y).into();
    ensure!(*x == n && y.to_bytes() == n.as_bytes().to_vec(), "value", "the value is wrong");
    let k = gen::count(s, 0, 9);
    let mut g = gen::rng(s);
    let v = Nonces::new(&mut g, k);
    let w = Nonces::new(&mut g, k);
    let vs: Vec<Vec<u8>> = v.iter().map(|x| x.to_bytes()).collect();
    let ws: Vec<Vec<u8>> = w.iter().map(|x| x.to_bytes()).collect();
    ensure!(vs.len() == k && ws.len() == k, "count", "{} nonces instead of {}", vs.len(), k);
    let mut all: Vec<Vec<u8>> = vs.iter().chain(ws.iter()).cloned().collect();
    for i in 0..k {
        ensure!(v[i].to_bytes() == vs[i], "index", "nonce {} differs by index", i);
    }
    all.push(vec![0; 32]);
    all.sort();
    all.dedup();
    ensure!(all.len() == 2 * k + 1, "fresh", "nonces are repeated or zero");
    s.interesting();
    s.note(format!("{} nonces", k));
    Ok(())
}

pub static C07: &[Check] = &[
    Check { name: "commitments", quick: 30_000, thorough: 1_000_000, rule: "every case: a commitment against five opening attempts", run: pedersen },
    Check { name: "entries", quick: 25_000, thorough: 800_000, rule: "every case: a roster entry and a committed number against a near number and other alterations", run: entries },
    Check { name: "nonces", quick: 12_000, thorough: 400_000, rule: "every case: all products of a nonce with a point, and a set of nonces", run: nonces },
];

// ---------------------------------------------------------------- C08

fn el_key(s: &mut Src) -> Result<(elgamal::Keypair, Scalar), crate::engine::Fail> {
    Ok(match s.draw(2) {
        0 => {
            let k = elgamal::Keypair::generate(&mut gen::rng(s));
            let x = Scalar::from(k.secret.clone());
            (k, x)
        }
        1 => {
            let x = gen::scalar(s);
            let sk = elgamal::SecretKey::from_bytes(x.as_bytes()).map_err(broken("decode"))?;
            let pk = elgamal::PublicKey::from(&sk);
            (elgamal::Keypair { secret: sk, public: pk }, x)
        }
        _ => {
            let x = gen::scalar(s);
            let mut b = x.as_bytes().to_vec();
            b.extend(&r::enc(&(gen::B * x)));
            (elgamal::Keypair::from_bytes(&b).map_err(broken("decode"))?, x)
        }
    })
}

fn encryption(s: &mut Src) -> Res {
    let (k, x) = el_key(s)?;
    ensure!(RistrettoPoint::from(k.public) == gen::B * x, "keypair", "the public key doesn't belong to the secret key");
    ensure!(Scalar::from(k.secret.clone()) == x, "keypair", "the secret key isn't what it was made from");
    let back = elgamal::Keypair::from_bytes(&k.to_bytes()).or_else(|e| crate::engine::fail("restore", format!("{:?}", e)))?;
    ensure!(back == k, "restore", "a key pair isn't restored from its bytes");
    let n = gen::count(s, 1, 4);
    let mut sum: Option<elgamal::Encryption> = None;
    let mut plain = RistrettoPoint::identity();
    let mut noncesum = Scalar::zero();
    for _ in 0..n {
        let m = gen::scalar(s);
        let e = gen::scalar(s);
        let c = if s.chance(1, 2) {
            k.encrypt(&elgamal::Message::from(&m), &e.into())
        } else {
            back.public.encrypt(&elgamal::Message::from(&m), &e.into())
        };
        ensure!(c.commitment == gen::B * e, "value", "the first half of an encryption is wrong");
        ensure!(c.encryption == gen::B * (m + x * e), "value", "the second half of an encryption is wrong");
        ensure!(k.secret.decrypt(&c) == gen::B * m, "decrypt", "an encryption isn't decrypted to its plaintext");
        ensure!(back.secret.decrypt(&c) == gen::B * m, "decrypt", "a restored key doesn't decrypt");
        // Another key.
        let y = other_scalar(s, &x);
        let sk = elgamal::SecretKey::from_bytes(y.as_bytes()).map_err(broken("decode"))?;
        let w = sk.decrypt(&c);
        ensure!(w == c.encryption - c.commitment * y, "decrypt-other", "decryption under another key isn't what it should be");
        if e != Scalar::zero() {
            ensure!(w != gen::B * m, "decrypt-other", "another key decrypts");
        }
        // Another nonce
        let e2 = other_scalar(s, &e);
        let c2 = k.encrypt(&elgamal::Message::from(&m), &e2.into());
        ensure!(c2 != c, "distinct", "two nonces give one encryption");
        plain += gen::B * m;
        noncesum += e;
        sum = Some(match sum {
            None => c,
            Some(ref o) => o + &c,
        });
    }
    let sum = sum.unwrap();
    ensure!(sum.commitment == gen::B * noncesum, "sum", "the first half of a sum is wrong");
    ensure!(k.secret.decrypt(&sum) == plain, "sum", "a sum of {} encryptions isn't decrypted to the sum", n);
    // Phone numbers.
    let d = gen::digits(s);
    let p = PhoneNumber::try_from_bytes(&d).map_err(broken("encode"))?;
    let e = gen::scalar(s);
    let c: EncryptedPhoneNumber = p.encrypt(&k, &e.into());
    let want = gen::B * r::phone_scalar(&d).unwrap();
    ensure!(k.secret.decrypt(&c.0) == want, "phone", "an encrypted phone number isn't decrypted to it");
    ensure!(c.0.commitment == gen::B * e, "phone", "an encrypted phone number has another nonce");
    let v: Vec<elgamal::Encryption> = c.clone().into();
    ensure!(v == vec![c.0], "phone", "an encrypted number gives other attributes");
    s.label(&if n > 4 { "more than four summands".to_string() } else { format!("{} summands", n) });
    s.interesting();
    s.note(format!("{} summands, number {}", n, gen::dstr(&d)));
    Ok(())
}

fn fresh_keys(s: &mut Src) -> Res {
    let mut g = gen::rng(s);
    let a = elgamal::Keypair::generate(&mut g);
    let b = elgamal::Keypair::generate(&mut g);
    ensure!(a.secret != b.secret && a.public != b.public, "fresh", "two generated keys are equal");
    let sk = elgamal::SecretKey::generate(&mut g);
    ensure!(Scalar::from(sk.clone()) != Scalar::zero(), "fresh", "a generated key is zero");
    let pk = elgamal::PublicKey::from(&sk);
    ensure!(RistrettoPoint::from(pk) == gen::B * Scalar::from(sk), "keypair", "the public key doesn't belong to the secret key");
    for k in &[a, b] {
        ensure!(RistrettoPoint::from(k.public) == gen::B * Scalar::from(k.secret.clone()), "keypair", "a generated pair doesn't match");
    }
    s.interesting();
    s.note("three generated keys".to_string());
    let _ = SystemParameters::from(gen::random_point(s));
    Ok(())
}

pub static C08: &[Check] = &[
    Check { name: "encryption", quick: 45_000, thorough: 1_500_000, rule: "every case: mostly up to four encryptions, seldom up to 70, their sum, other keys and nonces, and a phone number", run: encryption },
    Check { name: "keys", quick: 12_000, thorough: 300_000, rule: "every case: three generated keys", run: fresh_keys },
];
