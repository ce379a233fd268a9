//! Replays programs of CurveAlg.tla on the curves of rac, comparing every register with the
//! specification's equality classes and with arithmetic of the harness' own.
use crate::{field::*, term::stream, util::{guard, par, Fail, Report}};
use rac_repo::{generic_array::GenericArray, Curve, LineValid, Scalar};
use serde::Deserialize;

#[derive(Deserialize, Clone, Debug)]
pub struct Ev {
    pub op: String,
    pub x: usize,
    pub y: usize,
    pub ok: bool,
    pub c: i64,
}

#[derive(Deserialize)]
pub struct Trace {
    pub curve: String,
    pub log: Vec<Ev>,
    pub s: Vec<usize>,
    pub p: Vec<usize>,
    pub x: Vec<usize>,
}

/// a curve and its own arithmetic
pub trait Side {
    type C: Curve;
    type P: Clone;
    fn n() -> &'static Mod;
    fn parse_scalar(b: &[u8]) -> Option<U>;
    fn scalar_bytes(a: &U) -> [u8; 32];
    fn base() -> Self::P;
    fn exp(p: &Self::P, k: &U) -> Self::P;
    fn add(p: &Self::P, q: &Self::P) -> Option<Self::P>;
    fn compress(p: &Self::P) -> Vec<u8>;
    fn line(p: &Self::P) -> Vec<u8>;
    fn coordinate(p: &Self::P) -> Option<Vec<u8>>;
    fn decompress(b: &[u8]) -> Option<Self::P>;
    fn parse(b: &[u8]) -> Option<Self::P>;
}

pub struct EdS;
impl Side for EdS {
    type C = curve25519_dalek::edwards::EdwardsPoint;
    type P = Ed;
    fn n() -> &'static Mod { l25519() }
    fn parse_scalar(b: &[u8]) -> Option<U> { Some(clamp(b)) }
    fn scalar_bytes(a: &U) -> [u8; 32] { to_le(a) }
    fn base() -> Ed { Ed::base() }
    fn exp(p: &Ed, k: &U) -> Ed { p.mul(k) }
    fn add(p: &Ed, q: &Ed) -> Option<Ed> { Some(p.add(q)) }
    fn compress(p: &Ed) -> Vec<u8> { p.compress().to_vec() }
    fn line(p: &Ed) -> Vec<u8> { p.compress().to_vec() }
    fn coordinate(p: &Ed) -> Option<Vec<u8>> { Some(p.coordinate().to_vec()) }
    fn decompress(b: &[u8]) -> Option<Ed> { Ed::decompress(b) }
    fn parse(b: &[u8]) -> Option<Ed> { Ed::decompress(b) }
}

pub struct MontS;
impl Side for MontS {
    type C = curve25519_dalek::montgomery::MontgomeryPoint;
    type P = [u8; 32];
    fn n() -> &'static Mod { l25519() }
    fn parse_scalar(b: &[u8]) -> Option<U> { Some(clamp(b)) }
    fn scalar_bytes(a: &U) -> [u8; 32] { to_le(a) }
    fn base() -> Self::P {
        let mut b = [0; 32];
        b[0] = 9;
        b
    }
    fn exp(p: &Self::P, k: &U) -> Self::P { ladder(p, k) }
    fn add(_: &Self::P, _: &Self::P) -> Option<Self::P> { None }
    fn compress(p: &Self::P) -> Vec<u8> { p.to_vec() }
    fn line(p: &Self::P) -> Vec<u8> { p.to_vec() }
    fn coordinate(_: &Self::P) -> Option<Vec<u8>> { None }
    fn decompress(b: &[u8]) -> Option<Self::P> { Some(b.try_into().unwrap()) }
    fn parse(b: &[u8]) -> Option<Self::P> { Some(b.try_into().unwrap()) }
}

pub struct SecpS;
impl Side for SecpS {
    type C = secp256k1::PublicKey;
    type P = Secp;
    fn n() -> &'static Mod { nsecp() }
    fn parse_scalar(b: &[u8]) -> Option<U> {
        let a = from_be(b);
        if a == ZERO || !less(&a, &nsecp().m) { None } else { Some(a) }
    }
    fn scalar_bytes(a: &U) -> [u8; 32] { to_be(a) }
    fn base() -> Secp { Secp::base() }
    fn exp(p: &Secp, k: &U) -> Secp { p.mul(k) }
    fn add(p: &Secp, q: &Secp) -> Option<Secp> {
        let r = p.add(q);
        if r.is_zero() { None } else { Some(r) }
    }
    fn compress(p: &Secp) -> Vec<u8> { p.compress() }
    fn line(p: &Secp) -> Vec<u8> { p.line() }
    fn coordinate(p: &Secp) -> Option<Vec<u8>> { Some(p.compress()[1..].to_vec()) }
    fn decompress(b: &[u8]) -> Option<Secp> { Secp::decompress(b) }
    fn parse(b: &[u8]) -> Option<Secp> { Secp::parse(b) }
}

pub type Sc<S> = <<S as Side>::C as Curve>::Scalar;

fn ga<N: rac_repo::generic_array::ArrayLength<u8>>(b: &[u8]) -> GenericArray<u8, N> { GenericArray::clone_from_slice(b) }
pub fn scalar<S: Side>(b: &[u8]) -> Option<Sc<S>> { Sc::<S>::try_clone_array(&ga(b)).ok() }
pub fn exact<S: Side>(b: &[u8]) -> Option<Sc<S>> { Sc::<S>::try_clone_exact(&ga(b)).ok() }
pub fn point<S: Side>(b: &[u8]) -> Option<S::C> { S::C::try_clone_array(&ga(b)).ok() }
pub fn unpress<S: Side>(b: &[u8]) -> Option<S::C> { S::C::decompress(&ga(b)).ok() }

fn check_point<S: Side>(p: &S::C, q: &S::P) -> Option<&'static str> {
    if p.clone_line().to_vec() != S::line(q) { return Some("point") }
    if p.compress().to_vec() != S::compress(q) { return Some("compressed point") }
    if let Some(x) = S::coordinate(q) {
        if p.x_coordinate().to_vec() != x { return Some("coordinate") }
    }
    None
}

fn replay<S: Side>(t: &Trace, id: &str) -> Result<usize, String> {
    let n = S::n();
    let mut sc: Vec<(Sc<S>, U)> = vec![];
    let mut pt: Vec<(S::C, S::P)> = vec![];
    let nil = || "bytes of a value do not parse".to_string();
    let mut steps = 0;
    for (i, v) in t.log.iter().enumerate() {
        let e = |m: &str| format!("step {} ({}): {m}", i + 1, v.op);
        let mut newp: Option<(S::C, S::P)> = None;
        match v.op.as_str() {
            "stop" => break,
            "atom" => {
                let mut b = stream(id, &format!("atom{}", v.c), 32);
                if v.c == 1 && id.ends_with('7') {
                    // extreme values
                    if S::parse_scalar(&[255; 32]).is_some() { b = vec![255; 32] } else { b[..20].fill(0) }
                }
                let own = S::parse_scalar(&b).expect("harness: scalar");
                sc.push((scalar::<S>(&b).ok_or_else(|| e("a valid scalar is refused"))?, own));
            },
            "const" => {
                let own = if v.c < 0 { n.neg(&[-v.c as u64, 0, 0, 0]) } else { [v.c as u64, 0, 0, 0] };
                sc.push((exact::<S>(&S::scalar_bytes(&own)).ok_or_else(|| e("a valid scalar is refused"))?, own));
            },
            "adds" | "subs" | "muls" => {
                let (a, b) = (&sc[v.x - 1], &sc[v.y - 1]);
                let (x, y) = (n.reduce(&a.1), n.reduce(&b.1));
                let (r, own) = match v.op.as_str() {
                    "adds" => (a.0.add_ff(&b.0), n.add(&x, &y)),
                    "subs" => (a.0.sub_ff(&b.0), n.sub(&x, &y)),
                    _ => (a.0.mul_ff(&b.0), n.mul(&x, &y)),
                };
                match (r, v.ok) {
                    (Ok(r), true) => sc.push((r, own)),
                    (Err(_), false) => {},
                    (Ok(_), false) => return Err(e("a result that is no scalar is returned")),
                    (Err(_), true) => return Err(e("a valid operation is refused")),
                }
            },
            "clone" => {
                let (a, own) = (&sc[v.x - 1].0.clone_line(), sc[v.x - 1].1);
                let r = if v.c == 1 { scalar::<S>(a) } else { exact::<S>(a) };
                sc.push((r.ok_or_else(|| e(&nil()))?, own));
            },
            "base" => newp = Some((S::C::base(), S::base())),
            "any" => {
                // another generator, through its compressed bytes
                let k = S::parse_scalar(&stream(id, "any", 32)).expect("harness: scalar");
                let own = S::exp(&S::base(), &k);
                newp = Some((unpress::<S>(&S::compress(&own)).ok_or_else(|| e(&nil()))?, own));
            },
            "exp" => {
                let (p, s) = (&pt[v.x - 1], &sc[v.y - 1]);
                newp = Some((p.0.exp_ec(&s.0), S::exp(&p.1, &s.1)));
            },
            "addp" => {
                let (p, q) = (&pt[v.x - 1], &pt[v.y - 1]);
                match (p.0.try_mul_ec(&q.0), v.ok) {
                    (Ok(r), true) => {
                        if r.clone_line() != p.0.mul_ec(&q.0).clone_line() { return Err(e("two ways to add differ")) }
                        newp = Some((r, S::add(&p.1, &q.1).expect("harness: sum")))
                    },
                    (Err(()), false) => {},
                    (Ok(_), false) => return Err(e("a sum that cannot be represented is returned")),
                    (Err(()), true) => return Err(e("a sum is refused")),
                }
            },
            "press" => {
                let p = &pt[v.x - 1];
                newp = Some((unpress::<S>(&p.0.compress()).ok_or_else(|| e(&nil()))?, p.1.clone()));
            },
            "line" => {
                let p = &pt[v.x - 1];
                newp = Some((point::<S>(&p.0.clone_line()).ok_or_else(|| e(&nil()))?, p.1.clone()));
            },
            o => panic!("harness: {o}"),
        }
        if let Some((p, q)) = newp {
            if let Some(what) = check_point::<S>(&p, &q) { return Err(e(&format!("wrong {what}"))) }
            pt.push((p, q));
        } else if let Some((s, own)) = sc.last() {
            if s.clone_line()[..] != S::scalar_bytes(own)[..] { return Err(e("wrong scalar")) }
        }
        steps += 1;
    }
    // the specification's equality classes; unreduced scalars are compared as residues
    let sv: Vec<U> = sc.iter().map(|s| {
        let b = s.0.clone_line();
        let mut b: Vec<u8> = b.to_vec();
        if S::scalar_bytes(&[1, 0, 0, 0])[0] == 0 { b.reverse() }
        n.reduce(&from_le(&b))
    }).collect();
    let pv: Vec<Vec<u8>> = pt.iter().map(|p| p.0.compress().to_vec()).collect();
    let mont = S::coordinate(&S::base()).is_none();
    let classes = |c: &[usize], eq: &dyn Fn(usize, usize) -> bool, what: &str| -> Result<(), String> {
        for i in 0..c.len() {
            for k in 0..=i {
                if eq(k, i) != (c[k] == c[i]) {
                    return Err(format!("{what} {} and {} are {} and should not be", k + 1, i + 1, if eq(k, i) { "equal" } else { "different" }));
                }
            }
        }
        Ok(())
    };
    if t.s.len() != sc.len() || t.p.len() != pt.len() { panic!("harness: register count") }
    classes(&t.s, &|a, b| sv[a] == sv[b], "scalars")?;
    if mont {
        classes(&t.x, &|a, b| pv[a] == pv[b], "points")?;
    } else {
        classes(&t.p, &|a, b| pv[a] == pv[b], "points")?;
        let xs: Vec<Vec<u8>> = pt.iter().map(|p| p.0.x_coordinate().to_vec()).collect();
        classes(&t.x, &|a, b| xs[a] == xs[b], "coordinates of points")?;
    }
    Ok(steps)
}

pub fn run(lines: &[String], seed: u64, rep: &Report) {
    par(lines.len(), |i| {
        let t: Trace = serde_json::from_str(&lines[i]).expect("harness: trace");
        let id = format!("{seed}.{i}");
        let r = guard(|| match t.curve.as_str() {
            "ed" => replay::<EdS>(&t, &id),
            "mont" => replay::<MontS>(&t, &id),
            _ => replay::<SecpS>(&t, &id),
        });
        match r {
            Ok(Ok(n)) => rep.ok(n),
            Ok(Err(m)) | Err(m) => rep.fail(Fail::new("algebra", format!("{}: {m}", t.curve), lines[i].clone())),
        }
    });
    if let Some(l) = lines.first() { rep.sample(serde_json::from_str(l).unwrap()) }
}

/// arbitrary bytes as points, also outside the prime-order group
fn diff<S: Side>(name: &str, id: &str, special: usize, rep: &Report) {
    let cl = S::compress(&S::base()).len();
    let mut b = stream(id, "p", cl);
    if cl == 33 { b[0] = 2 + (b[0] & 1) }
    match special {
        // values around 0, 1 and p, and sparse ones
        0..=19 => { let x = special; b[cl - 32..].fill(0); if cl == 33 { b[32] = x as u8 } else { b[0] = x as u8 } },
        20..=39 => { b[cl - 32..].fill(255); if cl == 33 { b[32] = 0x1f + special as u8 } else { b[0] = 236 + (special - 20) as u8; b[31] = if special % 2 == 0 { 0x7f } else { 0xff } } },
        40..=50 if cl == 33 => b[0] = (special - 40) as u8,
        _ => {},
    }
    let fail = |m: String| rep.fail(Fail::new("algebra", format!("{name}: {m}"), hex::encode(&b)));
    let r = guard(|| -> Result<usize, String> {
        let own = S::decompress(&b);
        let got = unpress::<S>(&b);
        let (p, q) = match (got, own) {
            (None, None) => return Ok(1),
            (Some(p), Some(q)) => (p, q),
            (Some(_), None) => return Err("bytes of no point are accepted".into()),
            (None, Some(_)) => return Err("bytes of a point are refused".into()),
        };
        if cl == 33 || special >= 40 {
            if p.compress().to_vec() != b { return Err("compression does not give back the bytes".into()) }
        }
        if let Some(w) = check_point::<S>(&p, &q).filter(|_| cl == 33 || special >= 40) { return Err(format!("wrong {w}")) }
        let kb = stream(id, "k", 32);
        let k = S::parse_scalar(&kb).expect("harness: scalar");
        let s = scalar::<S>(&kb).ok_or("a scalar is refused")?;
        let (a, oa) = (p.exp_ec(&s), S::exp(&q, &k));
        if let Some(w) = check_point::<S>(&a, &oa) { return Err(format!("wrong {w} after multiplication")) }
        for (x, y, ox, oy) in [(&p, &a, &q, &oa), (&p, &p, &q, &q), (&a, &a, &oa, &oa), (&a, &p, &oa, &q)] {
            if let Some(o) = S::add(ox, oy) {
                if let Some(w) = check_point::<S>(&x.mul_ec(y), &o) { return Err(format!("wrong {w} after addition")) }
            }
        }
        Ok(6)
    });
    match r {
        Ok(Ok(n)) => rep.ok(n),
        Ok(Err(m)) | Err(m) => fail(m),
    }
}

pub fn run_diff(n: usize, seed: u64, rep: &Report) {
    par(n, |i| {
        let id = format!("{seed}.d{i}");
        match i % 3 {
            0 => diff::<EdS>("ed", &id, i / 3, rep),
            1 => diff::<MontS>("mont", &id, i / 3, rep),
            _ => diff::<SecpS>("secp", &id, i / 3, rep),
        }
    });
}
