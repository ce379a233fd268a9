//! Replays Schnorr.tla on the signatures of rac.
use crate::{curve::*, field::*, term::stream, util::{guard, par, Fail, Report}};
use rac_repo::{generic_array::{typenum::U32, GenericArray}, Array, Concat, Curve, LineValid, Schnorr, Signature};
use digest::{FixedOutput, Update};
use serde::Deserialize;

#[derive(Deserialize, Clone, Debug)]
pub struct Ev {
    pub op: String,
    pub x: usize,
    pub y: usize,
    pub m: usize,
    pub ok: bool,
}

type Sig<S, D> = Schnorr<<S as Side>::C, D>;

pub trait Hash: Default + Update + FixedOutput<OutputSize = U32> + Clone {}
impl<T: Default + Update + FixedOutput<OutputSize = U32> + Clone> Hash for T {}

/// six messages, all different: m, m0, m with the last bit changed, unrelated, m with the first
/// bit changed, 0m
fn messages(id: &str) -> Vec<Vec<u8>> {
    let l = u16::from_le_bytes(stream(id, "len", 2).try_into().unwrap()) as usize;
    // around the block lengths of the hash functions too
    let l = match l % 6 { 0 => 1, 1 => 32 + l % 64, 2 => 104 + l % 64, 3 => l % 1000, 4 => 3000 + l % 3000, _ => 1 + l % 8 };
    let m = stream(id, "msg", l);
    let mut last = m.clone();
    *last.last_mut().unwrap() ^= 1;
    let mut first = m.clone();
    first[0] ^= 0x80;
    vec![m.clone(), [m.clone(), vec![0]].concat(), last, if l == 1 { vec![] } else { stream(id, "other", 1 + l / 2) }, first, [vec![0], m].concat()]
}

struct Key<S: Side> {
    sk: Option<Sc<S>>,
    pk: S::C,
    own: U,
}

fn secret<S: Side>(id: &str, label: &str) -> (Sc<S>, U) {
    let mut b = stream(id, label, 32);
    let kind = b[7] % 8;
    // parsed as it is, or reduced, or an extreme value
    let n = S::n();
    // never a sparse one: altering bits of s can turn a sparse nonce into its negative
    let w = from_le(&b)[1];
    let own = S::parse_scalar(&b).expect("harness: scalar");
    match kind {
        0..=3 => return (scalar::<S>(&b).expect("harness: scalar"), own),
        4 => { b[..24].fill(0); let o = S::parse_scalar(&b).expect("harness: scalar"); return (scalar::<S>(&b).expect("harness: scalar"), o) },
        5 => { let o = n.neg(&[w, 0, 0, 0]); return (exact::<S>(&S::scalar_bytes(&o)).expect("harness: scalar"), o) },
        6 => { let o = [w, 0, 0, 0]; return (exact::<S>(&S::scalar_bytes(&o)).expect("harness: scalar"), o) },
        _ => {},
    }
    let o = n.reduce(&own);
    (exact::<S>(&S::scalar_bytes(&o)).expect("harness: scalar"), o)
}

/// the hash as a residue
fn challenge<S: Side, D: Hash>(r: &[u8], m: &[u8]) -> U {
    let h = D::default().chain(r).chain(m).finalize_fixed();
    S::parse_scalar(&h).expect("harness: challenge")
}

#[derive(Clone)]
struct Held<T> {
    /// as made or parsed; none when the bytes are refused
    obj: Option<T>,
    bytes: Vec<u8>,
}

fn hold<S: Side, D: Hash>(bytes: Vec<u8>) -> Held<Sig<S, D>>
where
    Concat<Array<<S::C as Curve>::CoordinateLength>, Sc<S>>: LineValid,
    Sc<S>: LineValid<Length = U32>,
{
    Held { obj: Sig::<S, D>::try_clone_array(&GenericArray::clone_from_slice(&bytes)).ok(), bytes }
}

fn flip(b: &mut [u8], id: &str, what: &str, p: usize) {
    // two different bits
    let l = b.len() * 8;
    let a = u16::from_le_bytes(stream(id, what, 2).try_into().unwrap()) as usize;
    let k = if p == 1 { a % l } else { (a % l + 1 + a / l % (l - 1)) % l };
    b[k / 8] ^= 1 << (k % 8);
}

fn keys<S: Side>(id: &str) -> Vec<Key<S>> {
    let n = S::n();
    let mut ks: Vec<Key<S>> = vec![];
    for l in ["d1", "d2"] {
        let (sk, own) = secret::<S>(id, l);
        ks.push(Key { pk: S::C::base().exp_ec(&sk), sk: Some(sk), own });
    }
    let (a, b) = (n.reduce(&ks[0].own), n.reduce(&ks[1].own));
    for own in [n.neg(&a), n.add(&a, &b)] {
        if own == ZERO { continue }
        let p = S::compress(&S::exp(&S::base(), &own));
        ks.push(Key { sk: None, pk: unpress::<S>(&p).expect("harness: key"), own });
    }
    ks
}

fn replay<S: Side, D: Hash>(log: &[Ev], id: &str, about: &str) -> Result<usize, (&'static str, String)>
where
    Concat<Array<<S::C as Curve>::CoordinateLength>, Sc<S>>: LineValid,
    Sc<S>: LineValid<Length = U32>,
{
    let n = S::n();
    let msgs = messages(id);
    let mut ks = keys::<S>(id);
    // distinct keys: extreme values can coincide
    let mut other = msgs.clone();
    other.sort();
    other.dedup();
    if other.len() < 6 { return Ok(0) }
    let mut sums: Vec<Vec<u8>> = ks.iter().map(|k| k.pk.compress().to_vec()).collect();
    sums.sort();
    sums.dedup();
    if sums.len() < 4 { return Ok(0) }
    let nonces: Vec<_> = ["k1", "k2"].iter().map(|l| secret::<S>(id, l)).collect();
    // fresh nonces for the algebra: k1 and k2 neither equal nor opposite
    let x = |k: &U| S::coordinate(&S::exp(&S::base(), k)).expect("harness: coordinate");
    if x(&nonces[0].1) == x(&nonces[1].1) { return Ok(0) }
    let mut sigs: Vec<Held<Sig<S, D>>> = vec![];
    let mut steps = 0;
    let s_of = |b: &[u8]| -> U { let mut v = b[32..].to_vec(); if S::scalar_bytes(&[1, 0, 0, 0])[0] == 0 { v.reverse() } from_le(&v) };
    for (i, v) in log.iter().enumerate() {
        let e = |c: &'static str, m: &str| (c, format!("step {} ({} {} {} {}): {m}", i + 1, v.op, v.x, v.y, v.m));
        match v.op.as_str() {
            "sign" => {
                let sk = ks[v.x - 1].sk.as_ref().expect("harness: owner");
                let r = guard(|| Sig::<S, D>::sign(sk, &msgs[v.m - 1], &nonces[v.y - 3].0));
                let s = match r {
                    Ok(Ok(s)) => s,
                    Ok(Err(())) => return Err(e("genuine", "signing fails")),
                    Err(p) => return Err(e("genuine", &format!("signing: {p}"))),
                };
                sigs.push(Held { bytes: s.clone_line().to_vec(), obj: Some(s) });
            },
            "sig" => {
                let h = &sigs[v.x - 1];
                if let Some(s) = &h.obj {
                    let b = s.clone_line().to_vec();
                    if b != h.bytes { return Err(e("genuine", "a signature serialises to other bytes than before")) }
                    let o = Sig::<S, D>::try_clone_array(&GenericArray::clone_from_slice(&b)).map_err(|_| e("genuine", "the bytes of a signature are refused"))?;
                    sigs[v.x - 1].obj = Some(o);
                }
            },
            "pkline" => {
                let b = ks[v.x - 1].pk.clone_line().to_vec();
                ks[v.x - 1].pk = point::<S>(&b).ok_or_else(|| e("genuine", "the bytes of a key are refused"))?;
            },
            "pkpress" => {
                let b = ks[v.x - 1].pk.compress().to_vec();
                ks[v.x - 1].pk = unpress::<S>(&b).ok_or_else(|| e("genuine", "the compressed bytes of a key are refused"))?;
            },
            "flipr" | "flips" => {
                let mut b = sigs[v.x - 1].bytes.clone();
                if v.op == "flipr" { flip(&mut b[..32], id, "fr", v.y) } else { flip(&mut b[32..], id, "fs", v.y) }
                sigs.push(hold::<S, D>(b));
            },
            "combine" => sigs.push(hold::<S, D>([&sigs[v.x - 1].bytes[..32], &sigs[v.y - 1].bytes[32..]].concat())),
            "negs" | "adds" => {
                let a = s_of(&sigs[v.x - 1].bytes);
                let r = if v.op == "negs" { n.neg(&n.reduce(&a)) } else { n.add(&n.reduce(&a), &n.reduce(&s_of(&sigs[v.y - 1].bytes))) };
                sigs.push(hold::<S, D>([&sigs[v.x - 1].bytes[..32], &S::scalar_bytes(&r)].concat()));
            },
            "junkr" => {
                let mut b = sigs[v.x - 1].bytes.clone();
                let t = stream(id, &format!("junkr{i}"), 33);
                match t[32] % 4 { 0 => b[..32].fill(0), 1 => b[..32].fill(0xff), 2 => { b[..32].fill(0); b[0] = 2 }, _ => b[..32].copy_from_slice(&t[..32]) }
                sigs.push(hold::<S, D>(b));
            },
            "junks" => {
                let mut b = sigs[v.x - 1].bytes.clone();
                let t = stream(id, &format!("junks{}", v.y), 32);
                match v.y {
                    5 => b[32..].copy_from_slice(&t),
                    6 => b[32..].fill(0),
                    7 => b[32..].fill(0xff),
                    // the order of the group, and one
                    8 => { b[32..].copy_from_slice(&S::scalar_bytes(&n.m)) },
                    _ => b[32..].copy_from_slice(&S::scalar_bytes(&[1, 0, 0, 0])),
                }
                sigs.push(hold::<S, D>(b));
            },
            "cancel" => {
                let b = &sigs[v.x - 1].bytes;
                let h = n.reduce(&challenge::<S, D>(&b[..32], &msgs[v.m - 1]));
                let s = n.neg(&n.mul(&n.reduce(&ks[v.y - 1].own), &h));
                sigs.push(hold::<S, D>([&b[..32], &S::scalar_bytes(&s)].concat()));
            },
            "verify" => {
                let r = match &sigs[v.x - 1].obj {
                    None => Ok(false),
                    Some(s) => guard(|| s.verify(&ks[v.y - 1].pk, &msgs[v.m - 1]).is_ok()),
                };
                match r {
                    Err(p) => return Err(e(if v.ok { "genuine" } else { "altered" }, &format!("verifying: {p}"))),
                    Ok(true) if !v.ok => return Err(e("altered", "a signature verifies and must not")),
                    // under keys related to the signer's nothing requires it to verify
                    Ok(false) if v.ok && v.y <= 2 => return Err(e("genuine", "a genuine signature does not verify")),
                    _ => {},
                }
            },
            o => panic!("harness: {o}"),
        }
        steps += 1;
        let _ = about;
    }
    Ok(steps)
}

fn pick(i: usize, log: &[Ev], id: &str, about: &str) -> Result<usize, (&'static str, String)> {
    // operations on secp256k1 are a hundred times slower
    match i % 16 {
        1 => replay::<SecpS, sha3::Sha3_256>(log, id, about),
        2 => replay::<SecpS, sha2::Sha256>(log, id, about),
        k if k % 2 == 0 => replay::<EdS, sha3::Sha3_256>(log, id, about),
        _ => replay::<EdS, sha2::Sha256>(log, id, about),
    }
}

/// `about`: "genuine" or "altered"
pub fn run(lines: &[String], about: &str, reps: usize, seed: u64, rep: &Report) {
    par(lines.len() * reps, |i| {
        let l = &lines[i / reps];
        let log: Vec<Ev> = serde_json::from_str(l).expect("harness: trace");
        let id = format!("{seed}.{i}");
        match guard(|| pick(i, &log, &id, about)) {
            Ok(Ok(n)) => rep.ok(n),
            Ok(Err((c, m))) => if c == about { rep.fail(Fail::new(c, format!("case {}: {m}", i % 16), l.clone())) },
            Err(m) => rep.fail(Fail::new(about, m, l.clone())),
        }
    });
    if let Some(l) = lines.first() { rep.sample(serde_json::from_str(l).unwrap()) }
}

/// every single bit of signature, key and message
fn bits<S: Side, D: Hash>(id: &str, all: bool, step: usize) -> Result<usize, String>
where
    Concat<Array<<S::C as Curve>::CoordinateLength>, Sc<S>>: LineValid,
    Sc<S>: LineValid<Length = U32>,
{
    let msg = messages(id).swap_remove(0);
    let msg = if msg.len() > 300 { msg[..300].to_vec() } else { msg };
    let ks = keys::<S>(id);
    let k = &ks[0];
    let (seed, _) = secret::<S>(id, "k1");
    let s = Sig::<S, D>::sign(k.sk.as_ref().unwrap(), &msg, &seed).map_err(|_| "signing fails")?;
    let mut good = s.clone_line().to_vec();
    let mut n = 0;
    // of the slow curve, a different part of the alterations in every case
    let part = stream(id, "part", 1)[0] as usize % step;
    for _ in 0..3 {
        let t = Sig::<S, D>::try_clone_array(&GenericArray::clone_from_slice(&good)).map_err(|_| "the bytes of a signature are refused")?;
        t.verify(&k.pk, &msg).map_err(|_| "a genuine signature does not verify after transmission")?;
        let p = unpress::<S>(&k.pk.compress()).ok_or("a compressed key is refused")?;
        t.verify(&p, &msg).map_err(|_| "a genuine signature does not verify under a transmitted key")?;
        good = t.clone_line().to_vec();
        n += 2;
    }
    if !all { return Ok(n) }
    let bad = |b: &[u8], p: &S::C, m: &[u8], what: String| -> Result<(), String> {
        if let Some(o) = hold::<S, D>(b.to_vec()).obj {
            if o.verify(p, &m).is_ok() { return Err(format!("verifies with {what}")) }
        }
        Ok(())
    };
    for i in (part..good.len() * 8).step_by(step) {
        let mut b = good.clone();
        b[i / 8] ^= 1 << (i % 8);
        bad(&b, &k.pk, &msg, format!("bit {i} of the signature altered"))?;
    }
    for i in (part..msg.len() * 8).step_by(step) {
        let mut m = msg.clone();
        m[i / 8] ^= 1 << (i % 8);
        bad(&good, &k.pk, &m, format!("bit {i} of the message altered"))?;
    }
    for l in (part..msg.len()).step_by(step) {
        bad(&good, &k.pk, &msg[..l], format!("the message cut to {l} bytes"))?;
        bad(&good, &k.pk, &msg[l + 1..], format!("the first {} bytes of the message removed", l + 1))?;
    }
    for l in (1 + part..40).step_by(step) {
        bad(&good, &k.pk, &[msg.clone(), vec![0; l]].concat(), format!("{l} zeros appended to the message"))?;
        bad(&good, &k.pk, &[good[..32].to_vec(), msg.clone(), stream(id, "tail", l)].concat(), "another message".into())?;
    }
    let pk = k.pk.compress().to_vec();
    for i in (part..pk.len() * 8).step_by(step) {
        let mut b = pk.clone();
        b[i / 8] ^= 1 << (i % 8);
        if let Some(p) = unpress::<S>(&b) {
            if p.compress().to_vec() != pk { bad(&good, &p, &msg, format!("bit {i} of the key altered"))?; n += 1 }
        }
    }
    // arbitrary bytes never panic
    for j in 0..8 {
        let b = stream(id, &format!("arb{j}"), 64);
        bad(&b, &k.pk, &msg, "arbitrary bytes".into())?;
    }
    Ok(n + good.len() * 8 + msg.len() * 10)
}

pub fn run_bits(n: usize, all: bool, seed: u64, rep: &Report) {
    par(n, |i| {
        let id = format!("{seed}.b{i}");
        let r = guard(|| match i % 16 {
            1 => bits::<SecpS, sha3::Sha3_256>(&id, all, 13),
            2 => bits::<SecpS, sha2::Sha256>(&id, all, 13),
            k if k % 2 == 0 => bits::<EdS, sha3::Sha3_256>(&id, all, 1),
            _ => bits::<EdS, sha2::Sha256>(&id, all, 1),
        });
        match r {
            Ok(Ok(n)) => rep.ok(n),
            Ok(Err(m)) | Err(m) => rep.fail(Fail::new(if all { "altered" } else { "genuine" }, m, format!("seed {seed}, case {i}"))),
        }
    });
}
