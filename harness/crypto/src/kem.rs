//! The KEM: replay of Kem.tla, comparison with the reference, records for KyberPke.tla.
use crate::{kyber_ref, term::stream, util::{guard, par, Fail, Report}};
use rac::{generic_array::{typenum::*, GenericArray}, LineValid};
use serde::Deserialize;
use sha3::Digest;
use vru_kyber::{Kem, Kyber};

type Arr<N> = GenericArray<u8, N>;

#[derive(Deserialize, Clone, Debug)]
pub struct Ev {
    pub op: String,
    pub k: usize,
    pub j: usize,
    pub h: usize,
    pub c: usize,
    pub x: usize,
    pub y: usize,
    pub ok: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Cmp {
    Result,
    Exact,
}

/// what an honest encapsulator makes of the message `m`
pub fn craft(w: usize, pk: &[u8], m: &[u8], h: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let c = sha3::Sha3_512::new().chain(m).chain(h).finalize().to_vec();
    let ct = kyber_ref::encrypt(w, pk, m, &c[32..]);
    let ss = accept(m, h, &ct);
    (ct, ss)
}
pub fn accept(m: &[u8], h: &[u8], ct: &[u8]) -> Vec<u8> {
    let c = sha3::Sha3_512::new().chain(m).chain(h).finalize().to_vec();
    kyber_ref::reject(&c[..32], ct)
}

macro_rules! width {
    ($w:ident, $m:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            pub const WIDTH: usize = $n;
            pub type K = Kyber<$w>;
            pub type Pk = <K as Kem>::PublicKey;
            pub type Sk = <K as Kem>::SecretKey;
            pub type Ct = <K as Kem>::CipherText;
            pub fn hash(pk: &Pk) -> Arr<U32> {
                GenericArray::clone_from_slice(&sha3::Sha3_256::digest(&pk.clone_line()))
            }
            pub fn decaps(sk: &[u8], pk: &[u8], ct: &[u8]) -> Vec<u8> {
                let sk = Sk::try_clone_array(GenericArray::from_slice(sk)).ok().expect("secret key bytes");
                let pk = Pk::try_clone_array(GenericArray::from_slice(pk)).ok().expect("public key bytes");
                let ct = Ct::try_clone_array(GenericArray::from_slice(ct)).ok().expect("ciphertext bytes");
                K::decapsulate(&sk, &pk, &hash(&pk), &ct).to_vec()
            }
            fn again<T: LineValid>(x: &T) -> T {
                T::try_clone_array(&x.clone_line()).ok().expect("own bytes do not parse")
            }
            fn line<T: LineValid>(x: &T) -> Vec<u8> {
                x.clone_line().to_vec()
            }
            /// a behaviour of Kem.tla
            pub fn replay(t: &[Ev], id: &str, cmp: Cmp) -> Result<usize, (String, String)> {
                const W: usize = $m::WIDTH;
                let e = |c: &str, i: usize, m: String| (c.to_string(), format!("width {W}, step {}: {m}", i + 1));
                let keys: Vec<(Vec<u8>, Vec<u8>)> = (0..3).map(|k| {
                    let mut s = stream(id, &format!("a{}", [1, 2, 1][k]), 32);
                    let z = stream(id, &format!("z{}", [1, 2, 2][k]), 32);
                    s.extend_from_slice(&z);
                    (s, z)
                }).collect();
                let mut pk: Vec<Pk> = vec![];
                let mut sk: Vec<Sk> = vec![];
                for (k, (s, _)) in keys.iter().enumerate() {
                    let (p, q) = K::generate_pair(GenericArray::from_slice(s));
                    if cmp == Cmp::Exact {
                        let (rp, rq) = kyber_ref::kem_gen(W, s);
                        if line(&p) != rp || line(&q) != rq { return Err(e("bytes", 0, format!("key pair {} differs", k + 1))) }
                    }
                    pk.push(p);
                    sk.push(q);
                }
                // hashes by number of the encryption key; made once, from the key as generated
                let hashes = [(1, hash(&pk[0])), (2, hash(&pk[1])), (9, GenericArray::clone_from_slice(&stream(id, "foreign", 32)))];
                let h = |n: usize| hashes.iter().find(|x| x.0 == n).unwrap().1.clone();
                let pkb: Vec<Vec<u8>> = pk.iter().map(line).collect();
                let mut ct: Vec<Ct> = vec![];
                let mut bytes: Vec<Vec<u8>> = vec![];
                let mut sent: Vec<(usize, Vec<u8>)> = vec![]; // by step
                let mut made: std::collections::HashMap<(usize, usize, usize), (Vec<u8>, Vec<u8>)> = Default::default();
                let parse = |b: &[u8]| Ct::try_clone_array(GenericArray::from_slice(b)).ok();
                let mut n = 0;
                for (i, v) in t.iter().enumerate() {
                    let mut new: Option<Vec<u8>> = None;
                    match v.op.as_str() {
                        "enc" => {
                            let seed = stream(id, &format!("s{}", v.x), 32);
                            let r = guard(|| K::encapsulate(GenericArray::from_slice(&seed), &pk[v.k - 1], &h(v.h)));
                            let (c, ss) = r.map_err(|m| e("recover", i, m))?;
                            let (b, ss) = (line(&c), ss.to_vec());
                            let a = [1, 2, 1][v.k - 1];
                            let old = made.entry((a, v.h, v.x)).or_insert((b.clone(), ss.clone()));
                            if *old != (b.clone(), ss.clone()) {
                                return Err(e("recover", i, "the same encapsulation to the same key gives another result after reserialisation".into()));
                            }
                            if cmp == Cmp::Exact {
                                let m = sha3::Sha3_256::digest(&seed).to_vec();
                                let (rc, rs) = craft(W, &pkb[v.k - 1], &m, &h(v.h));
                                if rc != b || rs != ss { return Err(e("bytes", i, "encapsulation differs".into())) }
                            }
                            sent.push((i + 1, ss));
                            ct.push(c);
                            bytes.push(b);
                        },
                        "craft" => {
                            let m = stream(id, &format!("m{}", v.x), 32);
                            new = Some(if v.y == 0 { craft(W, &pkb[v.k - 1], &m, &h(v.h)).0 } else {
                                kyber_ref::encrypt(W, &pkb[v.k - 1], &m, &stream(id, &format!("r{}", v.y), 32))
                            });
                        },
                        "flip" => {
                            let mut b = bytes[v.c - 1].clone();
                            let r = stream(id, &format!("p{}", v.x), 8);
                            let r0 = u64::from_le_bytes(r[..8].try_into().unwrap()) as usize;
                            let (u, l) = (352 * W, b.len());
                            let at = match v.x { 1..=3 => r0 % u, 4 => 0, 5 => u + r0 % (l - u), _ => l - 1 };
                            // different flips are different bits, also where the bytes coincide
                            b[at] ^= 1 << ((v.x + stream(id, "shift", 1)[0] as usize) % 8);
                            new = Some(b);
                        },
                        "splice" => {
                            let (x, y) = (&bytes[v.c - 1], &bytes[v.x - 1]);
                            let cut = 352 * W;
                            let mut b = x.clone();
                            b[cut..].copy_from_slice(&y[cut..]);
                            new = Some(b);
                        },
                        "junk" => {
                            let l = 352 * W + 96;
                            new = Some(match v.x { 0 => vec![0; l], 1 => vec![0xff; l], x => stream(id, &format!("j{x}"), l) });
                        },
                        "pk" | "sk" | "ct" => {
                            let r = guard(|| match v.op.as_str() {
                                "pk" => { let x = again(&pk[v.c - 1]); let d = line(&x) == line(&pk[v.c - 1]); pk[v.c - 1] = x; d },
                                "sk" => { let x = again(&sk[v.c - 1]); let d = line(&x) == line(&sk[v.c - 1]); sk[v.c - 1] = x; d },
                                _ => { let x = again(&ct[v.c - 1]); let d = line(&x) == bytes[v.c - 1]; ct[v.c - 1] = x; d },
                            });
                            match r {
                                Ok(true) => {},
                                Ok(false) => return Err(e("recover", i, format!("serialisation of {} is not lossless", v.op))),
                                Err(m) => return Err(e("recover", i, m)),
                            }
                        },
                        "dec" => {
                            let r = guard(|| K::decapsulate(&sk[v.k - 1], &pk[v.j - 1], &h(v.h), &ct[v.c - 1]));
                            let class = if v.ok { "recover" } else { "reject" };
                            let ss = r.map_err(|m| e(class, i, m))?.to_vec();
                            let b = &bytes[v.c - 1];
                            if v.y != 0 {
                                let want = &sent.iter().find(|x| x.0 == v.y).unwrap().1;
                                if ss != *want { return Err(e("recover", i, "the shared secrets differ".into())) }
                            } else if !v.ok && ss != kyber_ref::reject(&keys[v.k - 1].1, b) {
                                let how = if sent.iter().any(|x| x.1 == ss) { "the honest secret" } else { "another value" };
                                return Err(e("reject", i, format!("decapsulation yields {how}, not the function of rejection secret and ciphertext")));
                            }
                            if cmp == Cmp::Exact {
                                let want = if v.ok {
                                    let m = kyber_ref::decrypt(W, &line(&sk[v.k - 1])[..416 * W], b);
                                    accept(&m, &h(v.h), b)
                                } else { kyber_ref::reject(&keys[v.k - 1].1, b) };
                                if ss != want { return Err(e("bytes", i, "the secret differs".into())) }
                            }
                        },
                        o => panic!("harness: {o}"),
                    }
                    if let Some(b) = new {
                        match guard(|| parse(&b)) {
                            Ok(Some(c)) => {
                                if line(&c) != b { return Err(e("recover", i, "a parsed ciphertext serialises to other bytes".into())) }
                                ct.push(c);
                            },
                            Ok(None) => return Err(e("reject", i, "the bytes of a ciphertext do not parse".into())),
                            Err(m) => return Err(e("reject", i, m)),
                        }
                        bytes.push(b);
                    }
                    n += 1;
                }
                Ok(n)
            }
            /// every single-bit alteration of one ciphertext
            pub fn bits(id: &str, rep: &Report) {
                let seed = stream(id, "bits", 96);
                let (pk, sk) = K::generate_pair(GenericArray::from_slice(&seed[..64]));
                let h = hash(&pk);
                let (ct, ss) = K::encapsulate(GenericArray::from_slice(&seed[64..]), &pk, &h);
                let b = line(&ct);
                let fail = |m: String| rep.fail(Fail::new("reject", format!("width {}: {m}", $m::WIDTH), hex::encode(&seed)));
                for i in 0..b.len() * 8 {
                    let mut c = b.clone();
                    c[i / 8] ^= 1 << (i % 8);
                    let r = guard(|| {
                        let c = Ct::try_clone_array(GenericArray::from_slice(&c)).ok().expect("parse");
                        K::decapsulate(&sk, &pk, &h, &c).to_vec()
                    });
                    match r {
                        Ok(x) if x == kyber_ref::reject(&seed[32..64], &c) => {},
                        Ok(x) if x == ss.to_vec() => return fail(format!("bit {i} of the ciphertext does not matter")),
                        Ok(_) => return fail(format!("bit {i} altered: not the function of rejection secret and ciphertext")),
                        Err(m) => return fail(format!("bit {i} altered: {m}")),
                    }
                }
                rep.ok(b.len() * 8);
            }
            /// honest use of one key, in every combination of fresh and reparsed objects
            pub fn honest(id: &str, rep: &Report) {
                let seed = stream(id, "honest", 96);
                let fail = |m: String| rep.fail(Fail::new("recover", format!("width {}: {m}", $m::WIDTH), hex::encode(&seed)));
                let r = guard(|| {
                    let (pk, sk) = K::generate_pair(GenericArray::from_slice(&seed[..64]));
                    let h = hash(&pk);
                    let (pk1, sk1) = (again(&pk), again(&sk));
                    if line(&pk1) != line(&pk) || line(&sk1) != line(&sk) { return Err("a key is not serialised losslessly") }
                    let (ct, ss) = K::encapsulate(GenericArray::from_slice(&seed[64..]), &pk, &h);
                    let (c2, s2) = K::encapsulate(GenericArray::from_slice(&seed[64..]), &pk1, &h);
                    if line(&ct) != line(&c2) || ss != s2 { return Err("a reparsed public key encapsulates differently") }
                    let ct1 = again(&ct);
                    if line(&ct1) != line(&ct) { return Err("a ciphertext is not serialised losslessly") }
                    for i in 0..8 {
                        let x = K::decapsulate(if i & 1 == 0 { &sk } else { &sk1 }, if i & 2 == 0 { &pk } else { &pk1 }, &h, if i & 4 == 0 { &ct } else { &ct1 });
                        if x != ss { return Err("decapsulation does not recover the secret") }
                    }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => rep.ok(8),
                    Ok(Err(m)) => fail(m.into()),
                    Err(m) => fail(m),
                }
            }
            /// everything the scheme produces for these seeds, as bytes
            pub fn all(seed: &[u8], enc: &[u8]) -> [Vec<u8>; 5] {
                let (pk, sk) = K::generate_pair(GenericArray::from_slice(seed));
                let h = hash(&pk);
                let (ct, ss) = K::encapsulate(GenericArray::from_slice(enc), &pk, &h);
                let dec = K::decapsulate(&sk, &pk, &h, &ct);
                [pk.clone_line().to_vec(), sk.clone_line().to_vec(), ct.clone_line().to_vec(), ss.to_vec(), dec.to_vec()]
            }
        }
    };
}
width!(U2, w2, 2);
width!(U3, w3, 3);
width!(U4, w4, 4);

pub fn all(w: usize, seed: &[u8], enc: &[u8]) -> [Vec<u8>; 5] {
    match w {
        2 => w2::all(seed, enc),
        3 => w3::all(seed, enc),
        _ => w4::all(seed, enc),
    }
}

pub fn decaps(w: usize, sk: &[u8], pk: &[u8], ct: &[u8]) -> Vec<u8> {
    match w {
        2 => w2::decaps(sk, pk, ct),
        3 => w3::decaps(sk, pk, ct),
        _ => w4::decaps(sk, pk, ct),
    }
}

/// random seeds: the crate and the reference produce the same bytes
pub fn run_diff(n: usize, seed: u64, rep: &Report) {
    par(n, |i| {
        let w = 2 + i % 3;
        let s = stream(&format!("{seed}"), &format!("kyber{i}"), 96);
        let r = guard(|| all(w, &s[..64], &s[64..]));
        let (pk, sk) = kyber_ref::kem_gen(w, &s[..64]);
        let (ct, ss) = kyber_ref::kem_enc(w, &s[64..], &pk);
        let id = format!("width {w}, pair seed {}, encapsulation seed {}", hex::encode(&s[..64]), hex::encode(&s[64..]));
        match r {
            Err(e) => rep.fail(Fail::new("kyber", e, id)),
            Ok([a, b, c, d, e]) => {
                for (name, got, want) in [("public key", &a, &pk), ("secret key", &b, &sk), ("ciphertext", &c, &ct), ("shared secret", &d, &ss), ("decapsulated secret", &e, &ss)] {
                    if got != want {
                        let p = got.iter().zip(want.iter()).position(|(x, y)| x != y);
                        rep.fail(Fail::new("kyber", format!("{name} differs at byte {p:?}: {id}"), id.clone()));
                        break;
                    }
                }
                rep.ok(5);
            },
        }
    });
}

/// instances for KyberPke.tla: what the crate computed, and the hash values the specification asks for
pub fn run_records(n: usize, seed: u64, out: &str, rep: &Report) {
    use std::io::Write;
    let rows = std::sync::Mutex::new(vec![]);
    let h256 = |x: &[u8]| sha3::Sha3_256::digest(x).to_vec();
    let h512 = |x: &[u8]| sha3::Sha3_512::digest(x).to_vec();
    par(n, |i| {
        let w = 2 + i % 3;
        let s = stream(&format!("{seed}"), &format!("record{i}"), 200);
        let (pks, encs) = (&s[..64], &s[64..96]);
        let r = guard(|| {
            let [pk, sk, ct, ss, dec] = all(w, pks, encs);
            // damaged: one bit; many coefficients; all of it
            let mut bad = ct.clone();
            match i % 4 {
                0 => { let b = s[96] as usize * 8 % bad.len(); bad[b] ^= 1 << (s[97] & 7) },
                1 => { let l = bad.len(); bad[l - 96 + s[96] as usize % 96] ^= 1 << (s[97] & 7) },
                2 => { let b = stream("x", &format!("bad{i}"), 64); let l = bad.len(); bad[l - 64..].copy_from_slice(&b) },
                _ => bad = stream("x", &format!("junk{i}"), bad.len()),
            }
            let dbad = decaps(w, &sk, &pk, &bad);
            ([pk, sk, ct, ss, dec], bad, dbad)
        });
        let ([pk, sk, ct, ss, dec], bad, dbad) = match r {
            Err(e) => { rep.fail(Fail::new("kyber", format!("{e}: width {w}, seeds {}", hex::encode(&s[..96])), String::new())); return },
            Ok(x) => x,
        };
        let noise = |sd: &[u8], nonces: std::ops::Range<usize>| -> Vec<serde_json::Value> {
            nonces.map(|j| { let mut v = sd.to_vec(); v.push(j as u8); serde_json::json!({"f": "shake256", "output": kyber_ref::shake256(&v, 2 * [5, 4, 3][w - 2] * 32), "input": v}) }).collect()
        };
        let matrix = |rho: &[u8]| -> Vec<serde_json::Value> {
            (0..w * w).map(|k| { let mut v = rho.to_vec(); v.extend([(k / w) as u8, (k % w) as u8]); serde_json::json!({"f": "shake128", "output": kyber_ref::shake128(&v, 840), "input": v}) }).collect()
        };
        let h = |f: &str, x: &[u8]| serde_json::json!({"f": f, "input": x, "output": if f == "sha3-256" { h256(x) } else { h512(x) }});
        let rho = &pk[352 * w..];
        let mut push = |kind: &str, ct: &[u8], ss: &[u8], sd: &[u8], hs: Vec<serde_json::Value>| {
            rows.lock().unwrap().push(serde_json::json!({"kind": kind, "w": w, "seed": sd, "pk": pk, "sk": sk, "ct": ct, "ss": ss, "hashes": hs}).to_string());
            rep.ok(1);
        };
        let c = h512(&pks[..32]);
        let mut hs = vec![h("sha3-512", &pks[..32])];
        hs.extend(matrix(&c[..32]));
        hs.extend(noise(&c[32..], 0..2 * w));
        push("keys", &[], &[], pks, hs);
        let tail = |m: &[u8], ct: &[u8], first: &[u8]| {
            let mut hs = vec![h("sha3-256", &pk)];
            let pre: Vec<u8> = m.iter().cloned().chain(h256(&pk)).collect();
            let c = h512(&pre);
            hs.push(h("sha3-512", &pre));
            hs.extend(matrix(rho));
            hs.extend(noise(&c[32..], 0..2 * w + 1));
            hs.push(h("sha3-256", ct));
            for k in [&c[..32], first] {
                let v: Vec<u8> = k.iter().cloned().chain(h256(ct)).collect();
                hs.push(h("sha3-256", &v));
            }
            hs
        };
        let m = h256(encs);
        let z = &sk[416 * w..];
        let mut hs = vec![h("sha3-256", encs)];
        hs.extend(tail(&m, &ct, z));
        push("enc", &ct, &ss, encs, hs);
        let (c1, d1) = if i % 2 == 0 { (&ct, &dec) } else { (&bad, &dbad) };
        // the message is computed by the reference only to know which hash values to supply;
        // if TLC computes another message it does not find them and says so
        let m1 = kyber_ref::decrypt(w, &sk[..416 * w], c1);
        push("dec", c1, d1, &[], tail(&m1, c1, z));
    });
    let rows = rows.into_inner().unwrap();
    let mut f = std::fs::File::create(out).unwrap();
    for r in rows { writeln!(f, "{r}").unwrap() }
}

/// behaviours of Kem.tla
pub fn run_kem(lines: &[String], about: &str, seed: u64, rep: &Report) {
    let exact = about == "exact";
    par(lines.len(), |i| {
        let t: Vec<Ev> = serde_json::from_str(&lines[i]).expect("harness: trace");
        let id = format!("{seed}.{i}");
        let cmp = if exact { Cmp::Exact } else { Cmp::Result };
        for (w, f) in [(2, w2::replay as fn(&[Ev], &str, Cmp) -> Result<usize, (String, String)>), (3, w3::replay), (4, w4::replay)] {
            if exact && i % 3 != w - 2 { continue }
            match guard(|| f(&t, &id, cmp)) {
                Ok(Ok(n)) => rep.ok(n),
                // what concerns another property is left to its check
                Ok(Err((c, _))) if !exact && c != about => {},
                Ok(Err((c, m))) => rep.fail(Fail::new(&c, m, lines[i].clone())),
                Err(m) => rep.fail(Fail::new(about, m, lines[i].clone())),
            }
        }
    });
    if let Some(l) = lines.first() { rep.sample(serde_json::from_str(l).unwrap()) }
}

pub fn run_bits(n: usize, seed: u64, rep: &Report) {
    par(n, |i| {
        let id = format!("{seed}.{i}");
        [w2::bits, w3::bits, w4::bits][i % 3](&id, rep)
    });
}

pub fn run_honest(n: usize, seed: u64, rep: &Report) {
    par(n, |i| {
        let id = format!("{seed}.{i}");
        [w2::honest, w3::honest, w4::honest][i % 3](&id, rep)
    });
}
