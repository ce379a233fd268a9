//! Evaluates the symbolic terms of the specification to bytes, with primitives that share
//! nothing with the code under test: HMAC and HKDF are written out from their definitions,
//! the lattice part is `kyber_ref`.
use serde::Deserialize;
use std::collections::HashMap;
use sha3::Digest as _;

#[derive(Deserialize, Debug, Clone)]
pub struct Node {
    pub op: String,
    pub s: String,
    pub k: Vec<usize>,
    pub p: Vec<i64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HashKind {
    Sha256,
    Sha512,
    Sha3_256,
    Sha3_512,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum AeadKind {
    ChaCha,
    Aes256,
    Aes128,
}

impl HashKind {
    pub fn hash(self, data: &[u8]) -> Vec<u8> {
        match self {
            HashKind::Sha256 => sha2::Sha256::digest(data).to_vec(),
            HashKind::Sha512 => sha2::Sha512::digest(data).to_vec(),
            HashKind::Sha3_256 => sha3::Sha3_256::digest(data).to_vec(),
            HashKind::Sha3_512 => sha3::Sha3_512::digest(data).to_vec(),
        }
    }
    pub fn block(self) -> usize {
        match self {
            HashKind::Sha256 => 64,
            HashKind::Sha512 => 128,
            HashKind::Sha3_256 => 136,
            HashKind::Sha3_512 => 72,
        }
    }
    pub fn len(self) -> usize {
        match self {
            HashKind::Sha256 | HashKind::Sha3_256 => 32,
            _ => 64,
        }
    }
    pub fn hmac(self, key: &[u8], data: &[u8]) -> Vec<u8> {
        let b = self.block();
        let mut k = if key.len() > b { self.hash(key) } else { key.to_vec() };
        k.resize(b, 0);
        let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        inner.extend_from_slice(data);
        let mut outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        outer.extend_from_slice(&self.hash(&inner));
        self.hash(&outer)
    }
    /// output number `i` (from 1) of the Noise HKDF
    pub fn hkdf(self, ck: &[u8], ikm: &[u8], i: usize) -> Vec<u8> {
        let temp = self.hmac(ck, ikm);
        let mut out = Vec::new();
        for j in 1..=i {
            let mut x = out.clone();
            x.push(j as u8);
            out = self.hmac(&temp, &x);
        }
        out
    }
}

impl AeadKind {
    pub fn key_len(self) -> usize {
        if self == AeadKind::Aes128 { 16 } else { 32 }
    }
    pub fn nonce(self, n: u64) -> [u8; 12] {
        let mut r = [0; 12];
        match self {
            AeadKind::ChaCha => r[4..].copy_from_slice(&n.to_le_bytes()),
            _ => r[4..].copy_from_slice(&n.to_be_bytes()),
        }
        r
    }
    pub fn seal(self, key: &[u8], n: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
        use aead::{Aead, NewAead, Payload};
        let nonce = self.nonce(n);
        let p = Payload { msg: pt, aad: ad };
        match self {
            AeadKind::ChaCha => chacha20poly1305::ChaCha20Poly1305::new_from_slice(key).unwrap().encrypt(&nonce.into(), p),
            AeadKind::Aes256 => aes_gcm::Aes256Gcm::new_from_slice(key).unwrap().encrypt(&nonce.into(), p),
            AeadKind::Aes128 => aes_gcm::Aes128Gcm::new_from_slice(key).unwrap().encrypt(&nonce.into(), p),
        }
        .unwrap()
    }
}

/// deterministic bytes for an atom
pub fn stream(seed: &str, label: &str, len: usize) -> Vec<u8> {
    // extreme values: almost only zeros or ones, with a few bytes in every block to tell them apart
    if let Some(fill) = seed.strip_prefix("sparse").map(|s| if s.starts_with('0') { 0 } else { 0xff }) {
        if len >= 16 {
            let mut v = vec![fill; len];
            for c in v.chunks_mut(32) {
                if c.len() >= 12 {
                    c[4..12].copy_from_slice(&sha2::Sha512::digest(format!("{seed}/{label}").as_bytes())[..8]);
                }
            }
            return v;
        }
    }
    let mut out = Vec::new();
    let mut i = 0u32;
    while out.len() < len {
        out.extend_from_slice(&sha2::Sha512::digest(format!("{seed}/{label}/{i}").as_bytes()));
        i += 1;
    }
    out.truncate(len);
    out
}

pub struct Terms<'a> {
    pub defs: &'a [Node],
    pub hash: HashKind,
    pub aead: AeadKind,
    pub seed: String,
    pub bind: HashMap<String, Vec<u8>>,
    pub name: String,
    memo: Vec<Option<Vec<u8>>>,
}

pub fn damage(x: &[u8], kind: i64) -> Vec<u8> {
    let mut v = x.to_vec();
    let n = v.len();
    match kind {
        0 if n > 0 => v[0] ^= 1,
        1 if n > 0 => v[n - 1] ^= 0x80,
        2 if n > 0 => v[n / 2] ^= 0x10,
        3 if n > 0 => {
            v.pop();
        },
        4 => v.push(0),
        5 => v.fill(0),
        6 => v.fill(0xff),
        _ => v.push(1),
    }
    v
}

pub fn clamp(k: &[u8]) -> curve25519_dalek::scalar::Scalar {
    let mut b = [0u8; 32];
    b.copy_from_slice(k);
    b[0] &= 248;
    b[31] &= 127;
    b[31] |= 64;
    curve25519_dalek::scalar::Scalar::from_bits(b)
}

use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint as Ed};
pub fn valid_point(x: &[u8]) -> bool {
    CompressedEdwardsY::from_slice(x).decompress().is_some()
}
fn variations(x: &[u8]) -> impl Iterator<Item = Vec<u8>> + '_ {
    (1..=255u8).map(move |i| {
        let mut v = x.to_vec();
        v[(i as usize * 5) % 31] ^= i;
        v
    })
}
/// another point
pub fn altpt(x: &[u8]) -> Vec<u8> {
    variations(x).find(|v| valid_point(v)).unwrap()
}
/// no point
pub fn badpt(x: &[u8]) -> Vec<u8> {
    variations(x).find(|v| !valid_point(v)).unwrap()
}
/// the same point plus one of order eight
pub fn torpt(x: &[u8]) -> Vec<u8> {
    let p: Ed = CompressedEdwardsY::from_slice(x).decompress().unwrap();
    (p + curve25519_dalek::constants::EIGHT_TORSION[1]).compress().to_bytes().to_vec()
}

impl<'a> Terms<'a> {
    pub fn new(defs: &'a [Node], hash: HashKind, aead: AeadKind, seed: String) -> Self {
        Terms { defs, hash, aead, seed, bind: HashMap::new(), name: String::new(), memo: vec![None; defs.len() + 1] }
    }

    pub fn get(&mut self, t: usize) -> Vec<u8> {
        if let Some(v) = &self.memo[t] {
            return v.clone();
        }
        let n = self.defs[t - 1].clone();
        let v = self.eval(&n);
        self.memo[t] = Some(v.clone());
        v
    }

    fn cat(&mut self, ks: &[usize]) -> Vec<u8> {
        let mut v = Vec::new();
        for &k in ks {
            v.extend_from_slice(&self.get(k));
        }
        v
    }

    fn eval(&mut self, n: &Node) -> Vec<u8> {
        use curve25519_dalek::{constants, montgomery::MontgomeryPoint, edwards::EdwardsPoint};
        match n.op.as_str() {
            "lit" => match self.bind.get(&n.s) {
                Some(v) => v.clone(),
                None => stream(&self.seed, &n.s, n.p[0] as usize),
            },
            "str" => n.s.as_bytes().to_vec(),
            "name" => {
                let name = if self.name.is_empty() { n.s.clone() } else { self.name.clone() };
                let l = self.hash.len();
                if name.len() <= l {
                    let mut v = name.into_bytes();
                    v.resize(l, 0);
                    v
                } else {
                    self.hash.hash(name.as_bytes())
                }
            },
            "cat" => self.cat(&n.k),
            "hash" => {
                let v = self.cat(&n.k);
                self.hash.hash(&v)
            },
            "hkdf" | "hkdfk" => {
                let (ck, ikm) = (self.get(n.k[0]), self.get(n.k[1]));
                let mut v = self.hash.hkdf(&ck, &ikm, n.p[1] as usize);
                if n.op == "hkdfk" {
                    v.truncate(self.aead.key_len());
                }
                v
            },
            "aead" => {
                let (key, ad, pt) = (self.get(n.k[0]), self.get(n.k[1]), self.get(n.k[2]));
                self.aead.seal(&key, n.p[0] as u64, &ad, &pt)
            },
            "dmg" => {
                let x = self.get(n.k[0]);
                damage(&x, n.p[0])
            },
            "xpub" => {
                let s = clamp(&self.get(n.k[0]));
                (constants::X25519_BASEPOINT * s).to_bytes().to_vec()
            },
            "xdh" => {
                let (a, b) = (clamp(&self.get(n.k[0])), clamp(&self.get(n.k[1])));
                let p: MontgomeryPoint = constants::X25519_BASEPOINT * a;
                (p * b).to_bytes().to_vec()
            },
            "epub" => {
                let s = clamp(&self.get(n.k[0]));
                (constants::ED25519_BASEPOINT_POINT * s).compress().to_bytes().to_vec()
            },
            "edh" => {
                let (a, b) = (clamp(&self.get(n.k[0])[..32]), clamp(&self.get(n.k[1])[..32]));
                let p: EdwardsPoint = constants::ED25519_BASEPOINT_POINT * a;
                (p * b).compress().to_bytes().to_vec()
            },
            "ell" => {
                let s = clamp(&self.get(n.k[0])[..32]);
                (constants::ED25519_BASEPOINT_POINT * s).compress().to_bytes().to_vec()
            },
            "lat" => crate::kyber_ref::kem_gen(3, &self.get(n.k[0])[32..96]).0,
            "edhp" => {
                let p = CompressedEdwardsY::from_slice(&self.get(n.k[0])).decompress().unwrap();
                (p * clamp(&self.get(n.k[1])[..32])).compress().to_bytes().to_vec()
            },
            "lowpt" => {
                let mut v = vec![0; 32];
                v[0] = 1;
                v
            },
            "altpt" => altpt(&self.get(n.k[0])),
            "near" => near(&self.get(n.k[0]), &n.s, 4242424242),
            "badpt" => badpt(&self.get(n.k[0])),
            "torpt" => torpt(&self.get(n.k[0])),
            "kct" | "kss" => {
                let (s, l) = (self.get(n.k[0]), self.get(n.k[1]));
                let (ct, ss) = crate::kyber_ref::kem_enc(3, &s, &l);
                if n.op == "kct" { ct } else { ss }
            },
            "krej" => {
                let (s, c) = (self.get(n.k[0]), self.get(n.k[1]));
                crate::kyber_ref::reject(&s[64..96], &c)
            },
            other => panic!("unknown term {other}"),
        }
    }
}

/// bytes that differ in one, or in two whose differences cancel
pub fn near(b: &[u8], kind: &str, seed: u64) -> Vec<u8> {
    let mut v = b.to_vec();
    let l = v.len() as u64;
    let bit = 1 << (seed / 977 % 8);
    let i = (seed / 7919 % l) as usize;
    match kind {
        "Bn1" => v[0] ^= bit,
        "Bn2" => v[l as usize - 1] ^= bit,
        "Bn3" => v[i] ^= bit,
        _ => {
            let j = (i + 1 + (seed / 104729 % (l - 1)) as usize) % l as usize;
            v[i] ^= bit;
            v[j] ^= bit;
        },
    }
    v
}
