//! The lattice KEM written out from its definition with plain arithmetic modulo q: no Montgomery
//! or Barrett reduction, transforms by evaluation.  It is the evaluator of the KEM terms of the
//! specifications and is itself checked byte for byte against KyberPke.tla by TLC (C14).
use sha3::{digest::{ExtendableOutput, Update, XofReader}, Digest};
use std::sync::OnceLock;

pub const Q: u64 = 7681;
pub const N: usize = 256;
type P = Vec<u64>;

fn pow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 { r = r * b % Q }
        b = b * b % Q;
        e >>= 1;
    }
    r
}

struct Tables {
    // fwd[i][j] = psi^((2 brv(i) + 1) j), inv[j][i] = n^-1 psi^-((2 brv(i) + 1) j)
    fwd: Vec<[u16; N]>,
    inv: Vec<[u16; N]>,
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let psi = 62u64;
        let ninv = pow(N as u64, Q - 2);
        let brv = |i: usize| (i as u8).reverse_bits() as u64;
        let mut fwd = vec![[0u16; N]; N];
        let mut inv = vec![[0u16; N]; N];
        for i in 0..N {
            for j in 0..N {
                let e = (2 * brv(i) + 1) * j as u64 % 512;
                fwd[i][j] = pow(psi, e) as u16;
                inv[j][i] = (pow(psi, 512 - e) * ninv % Q) as u16;
            }
        }
        Tables { fwd, inv }
    })
}

fn apply(m: &[[u16; N]], a: &P) -> P {
    let a: Vec<u32> = a.iter().map(|&x| x as u32).collect();
    m.iter()
        .map(|row| {
            let mut s = 0u64;
            for (x, y) in row.chunks(64).zip(a.chunks(64)) {
                // 64 * 7680^2 < 2^32
                let t: u32 = x.iter().zip(y).map(|(&r, &v)| r as u32 * v).sum();
                s += t as u64;
            }
            s % Q
        })
        .collect()
}

pub fn ntt(a: &P) -> P { apply(&tables().fwd, a) }
pub fn intt(a: &P) -> P { apply(&tables().inv, a) }
fn add(a: &P, b: &P) -> P { a.iter().zip(b).map(|(x, y)| (x + y) % Q).collect() }
fn sub(a: &P, b: &P) -> P { a.iter().zip(b).map(|(x, y)| (x + Q - y) % Q).collect() }
/// sum of pointwise products
fn dot(a: &[P], b: &[P]) -> P {
    (0..N).map(|i| a.iter().zip(b).map(|(x, y)| x[i] * y[i]).sum::<u64>() % Q).collect()
}

pub fn pack(c: &[u64], bits: usize) -> Vec<u8> {
    let mut out = vec![0u8; c.len() * bits / 8];
    for (i, &x) in c.iter().enumerate() {
        for b in 0..bits {
            let p = i * bits + b;
            out[p / 8] |= ((x >> b & 1) as u8) << (p % 8);
        }
    }
    out
}

pub fn unpack(v: &[u8], bits: usize) -> Vec<u64> {
    (0..v.len() * 8 / bits)
        .map(|i| (0..bits).map(|b| { let p = i * bits + b; ((v[p / 8] >> (p % 8) & 1) as u64) << b }).sum())
        .collect()
}

fn compress(p: &P, d: usize) -> Vec<u8> {
    let c: Vec<u64> = p.iter().map(|&x| (((x << d) + Q / 2) / Q) & ((1 << d) - 1)).collect();
    pack(&c, d)
}
fn decompress(v: &[u8], d: usize) -> P {
    unpack(v, d).into_iter().map(|x| (x * Q + (1 << (d - 1))) >> d).collect()
}

fn eta(w: usize) -> usize {
    [5, 4, 3][w - 2]
}

fn noise(w: usize, seed: &[u8], nonce: u8) -> P {
    let e = eta(w);
    let mut b = vec![0; 2 * e * N / 8];
    sha3::Shake256::default().chain(seed).chain([nonce]).finalize_xof().read(&mut b);
    let bit = |i: usize| (b[i / 8] >> (i % 8) & 1) as u64;
    (0..N)
        .map(|i| {
            let x: u64 = (0..e).map(|j| bit(2 * e * i + j)).sum();
            let y: u64 = (0..e).map(|j| bit(2 * e * i + e + j)).sum();
            (x + Q - y) % Q
        })
        .collect()
}

/// entry of row i, column j, in the transformed domain
fn matrix(seed: &[u8], i: usize, j: usize) -> P {
    let mut xof = sha3::Shake128::default().chain(seed).chain([j as u8, i as u8]).finalize_xof();
    let mut out = vec![];
    while out.len() < N {
        let mut b = [0; 2];
        xof.read(&mut b);
        let v = (u16::from_le_bytes(b) & 0x1fff) as u64;
        if v < Q { out.push(v) }
    }
    out
}

fn h256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = sha3::Sha3_256::new();
    for p in parts { Digest::update(&mut h, p) }
    h.finalize().to_vec()
}
fn h512(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = sha3::Sha3_512::new();
    for p in parts { Digest::update(&mut h, p) }
    h.finalize().to_vec()
}

/// public key and secret vector (transformed, 13 bits per coefficient)
pub fn key_pair(w: usize, seed: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let c = h512(&[seed]);
    let (rho, sigma) = c.split_at(32);
    let s: Vec<P> = (0..w).map(|i| ntt(&noise(w, sigma, i as u8))).collect();
    let mut pk = vec![];
    for i in 0..w {
        let row: Vec<P> = (0..w).map(|j| matrix(rho, i, j)).collect();
        let t = add(&intt(&dot(&row, &s)), &noise(w, sigma, (w + i) as u8));
        pk.extend(compress(&t, 11));
    }
    pk.extend_from_slice(rho);
    (pk, s.iter().flat_map(|p| pack(p, 13)).collect())
}

pub fn encrypt(w: usize, pk: &[u8], m: &[u8], seed: &[u8]) -> Vec<u8> {
    let (t, rho) = pk.split_at(352 * w);
    let r: Vec<P> = (0..w).map(|i| ntt(&noise(w, seed, i as u8))).collect();
    let mut ct = vec![];
    for i in 0..w {
        let col: Vec<P> = (0..w).map(|j| matrix(rho, j, i)).collect();
        ct.extend(compress(&add(&intt(&dot(&col, &r)), &noise(w, seed, (w + i) as u8)), 11));
    }
    let that: Vec<P> = t.chunks(352).map(|b| ntt(&decompress(b, 11))).collect();
    let k: P = unpack(m, 1).into_iter().map(|b| b * ((Q + 1) / 2)).collect();
    let v = add(&add(&intt(&dot(&that, &r)), &noise(w, seed, 2 * w as u8)), &k);
    ct.extend(compress(&v, 3));
    ct
}

pub fn decrypt(w: usize, s: &[u8], ct: &[u8]) -> Vec<u8> {
    let (b, v) = ct.split_at(352 * w);
    let b: Vec<P> = b.chunks(352).map(|b| ntt(&decompress(b, 11))).collect();
    let s: Vec<P> = s.chunks(416).map(|x| unpack(x, 13).into_iter().map(|x| x % Q).collect()).collect();
    let m = sub(&intt(&dot(&s, &b)), &decompress(v, 3));
    let bits: Vec<u64> = m.iter().map(|&x| ((2 * x + Q / 2) / Q) & 1).collect();
    pack(&bits, 1)
}

pub fn kem_gen(w: usize, seed64: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (pk, mut sk) = key_pair(w, &seed64[..32]);
    sk.extend_from_slice(&seed64[32..]);
    (pk, sk)
}

pub fn kem_enc(w: usize, seed: &[u8], pk: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let m = h256(&[seed]);
    let c = h512(&[&m, &h256(&[pk])]);
    let ct = encrypt(w, pk, &m, &c[32..]);
    let ss = h256(&[&c[..32], &h256(&[&ct])]);
    (ct, ss)
}

pub fn kem_dec(w: usize, sk: &[u8], pk: &[u8], ct: &[u8]) -> Vec<u8> {
    let (s, z) = sk.split_at(416 * w);
    let m = decrypt(w, s, ct);
    let c = h512(&[&m, &h256(&[pk])]);
    if encrypt(w, pk, &m, &c[32..]) == ct {
        h256(&[&c[..32], &h256(&[ct])])
    } else {
        reject(z, ct)
    }
}

pub fn reject(z: &[u8], ct: &[u8]) -> Vec<u8> {
    h256(&[z, &h256(&[ct])])
}

pub fn shake256(x: &[u8], n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    sha3::Shake256::default().chain(x).finalize_xof().read(&mut b);
    b
}
pub fn shake128(x: &[u8], n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    sha3::Shake128::default().chain(x).finalize_xof().read(&mut b);
    b
}
