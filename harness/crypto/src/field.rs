//! Curve and field arithmetic of the harness' own: Montgomery multiplication, complete addition
//! formulas, plain double-and-add.  Shares nothing with the curve crates.
use std::sync::OnceLock;

pub type U = [u64; 4];

pub fn from_le(b: &[u8]) -> U {
    let mut r = [0; 4];
    for i in 0..4 { r[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()) }
    r
}
pub fn to_le(a: &U) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..4 { r[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes()) }
    r
}
pub fn from_be(b: &[u8]) -> U {
    let mut v = b.to_vec();
    v.reverse();
    from_le(&v)
}
pub fn to_be(a: &U) -> [u8; 32] {
    let mut v = to_le(a);
    v.reverse();
    v
}
pub fn hex_u(s: &str) -> U {
    from_be(&hex::decode(s).unwrap())
}
fn add_c(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
pub fn sub_b(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4];
    let mut bo = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(bo as u64);
        r[i] = x;
        bo = b1 | b2;
    }
    (r, bo)
}
pub fn less(a: &U, b: &U) -> bool { sub_b(a, b).1 }

pub struct Mod {
    pub m: U,
    n0: u64,
    r2: U,
}

impl Mod {
    pub fn new(m: U) -> Self {
        let mut inv = 1u64;
        for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv))) }
        let mut s = Mod { m, n0: inv.wrapping_neg(), r2: [0; 4] };
        // 2^512 mod m by doubling
        let mut x: U = [1, 0, 0, 0];
        for _ in 0..512 { x = s.add(&x, &x) }
        s.r2 = x;
        s
    }
    pub fn reduce(&self, a: &U) -> U {
        let mut a = *a;
        while !less(&a, &self.m) { a = sub_b(&a, &self.m).0 }
        a
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (r, c) = add_c(a, b);
        let (s, bo) = sub_b(&r, &self.m);
        if c || !bo { s } else { r }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (r, bo) = sub_b(a, b);
        if bo { add_c(&r, &self.m).0 } else { r }
    }
    pub fn neg(&self, a: &U) -> U { self.sub(&[0; 4], a) }
    fn mont(&self, a: &U, b: &U) -> U {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[j] as u128 * b[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let q = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + q as u128 * self.m[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + q as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
            t[5] = 0;
        }
        let r = [t[0], t[1], t[2], t[3]];
        let (s, bo) = sub_b(&r, &self.m);
        if t[4] != 0 || !bo { s } else { r }
    }
    /// a * b, both reduced
    pub fn mul(&self, a: &U, b: &U) -> U { self.mont(&self.mont(a, b), &self.r2) }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let am = self.mont(a, &self.r2);
        let mut r = self.mont(&[1, 0, 0, 0], &self.r2);
        for i in (0..256).rev() {
            r = self.mont(&r, &r);
            if e[i / 64] >> (i % 64) & 1 == 1 { r = self.mont(&r, &am) }
        }
        self.mont(&r, &[1, 0, 0, 0])
    }
    pub fn inv(&self, a: &U) -> U { self.pow(a, &sub_b(&self.m, &[2, 0, 0, 0]).0) }
}

pub const ONE: U = [1, 0, 0, 0];
pub const ZERO: U = [0; 4];

macro_rules! modulus {
    ($f:ident, $h:expr) => {
        pub fn $f() -> &'static Mod {
            static M: OnceLock<Mod> = OnceLock::new();
            M.get_or_init(|| Mod::new(hex_u($h)))
        }
    };
}
modulus!(p25519, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
modulus!(l25519, "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed");
modulus!(psecp, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
modulus!(nsecp, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");

pub fn clamp(b: &[u8]) -> U {
    let mut k = [0; 32];
    k.copy_from_slice(b);
    k[0] &= 248;
    k[31] = k[31] & 127 | 64;
    from_le(&k)
}

// ---------------------------------------------------------------- Edwards

/// extended coordinates X, Y, Z, T
#[derive(Clone, Copy, Debug)]
pub struct Ed(U, U, U, U);

fn ed_d() -> &'static U {
    static D: OnceLock<U> = OnceLock::new();
    D.get_or_init(|| {
        let p = p25519();
        p.neg(&p.mul(&[121665, 0, 0, 0], &p.inv(&[121666, 0, 0, 0])))
    })
}

impl Ed {
    pub fn zero() -> Self { Ed(ZERO, ONE, ONE, ZERO) }
    pub fn add(&self, o: &Ed) -> Ed {
        let p = p25519();
        let a = p.mul(&p.sub(&self.1, &self.0), &p.sub(&o.1, &o.0));
        let b = p.mul(&p.add(&self.1, &self.0), &p.add(&o.1, &o.0));
        let dd = p.add(ed_d(), ed_d());
        let c = p.mul(&p.mul(&self.3, &dd), &o.3);
        let zz = p.mul(&self.2, &o.2);
        let d = p.add(&zz, &zz);
        let (e, f, g, h) = (p.sub(&b, &a), p.sub(&d, &c), p.add(&d, &c), p.add(&b, &a));
        Ed(p.mul(&e, &f), p.mul(&g, &h), p.mul(&f, &g), p.mul(&e, &h))
    }
    pub fn mul(&self, k: &U) -> Ed {
        let mut r = Ed::zero();
        for i in (0..256).rev() {
            r = r.add(&r);
            if k[i / 64] >> (i % 64) & 1 == 1 { r = r.add(self) }
        }
        r
    }
    pub fn base() -> Ed {
        // y = 4/5, x even
        let p = p25519();
        let y = p.mul(&[4, 0, 0, 0], &p.inv(&[5, 0, 0, 0]));
        Ed::decompress(&to_le(&y)).unwrap()
    }
    pub fn affine(&self) -> (U, U) {
        let p = p25519();
        let z = p.inv(&self.2);
        (p.mul(&self.0, &z), p.mul(&self.1, &z))
    }
    pub fn compress(&self) -> [u8; 32] {
        let (x, y) = self.affine();
        let mut b = to_le(&y);
        b[31] |= ((x[0] & 1) as u8) << 7;
        b
    }
    pub fn decompress(b: &[u8]) -> Option<Ed> {
        let p = p25519();
        let mut y = [0; 32];
        y.copy_from_slice(b);
        let sign = y[31] >> 7;
        y[31] &= 127;
        let y = p.reduce(&from_le(&y));
        let yy = p.mul(&y, &y);
        let u = p.sub(&yy, &ONE);
        let v = p.add(&p.mul(ed_d(), &yy), &ONE);
        let q = p.mul(&u, &p.inv(&v));
        let mut x = sqrt25519(&q)?;
        if x[0] & 1 != sign as u64 { x = p.neg(&x) }
        Some(Ed(x, y, ONE, p.mul(&x, &y)))
    }
    /// the coordinate that the library calls x: y without the sign
    pub fn coordinate(&self) -> [u8; 32] { to_le(&self.affine().1) }
    pub fn to_montgomery(&self) -> [u8; 32] {
        let p = p25519();
        let (_, y) = self.affine();
        to_le(&p.mul(&p.add(&ONE, &y), &p.inv(&p.sub(&ONE, &y))))
    }
}

fn sqrt25519(q: &U) -> Option<U> {
    let p = p25519();
    // (p + 3) / 8 = 2^252 - 2
    let e = sub_b(&[0, 0, 0, 1 << 60], &[2, 0, 0, 0]).0;
    let x = p.pow(q, &e);
    if p.mul(&x, &x) == *q { return Some(x) }
    // times sqrt(-1) = 2^((p-1)/4)
    let mut e = sub_b(&p.m, &ONE).0;
    for _ in 0..2 { for i in 0..4 { e[i] = e[i] >> 1 | if i < 3 { e[i + 1] << 63 } else { 0 } } }
    let x = p.mul(&x, &p.pow(&[2, 0, 0, 0], &e));
    if p.mul(&x, &x) == *q { Some(x) } else { None }
}

// ---------------------------------------------------------------- Montgomery

/// the x-only ladder of RFC 7748 on the integer k
pub fn ladder(u: &[u8], k: &U) -> [u8; 32] {
    let p = p25519();
    let mut b = [0; 32];
    b.copy_from_slice(u);
    b[31] &= 127;
    let x1 = p.reduce(&from_le(&b));
    let (mut x2, mut z2, mut x3, mut z3) = (ONE, ZERO, x1, ONE);
    for i in (0..256).rev() {
        let bit = k[i / 64] >> (i % 64) & 1 == 1;
        if bit {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        let (a, bb) = (p.add(&x2, &z2), p.sub(&x2, &z2));
        let (aa, b2) = (p.mul(&a, &a), p.mul(&bb, &bb));
        let e = p.sub(&aa, &b2);
        let (c, d) = (p.add(&x3, &z3), p.sub(&x3, &z3));
        let (da, cb) = (p.mul(&d, &a), p.mul(&c, &bb));
        let (s, t) = (p.add(&da, &cb), p.sub(&da, &cb));
        x3 = p.mul(&s, &s);
        z3 = p.mul(&x1, &p.mul(&t, &t));
        x2 = p.mul(&aa, &b2);
        z2 = p.mul(&e, &p.add(&aa, &p.mul(&[121665, 0, 0, 0], &e)));
        if bit {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
    }
    to_le(&p.mul(&x2, &p.inv(&z2)))
}

// ---------------------------------------------------------------- secp256k1

/// homogeneous coordinates; complete formulas of Renes, Costello and Batina for a = 0
#[derive(Clone, Copy, Debug)]
pub struct Secp(U, U, U);

impl Secp {
    pub fn zero() -> Self { Secp(ZERO, ONE, ZERO) }
    pub fn is_zero(&self) -> bool { self.2 == ZERO }
    pub fn base() -> Self {
        Secp(hex_u("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), hex_u("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"), ONE)
    }
    pub fn add(&self, o: &Secp) -> Secp {
        let p = psecp();
        let b3 = [21, 0, 0, 0];
        let (x1, y1, z1) = (&self.0, &self.1, &self.2);
        let (x2, y2, z2) = (&o.0, &o.1, &o.2);
        let t0 = p.mul(x1, x2);
        let t1 = p.mul(y1, y2);
        let t2 = p.mul(z1, z2);
        let t3 = p.sub(&p.mul(&p.add(x1, y1), &p.add(x2, y2)), &p.add(&t0, &t1)); // x1y2 + x2y1
        let t4 = p.sub(&p.mul(&p.add(y1, z1), &p.add(y2, z2)), &p.add(&t1, &t2)); // y1z2 + y2z1
        let y3 = p.sub(&p.mul(&p.add(x1, z1), &p.add(x2, z2)), &p.add(&t0, &t2)); // x1z2 + x2z1
        let t0 = p.add(&p.add(&t0, &t0), &t0);
        let t2 = p.mul(&b3, &t2);
        let z3 = p.add(&t1, &t2);
        let t1 = p.sub(&t1, &t2);
        let y3 = p.mul(&b3, &y3);
        let x = p.sub(&p.mul(&t3, &t1), &p.mul(&t4, &y3));
        let y = p.add(&p.mul(&y3, &t0), &p.mul(&t1, &z3));
        let z = p.add(&p.mul(&z3, &t4), &p.mul(&t0, &t3));
        Secp(x, y, z)
    }
    pub fn mul(&self, k: &U) -> Secp {
        let mut r = Secp::zero();
        for i in (0..256).rev() {
            r = r.add(&r);
            if k[i / 64] >> (i % 64) & 1 == 1 { r = r.add(self) }
        }
        r
    }
    pub fn affine(&self) -> (U, U) {
        let p = psecp();
        let z = p.inv(&self.2);
        (p.mul(&self.0, &z), p.mul(&self.1, &z))
    }
    pub fn compress(&self) -> Vec<u8> {
        let (x, y) = self.affine();
        let mut v = vec![2 + (y[0] & 1) as u8];
        v.extend_from_slice(&to_be(&x));
        v
    }
    pub fn line(&self) -> Vec<u8> {
        let (x, y) = self.affine();
        let mut v = to_be(&x).to_vec();
        v.extend_from_slice(&to_be(&y));
        v
    }
    /// 64 bytes: both coordinates, reduced and on the curve
    pub fn parse(b: &[u8]) -> Option<Secp> {
        let p = psecp();
        let (x, y) = (from_be(&b[..32]), from_be(&b[32..]));
        if !less(&x, &p.m) || !less(&y, &p.m) { return None }
        let rhs = p.add(&p.mul(&p.mul(&x, &x), &x), &[7, 0, 0, 0]);
        if p.mul(&y, &y) == rhs { Some(Secp(x, y, ONE)) } else { None }
    }
    pub fn decompress(b: &[u8]) -> Option<Secp> {
        let p = psecp();
        if b[0] != 2 && b[0] != 3 { return None }
        let x = from_be(&b[1..]);
        if !less(&x, &p.m) { return None }
        let rhs = p.add(&p.mul(&p.mul(&x, &x), &x), &[7, 0, 0, 0]);
        // (p + 1) / 4
        let mut e = add_c(&p.m, &ONE).0;
        for _ in 0..2 { for i in 0..4 { e[i] = e[i] >> 1 | if i < 3 { e[i + 1] << 63 } else { 0 } } }
        let mut y = p.pow(&rhs, &e);
        if p.mul(&y, &y) != rhs { return None }
        if (y[0] & 1) as u8 != b[0] & 1 { y = p.neg(&y) }
        Some(Secp(x, y, ONE))
    }
}
