//! Replays behaviours of Channel.tla on Cipher, and counts messages on long channels.
use crate::{term::{stream, AeadKind, HashKind}, util::{guard, par, Fail, Report}};
use serde::Deserialize;
use sha2::Digest as _;
use std::{cell::Cell, collections::HashMap, marker::PhantomData};
use vru_noise::{typenum::*, ChainingKey, Cipher, Config, Rotor, SymmetricState};

#[derive(Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
pub struct Msg {
    c: u32,
    from: String,
    n: u64,
    e: u64,
    ad: usize,
    pt: usize,
    k: u64,
}

#[derive(Deserialize, Debug)]
struct Ev {
    op: String,
    c: u32,
    s: String,
    m: Msg,
    dmg: String,
    ad: usize,
    ok: bool,
    times: usize,
}

#[derive(Deserialize)]
pub struct Trace {
    interval: u64,
    log: Vec<Ev>,
}

/// rotation of the harness: key' = SHA-256(key || chaining key), cut or repeated to the key length
fn next_key(key: &[u8], ck: &[u8]) -> Vec<u8> {
    let mut h = sha2::Sha256::new();
    h.update(key);
    h.update(ck);
    let mut v = h.finalize().to_vec();
    v.truncate(key.len());
    v
}

pub struct HRot<I> {
    key: Vec<u8>,
    ck: Vec<u8>,
    i: PhantomData<I>,
}

impl<C: Config, I: Unsigned> Rotor<C> for HRot<I> {
    const INTERVAL: u64 = I::U64;
    fn new(chaining_key: ChainingKey<C>, key: aead::Key<C::Aead>) -> Self {
        HRot { key: key.to_vec(), ck: chaining_key.to_vec(), i: PhantomData }
    }
    fn rotate(&mut self, key: &mut C::Aead) {
        use aead::NewAead;
        self.key = next_key(&self.key, &self.ck);
        *key = C::Aead::new_from_slice(&self.key).unwrap();
    }
}

struct Keys {
    hash: HashKind,
    aead: AeadKind,
    cks: HashMap<u32, Vec<u8>>,
    epochs: HashMap<(u32, String), Vec<Vec<u8>>>,
}

impl Keys {
    fn new(hash: HashKind, aead: AeadKind, seed: &str) -> Self {
        let mut cks = HashMap::new();
        let mut epochs = HashMap::new();
        for c in 1..=2u32 {
            let mut ck0 = b"channel".to_vec();
            ck0.resize(hash.len(), 0);
            let ck = hash.hkdf(&ck0, &stream(seed, &format!("secret{c}"), 32), 1);
            for (i, s) in ["A", "B"].iter().enumerate() {
                let mut k = hash.hkdf(&ck, &[], i + 1);
                k.truncate(aead.key_len());
                epochs.insert((c, s.to_string()), vec![k]);
            }
            cks.insert(c, ck);
        }
        Keys { hash, aead, cks, epochs }
    }
    fn key(&mut self, c: u32, from: &str, e: u64) -> Vec<u8> {
        let _ = self.hash;
        let ck = self.cks[&c].clone();
        let v = self.epochs.get_mut(&(c, from.to_string())).unwrap();
        while v.len() as u64 <= e {
            let k = next_key(v.last().unwrap(), &ck);
            v.push(k);
        }
        v[e as usize].clone()
    }
}

fn ad_bytes(seed: &str, ad: usize) -> Vec<u8> {
    let mut v = stream(seed, "ad", ad % 1_000_000);
    let n = v.len();
    match ad / 1_000_000 {
        0 => {},
        1 => v[n - 1] ^= 1,
        2 => v[0] ^= 4,
        3 => v[n / 2] ^= 2,
        4 => v[n - 1] ^= 0x80,
        k => panic!("harness: associated data {k}"),
    }
    v
}
fn pt_bytes(seed: &str, m: &Msg) -> Vec<u8> {
    stream(seed, &format!("pt/{}/{}/{}", m.c, m.from, m.n), m.pt)
}

fn damaged(kind: &str, ct: &[u8], other: &[u8], rnd: u64) -> Vec<Vec<u8>> {
    let n = ct.len();
    let r = |k: u64, m: usize| {
        let x = sha2::Sha256::digest(format!("{rnd}/{k}").as_bytes());
        (u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize) % m.max(1)
    };
    let flip = |i: usize, b: usize| {
        let mut v = ct.to_vec();
        v[i] ^= 1 << b;
        v
    };
    match kind {
        "none" => vec![ct.to_vec()],
        // every byte of short messages, a sample of long ones
        "flip" => {
            if n <= 48 { (0..n).map(|i| flip(i, r(i as u64, 8))).collect() } else { (0..24).map(|k| flip(r(k, n), r(k + 99, 8))).chain([flip(0, 7), flip(n - 17, 0)]).collect() }
        },
        "flipTag" => (n - 16..n).map(|i| flip(i, r(i as u64, 8))).chain([flip(n - 1, 7), flip(n - 16, 0)]).collect(),
        "cut" => vec![ct[..n - 1].to_vec(), ct[1..].to_vec()],
        "cutTag" => vec![ct[..n - 16].to_vec()],
        "short" => [0usize, 1, 8, 15].iter().map(|&l| ct[..l.min(n)].to_vec()).collect(),
        "empty" => vec![vec![]],
        "extend" => { let mut v = ct.to_vec(); v.push(0); let mut w = ct.to_vec(); w.extend_from_slice(&ct[n - 16..]); vec![v, w] },
        "prepend" => { let mut v = vec![0]; v.extend_from_slice(ct); vec![v] },
        "swapTag" => {
            let mut v = ct[..n - 16].to_vec();
            if other.len() >= 16 && other != ct {
                v.extend_from_slice(&other[other.len() - 16..]);
            } else {
                v.extend_from_slice(&[0; 16]);
            }
            vec![v]
        },
        k => panic!("harness: damage {k}"),
    }
}

fn replay<C: Config, R: Rotor<C>>(t: &Trace, hash: HashKind, aead: AeadKind, seed: &str) -> Result<usize, String> {
    let mut keys = Keys::new(hash, aead, seed);
    let mut ends: HashMap<(u32, String), Cipher<C, R>> = HashMap::new();
    for c in 1..=2u32 {
        for s in ["A", "B"] {
            let st = SymmetricState::<C, ChainingKey<C>>::new("channel").mix_shared_secret(&stream(seed, &format!("secret{c}"), 32));
            let (ci, _) = st.finish::<R>();
            ends.insert((c, s.to_string()), if s == "B" { ci.swap() } else { ci });
        }
    }
    let mut sent: HashMap<Msg, Vec<u8>> = HashMap::new();
    let mut last: Vec<u8> = vec![];
    let mut steps = 0;
    for (i, e) in t.log.iter().enumerate() {
        let end = ends.get_mut(&(e.c, e.s.clone())).unwrap();
        let m = &e.m;
        let pt = pt_bytes(seed, m);
        match e.op.as_str() {
            "send" => {
                let ad = ad_bytes(seed, m.ad);
                let mut data = pt.clone();
                match i % 3 {
                    0 => end.encrypt_ext(&ad, &mut data),
                    1 => { let tag = end.encrypt(&ad, &mut data); data.extend_from_slice(&tag) },
                    _ => { let tag = end.send.encrypt(&ad, &mut data); data.extend_from_slice(&tag) },
                }
                let k = keys.key(m.c, &m.from, m.e);
                let want = aead.seal(&k, m.n, &ad, &pt);
                if data != want {
                    return Err(format!("step {i}: message {} of side {} is not encrypted with epoch {} and counter {}", m.n, m.from, m.e, m.n));
                }
                sent.insert(m.clone(), data);
                steps += 1;
            },
            // a run of messages, each delivered at once
            "burst" => {
                let ad = ad_bytes(seed, m.ad);
                let peer = if e.s == "A" { "B" } else { "A" };
                let mut ep = m.e;
                let mut pt = pt;
                for j in 0..m.k {
                    let n = m.n + j;
                    if j > 0 && n % t.interval == 0 {
                        ep += 1;
                    }
                    for (b, x) in pt.iter_mut().zip(n.to_le_bytes()) {
                        *b ^= x;
                    }
                    let mut data = pt.clone();
                    ends.get_mut(&(e.c, e.s.clone())).unwrap().encrypt_ext(&ad, &mut data);
                    let k = keys.key(m.c, &m.from, ep);
                    if data != aead.seal(&k, n, &ad, &pt) {
                        return Err(format!("step {i}: message {n} of side {} is not encrypted with epoch {ep} and counter {n}", m.from));
                    }
                    sent.insert(m.clone(), data.clone());
                    if ends.get_mut(&(e.c, peer.to_string())).unwrap().decrypt_ext(&ad, &mut data).is_err() {
                        return Err(format!("step {i}: genuine message {n} of a run from side {} was rejected", m.from));
                    }
                    if data != pt {
                        return Err(format!("step {i}: message {n} of a run decrypts to something else"));
                    }
                }
                steps += m.k as usize;
            },
            "recv" => {
                let ct = sent[m].clone();
                let ad = ad_bytes(seed, e.ad);
                let d = damaged(&e.dmg, &ct, &last, i as u64);
                let count = if e.times > 1 { d.len().max(e.times) } else { d.len() };
                for (j, bytes) in d.iter().cycle().take(count).enumerate() {
                    steps += 1;
                    let mut data = bytes.clone();
                    let ok = if (i + j) % 2 == 0 || data.len() < 16 {
                        end.decrypt_ext(&ad, &mut data).is_ok()
                    } else {
                        let tag = data.split_off(data.len() - 16);
                        let tag = vru_noise::Tag::<C>::clone_from_slice(&tag);
                        if (i + j) % 4 == 1 { end.decrypt(&ad, &mut data, &tag).is_ok() } else { end.receive.decrypt(&ad, &mut data, &tag).is_ok() }
                    };
                    // what was accepted once is a replay afterwards
                    let want = e.ok && j == 0;
                    if ok != want {
                        return Err(format!("step {i}: {} of message {m:?} (damage {}) on channel {} side {}: accepted {ok}, specification {want} (number {j} of {count})", e.op, e.dmg, e.c, e.s));
                    }
                    if ok && data != pt {
                        return Err(format!("step {i}: message {m:?} decrypts to {} instead of {}", hex::encode(&data), hex::encode(&pt)));
                    }
                }
                last = ct;
            },
            o => panic!("harness: step {o}"),
        }
    }
    Ok(steps)
}

fn with_interval<C: Config>(t: &Trace, hash: HashKind, aead: AeadKind, seed: &str) -> Result<usize, String> {
    match t.interval {
        1 => replay::<C, HRot<U1>>(t, hash, aead, seed),
        2 => replay::<C, HRot<U2>>(t, hash, aead, seed),
        3 => replay::<C, HRot<U3>>(t, hash, aead, seed),
        5 => replay::<C, HRot<U5>>(t, hash, aead, seed),
        64 => replay::<C, HRot<U64>>(t, hash, aead, seed),
        255 => replay::<C, HRot<U255>>(t, hash, aead, seed),
        256 => replay::<C, HRot<U256>>(t, hash, aead, seed),
        1000 => replay::<C, HRot<U1000>>(t, hash, aead, seed),
        1_000_000_000 => replay::<C, PhantomData<C>>(t, hash, aead, seed),
        n => panic!("harness: interval {n}"),
    }
}

pub fn run(lines: &[String], panics_only: bool, seed: u64, rep: &Report) {
    use byteorder::{BigEndian, LittleEndian};
    par(lines.len(), |i| {
        let t: Trace = serde_json::from_str(&lines[i]).unwrap();
        let s = format!("{seed}/{i}");
        let mut one = |name: &str, f: &dyn Fn() -> Result<usize, String>| match guard(f) {
            Ok(Ok(n)) => rep.ok(n),
            Ok(Err(_)) if panics_only => {},
            Ok(Err(e)) | Err(e) => rep.fail(Fail::new(if panics_only { "panic" } else { "channel" }, format!("suite {name}, interval {}: {e}", t.interval), lines[i].clone())),
        };
        one("ChaChaPoly/SHA3-256", &|| with_interval::<(sha3::Sha3_256, LittleEndian, chacha20poly1305::ChaCha20Poly1305)>(&t, HashKind::Sha3_256, AeadKind::ChaCha, &s));
        match i % 3 {
            0 => one("AES256GCM/SHA512", &|| with_interval::<(sha2::Sha512, BigEndian, aes_gcm::Aes256Gcm)>(&t, HashKind::Sha512, AeadKind::Aes256, &s)),
            1 => one("ChaChaPoly/SHA512", &|| with_interval::<(sha2::Sha512, LittleEndian, chacha20poly1305::ChaCha20Poly1305)>(&t, HashKind::Sha512, AeadKind::ChaCha, &s)),
            _ => one("AES128GCM/SHA256", &|| with_interval::<(sha2::Sha256, BigEndian, aes_gcm::Aes128Gcm)>(&t, HashKind::Sha256, AeadKind::Aes128, &s)),
        }
    });
}

// ---- long channels, with an AEAD that only looks at its nonce ----

thread_local! {
    static EXPECT: Cell<u64> = const { Cell::new(0) };
    static REJECT: Cell<bool> = const { Cell::new(false) };
    static BAD: Cell<Option<([u8; 12], u64)>> = const { Cell::new(None) };
    static ROTATIONS: Cell<u64> = const { Cell::new(0) };
    // up to which message the cipher counts by itself
    static UNTIL: Cell<u64> = const { Cell::new(0) };
    static KEEP: Cell<bool> = const { Cell::new(false) };
    static LAST: Cell<[u8; 12]> = const { Cell::new([0; 12]) };
}

/// counts by itself; in plain runs that is all it looks at
#[derive(Clone)]
pub struct Probe<O>(PhantomData<O>, Cell<u64>, Cell<u64>);

pub trait Order: Clone {
    fn nonce(n: u64) -> [u8; 12];
}
#[derive(Clone)]
pub struct Le;
#[derive(Clone)]
pub struct Be;
impl Order for Le {
    #[inline(always)]
    fn nonce(n: u64) -> [u8; 12] { ((n as u128) << 32).to_le_bytes()[..12].try_into().unwrap() }
}
impl Order for Be {
    #[inline(always)]
    fn nonce(n: u64) -> [u8; 12] { (n as u128).to_be_bytes()[4..].try_into().unwrap() }
}

impl<O> aead::NewAead for Probe<O> {
    type KeySize = U32;
    fn new(_: &aead::Key<Self>) -> Self { Probe(PhantomData, Cell::new(0), Cell::new(0)) }
}
impl<O> aead::AeadCore for Probe<O> {
    type NonceSize = U12;
    type TagSize = U16;
    type CiphertextOverhead = U0;
}
impl<O: Order> Probe<O> {
    /// whether the message is accepted
    #[inline(always)]
    fn see(&self, nonce: &aead::Nonce<Self>) -> bool {
        let n: [u8; 12] = (*nonce).into();
        if n != O::nonce(self.1.get()) || self.1.get() >= self.2.get() {
            self.look(n)
        } else {
            self.1.set(self.1.get() + 1);
            true
        }
    }
    #[inline(never)]
    fn look(&self, n: [u8; 12]) -> bool {
        self.2.set(UNTIL.with(|p| p.get()));
        if KEEP.with(|k| k.get()) {
            LAST.with(|l| l.set(n));
        }
        let count = self.1.get();
        let want = EXPECT.with(|e| e.get());
        if n != O::nonce(want) || count != want {
            BAD.with(|b| if b.get().is_none() { b.set(Some((n, want))) });
        }
        let ok = !REJECT.with(|r| r.get());
        if ok {
            self.1.set(count + 1);
        }
        ok
    }
}
impl<O: Order> aead::AeadInPlace for Probe<O> {
    fn encrypt_in_place_detached(&self, nonce: &aead::Nonce<Self>, _: &[u8], _: &mut [u8]) -> aead::Result<aead::Tag<Self>> {
        self.see(nonce);
        Ok(Default::default())
    }
    fn decrypt_in_place_detached(&self, nonce: &aead::Nonce<Self>, _: &[u8], _: &mut [u8], _: &aead::Tag<Self>) -> aead::Result<()> {
        if self.see(nonce) { Ok(()) } else { Err(aead::Error) }
    }
}

pub struct PRot<I>(PhantomData<I>);
impl<C: Config, I: Unsigned> Rotor<C> for PRot<I> {
    const INTERVAL: u64 = I::U64;
    fn new(_: ChainingKey<C>, _: aead::Key<C::Aead>) -> Self { PRot(PhantomData) }
    fn rotate(&mut self, _: &mut C::Aead) {
        ROTATIONS.with(|r| r.set(r.get() + 1));
    }
}

type Cfg<O, B> = (sha2::Sha256, B, Probe<O>);

/// `total` messages in one direction; counters near powers of two are written out as a window
fn long<O: Order, B: byteorder::ByteOrder, R: Rotor<Cfg<O, B>>>(send: bool, total: u64, interval: u64, windows: &mut Vec<serde_json::Value>) -> Result<(), String> {
    let (mut c, _) = SymmetricState::<Cfg<O, B>, ChainingKey<Cfg<O, B>>>::new("x").mix_shared_secret(b"y").finish::<R>();
    BAD.with(|b| b.set(None));
    REJECT.with(|b| b.set(false));
    ROTATIONS.with(|b| b.set(0));
    let tag = Default::default();
    let mut reject_left = 3u32;
    let mut n = 0u64;
    let mut next_window = 250u64;
    let mut window: Vec<Vec<u8>> = vec![];
    while n < total {
        // far from anything interesting: a plain run of messages
        if n > 1000 && n + 64 < next_window && interval == u64::MAX {
            let stop = (next_window - 16).min(n | 0xfffff).min(total);
            KEEP.with(|k| k.set(false));
            EXPECT.with(|e| e.set(n));
            UNTIL.with(|e| e.set(stop));
            while n < stop {
                if send {
                    c.encrypt(&[], &mut []);
                } else if c.decrypt(&[], &mut [], &tag).is_err() {
                    return Err(format!("message {n}: the decryption refused what the cipher accepted"));
                }
                n += 1;
            }
            UNTIL.with(|e| e.set(0));
            if let Some((got, want)) = BAD.with(|b| b.get()) {
                return Err(format!("message {want} used the nonce {}", hex::encode(got)));
            }
            if n >= total {
                break;
            }
        }
        KEEP.with(|k| k.set(true));
        UNTIL.with(|e| e.set(0));
        EXPECT.with(|e| e.set(n));
        if send {
            c.encrypt(&[], &mut []);
        } else {
            // a few forgeries before the interesting counters
            let interesting = n < 600 || (n & 0xfff) >= 0xffe;
            if interesting && reject_left > 0 {
                reject_left -= 1;
                REJECT.with(|r| r.set(true));
                let before = ROTATIONS.with(|r| r.get());
                if c.decrypt(&[], &mut [], &tag).is_ok() {
                    return Err(format!("message {n}: the decryption accepted what the cipher refused"));
                }
                if ROTATIONS.with(|r| r.get()) != before {
                    return Err(format!("message {n}: a rejected message rotated the key"));
                }
                REJECT.with(|r| r.set(false));
                continue;
            }
            reject_left = 1;
            if c.decrypt(&[], &mut [], &tag).is_err() {
                return Err(format!("message {n}: the decryption refused what the cipher accepted"));
            }
        }
        if n >= next_window {
            window.push(LAST.with(|l| l.get()).to_vec());
            if window.len() == 12 {
                windows.push(serde_json::json!({"first": (n - 11), "nonces": window}));
                window = vec![];
                next_window = if next_window < 1 << 62 { ((next_window + 6) * 256).saturating_sub(6) } else { u64::MAX };
            }
        }
        n += 1;
        let want = n / interval;
        if ROTATIONS.with(|r| r.get()) != want {
            return Err(format!("after {n} messages the key was rotated {} times, not {want}", ROTATIONS.with(|r| r.get())));
        }
        if let Some((got, want)) = BAD.with(|b| b.get()) {
            return Err(format!("message {want} used the nonce {}", hex::encode(got)));
        }
    }
    Ok(())
}

pub fn run_long(big: u64, rep: &Report) {
    use byteorder::{BigEndian, LittleEndian};
    type F = Box<dyn Fn(&mut Vec<serde_json::Value>) -> Result<(), String> + Sync + Send>;
    let mut jobs: Vec<(String, u64, bool, F)> = vec![];
    macro_rules! job {
        ($o:ident, $b:ident, $r:ty, $i:expr, $total:expr) => {
            for send in [true, false] {
                let total: u64 = $total;
                jobs.push((format!("{} send={send} interval={}", stringify!($b), $i), total, stringify!($o) == "Le", Box::new(move |w| long::<$o, $b, $r>(send, total, $i, w))));
            }
        };
    }
    job!(Le, LittleEndian, PhantomData<Cfg<Le, LittleEndian>>, u64::MAX, big);
    job!(Be, BigEndian, PhantomData<Cfg<Be, BigEndian>>, u64::MAX, big);
    let small = big.min(1 << 26);
    job!(Le, LittleEndian, PRot<U1>, 1, small);
    job!(Le, LittleEndian, PRot<U2>, 2, small);
    job!(Be, BigEndian, PRot<U7>, 7, small);
    job!(Le, LittleEndian, PRot<U255>, 255, small);
    job!(Be, BigEndian, PRot<U256>, 256, small);
    job!(Le, LittleEndian, PRot<U1000>, 1000, small);
    job!(Be, BigEndian, PRot<U65536>, 65536, small);
    job!(Le, LittleEndian, PRot<U16777216>, 16777216, small);
    let windows = std::sync::Mutex::new(vec![]);
    par(jobs.len(), |i| {
        let (name, total, le, f) = &jobs[i];
        let mut w = vec![];
        match guard(|| f(&mut w)) {
            Ok(Ok(())) => rep.ok(1),
            Ok(Err(e)) | Err(e) => rep.fail(Fail::new("channel-long", format!("{name}: {e}"), format!("{name}, {total} messages"))),
        }
        rep.count("messages_on_long_channels", *total);
        for mut x in w {
            x["le"] = (*le).into();
            let first = x["first"].as_u64().unwrap();
            x["small"] = (first < 256).into();
            x["value"] = (first & 255).into();
            x["first"] = first.to_string().into();
            windows.lock().unwrap().push(x);
        }
    });
    let mut out = String::new();
    for w in windows.into_inner().unwrap() {
        out += &w.to_string();
        out.push('\n');
    }
    rep.extra("windows", out);
}
