//! Replays behaviours of XX.tla on the five handshake functions.
//!
//! Two ways: "native", where every message is built from what the functions themselves
//! produced (so only the relations between sessions are judged), and "exact", where every byte
//! is compared with the evaluation of the specification's terms by independent primitives, and
//! the adversary may be evaluated instead of executed.
use crate::{term::{damage, stream, AeadKind, HashKind, Node, Terms}, util::{guard, par, Fail, Report}};
use rac::{generic_array::{typenum::*, GenericArray}, Concat, Line, LineValid};
use serde::Deserialize;
use std::collections::{BTreeMap, HashMap};
use vru_session::handshake::{xx, Identity, PublicKey, SecretKey, TrivialCipher, TrivialRotor};

type Arr<N> = GenericArray<u8, N>;

#[derive(Deserialize, Debug, Clone)]
pub struct Alt {
    m: u8,
    f: String,
    c: String,
    x: i64,
}
#[derive(Deserialize, Debug, Clone)]
pub struct Who {
    own: String,
    sk: String,
    id: String,
}
#[derive(Deserialize, Debug, Clone)]
pub struct Ev {
    op: String,
    k: usize,
    ok: bool,
    rx: BTreeMap<String, usize>,
    tx: BTreeMap<String, usize>,
    own: usize,
    sk: usize,
    id: usize,
    alt: Vec<Alt>,
    seeds: Vec<usize>,
    cast: Who,
    h: usize,
    send: usize,
    recv: usize,
    peer: usize,
    pay: Vec<usize>,
}
#[derive(Deserialize)]
pub struct Trace {
    cast: usize,
    defs: Vec<Node>,
    log: Vec<Ev>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum How {
    Native,
    Exact,
}

/// what a behaviour is judged for
pub struct Judge<'a> {
    pub prop: &'a str,
    pub how: How,
    /// replaces the damage of the altered field: byte and bit
    pub flip: Option<(usize, u8)>,
}

pub fn labels(defs: &[Node], lens: &[usize; 4], t: &mut Terms) {
    for n in defs {
        if n.op == "lit" && n.p[0] == 0 && n.s.len() == 2 {
            let i = "pqrs".find(&n.s[..1]).unwrap();
            let v = stream(&t.seed, &n.s, lens[i]);
            t.bind.insert(n.s.clone(), v);
        }
    }
}

struct Run<'a> {
    t: Terms<'a>,
    how: How,
    flip: Option<(usize, u8)>,
    flipped: usize,
    out: HashMap<(usize, usize), Vec<u8>>,
}

impl<'a> Run<'a> {
    /// bytes of term `t` as seen by pair `k`
    fn bytes(&mut self, k: usize, t: usize) -> Vec<u8> {
        if self.how == How::Exact {
            if self.flip.is_none() {
                return self.t.get(t);
            }
        }
        if let Some(v) = self.out.get(&(k, t)).or_else(|| self.out.get(&(3 - k, t))) {
            return v.clone();
        }
        let n = self.t.defs[t - 1].clone();
        match n.op.as_str() {
            "dmg" | "altpt" | "badpt" => {
                let x = self.bytes(k, n.k[0]);
                if let Some((byte, bit)) = self.flip {
                    let mut v = x.clone();
                    let b = byte.min(v.len() - 1);
                    v[b] ^= 1 << bit;
                    self.flipped += 1;
                    return v;
                }
                match n.op.as_str() {
                    "dmg" => damage(&x, n.p[0]),
                    "altpt" => crate::term::altpt(&x),
                    _ => crate::term::badpt(&x),
                }
            },
            "torpt" => {
                let x = self.bytes(k, n.k[0]);
                crate::term::torpt(&x)
            },
            _ => self.t.get(t),
        }
    }
}

pub enum St {
    None,
    I0(xx::InitiatorsEphemeral),
    R1(xx::RespondersEphemeral),
    I2(xx::InitiatorsFinal),
    Done(Box<Done>),
}
pub struct Done {
    cipher: TrivialCipher,
    hash: Vec<u8>,
    peer: Vec<u8>,
    ini: bool,
    k: usize,
    ev: usize,
}

fn arr<N: rac::generic_array::ArrayLength<u8>>(b: &[u8]) -> Arr<N> {
    GenericArray::clone_from_slice(b)
}
fn line<L: Line>(b: &[u8]) -> L {
    L::clone_array(GenericArray::from_slice(b))
}
fn line_len<L: LineValid>() -> usize {
    <L::Length as Unsigned>::USIZE
}
fn identity(bytes: &[u8]) -> Identity {
    let mut v = vec![0];
    v.extend_from_slice(bytes);
    base64::encode(v).parse().unwrap()
}
fn weird(w: &str) -> bool {
    ["Mbad", "Mlow", "Mtor", "Btor"].contains(&w)
}

type Keys = (PublicKey, SecretKey);

pub struct Out {
    pub ok: bool,
    pub fields: Vec<(&'static str, Vec<u8>)>,
    pub peer: Option<Vec<u8>>,
    pub pays: Vec<Vec<u8>>,
    pub err: String,
}

macro_rules! sizes {
    ($m:ident, $p:ident, $q:ident, $r:ident, $s:ident) => {
        mod $m {
            use super::*;
            pub const LENS: [usize; 4] = [$p::USIZE, $q::USIZE, $r::USIZE, $s::USIZE];
            type P = Arr<$p>;
            type Q = Arr<$q>;
            type R = Arr<$r>;
            type S = Arr<$s>;
            /// one call; `f` has the message's fields by name
            pub fn call(e: &Ev, st: St, own: &PublicKey, sk: &SecretKey, id: &Identity, seeds: &[Vec<u8>], f: &BTreeMap<String, Vec<u8>>, peer0: Vec<u8>, evi: usize) -> Option<(St, Out)> {
                let mut out = Out { ok: true, fields: vec![], peer: None, pays: vec![], err: String::new() };
                let g = |n: &str| f[n].as_slice();
                // a field of a length that the type does not have cannot be delivered
                macro_rules! fits { ($t:ty, $n:expr) => { if line_len::<$t>() != g($n).len() { return None; } } }
                type Tagged<T> = Concat<T, Arr<U16>>;
                let st = match (e.op.as_str(), st) {
                    ("out0", _) => {
                        let (st, m) = xx::out0(&arr(&seeds[0]), id);
                        let Concat(a, b) = m;
                        out.fields = vec![("ell", a.to_vec()), ("lat", b.to_vec())];
                        St::I0(st)
                    },
                    ("take0", _) => {
                        let m: xx::Message0 = Concat(arr(g("ell")), arr(g("lat")));
                        let seed = Concat(arr(&seeds[0]), arr(&seeds[1]));
                        let (st, (Concat(ct, p), Concat(ell, lat), s)) = xx::take0_out1::<P>(&seed, id, own, sk, m, line(&seeds[2]));
                        out.fields = vec![("ct", ct.clone_line().to_vec()), ("p", p.clone_line().to_vec()), ("ell", ell.to_vec()), ("lat", lat.to_vec()), ("s", s.clone_line().to_vec())];
                        St::R1(st)
                    },
                    ("take1", St::I0(st)) => {
                        fits!(Tagged<P>, "p");
                        let m: xx::Message1<P> = (Concat(line(g("ct")), line(g("p"))), Concat(arr(g("ell")), arr(g("lat"))), line(g("s")));
                        let seed = Concat(arr(&seeds[0]), arr(&seeds[1]));
                        match xx::take1_out2::<P, Q, R>(&seed, st, own, sk, m, line(&seeds[2]), line(&seeds[3])) {
                            Err(x) => { out.ok = false; out.err = x.to_string(); St::None },
                            Ok((st, peer, p, (Concat(ct, q), cts, Concat(s, r)))) => {
                                out.peer = Some(peer.compress().clone_line().to_vec());
                                out.pays = vec![p.to_vec()];
                                out.fields = vec![("ct", ct.clone_line().to_vec()), ("q", q.clone_line().to_vec()), ("cts", cts.clone_line().to_vec()), ("s", s.clone_line().to_vec()), ("r", r.clone_line().to_vec())];
                                St::I2(st)
                            },
                        }
                    },
                    ("take2", St::R1(st)) => {
                        fits!(Tagged<Q>, "q");
                        fits!(Tagged<R>, "r");
                        let m: xx::Message2<Q, R> = (Concat(line(g("ct")), line(g("q"))), line(g("cts")), Concat(line(g("s")), line(g("r"))));
                        match xx::take2_out3::<Q, R, S, TrivialRotor>(&arr(&seeds[0]), st, own, sk, m, line(&seeds[1])) {
                            Err(x) => { out.ok = false; out.err = x.to_string(); St::None },
                            Ok((cipher, hash, peer, q, r, Concat(ct, s))) => {
                                out.peer = Some(peer.compress().clone_line().to_vec());
                                out.pays = vec![q.to_vec(), r.to_vec()];
                                out.fields = vec![("ct", ct.clone_line().to_vec()), ("s", s.clone_line().to_vec())];
                                St::Done(Box::new(Done { cipher, hash: hash.to_vec(), peer: out.peer.clone().unwrap(), ini: false, k: e.k, ev: evi }))
                            },
                        }
                    },
                    ("take3", St::I2(st)) => {
                        fits!(Tagged<S>, "s");
                        let m: xx::Message3<S> = Concat(line(g("ct")), line(g("s")));
                        match xx::take_3::<S, TrivialRotor>(st, own, sk, m) {
                            Err(x) => { out.ok = false; out.err = x.to_string(); St::None },
                            Ok((cipher, hash, s)) => {
                                out.pays = vec![s.to_vec()];
                                St::Done(Box::new(Done { cipher, hash: hash.to_vec(), peer: peer0, ini: true, k: e.k, ev: evi }))
                            },
                        }
                    },
                    _ => return None,
                };
                Some((st, out))
            }
        }
    };
}
sizes!(s16, U16, U16, U16, U16);
sizes!(smix, U0, U1, U32, U200);
sizes!(srev, U1, U0, U64, U7);
sizes!(sbig, U1000, U33, U0, U4096);
sizes!(szero, U0, U0, U0, U0);
sizes!(slow, U8, U15, U17, U2);
sizes!(sblock, U128, U136, U256, U255);
sizes!(slong, U10000, U999, U8192, U63);
pub const COMBOS: usize = 8;

fn lens(c: usize) -> [usize; 4] {
    match c {
        0 => s16::LENS,
        1 => smix::LENS,
        2 => srev::LENS,
        3 => sbig::LENS,
        4 => slow::LENS,
        5 => sblock::LENS,
        6 => slong::LENS,
        _ => szero::LENS,
    }
}

/// Each failure carries the properties it concerns.
pub fn replay(tr: &Trace, seed: &str, combo: usize, j: &Judge, fails: &mut Vec<(&'static str, String)>) -> Option<usize> {
    let mut t = Terms::new(&tr.defs, HashKind::Sha3_256, AeadKind::ChaCha, seed.into());
    labels(&tr.defs, &lens(combo), &mut t);
    // sessions that are meant to differ in a payload must differ in it
    if let Some(n) = tr.cast.checked_sub(16).filter(|n| *n < 4) {
        if lens(combo)[n] < 4 {
            return None;
        }
    }
    let mut r = Run { t, how: j.how, flip: j.flip, flipped: 0, out: HashMap::new() };
    let mut keys: HashMap<String, Keys> = HashMap::new();
    let mut st: HashMap<(bool, usize), St> = HashMap::new();
    let mut peers: HashMap<(bool, usize), Vec<u8>> = HashMap::new();
    let mut steps = 0;
    let mut done: Vec<Box<Done>> = vec![];
    // alterations in the transcript of a pair so far
    let mut altered = [false; 3];
    let any_weird = tr.log.iter().any(|e| weird(&e.cast.own));
    if any_weird && j.how == How::Native {
        return None;
    }
    for (i, e) in tr.log.iter().enumerate() {
        let ini = ["out0", "take1", "take3"].contains(&e.op.as_str());
        altered[e.k] |= !e.alt.is_empty();
        let at = |what: String| format!("cast {} step {i} ({} of pair {}), alterations {:?}: {what}", tr.cast, e.op, e.k, tr.log.iter().flat_map(|e| e.alt.iter().map(move |a| format!("pair {} message {} field {} {} {}", e.k, a.m, a.f, a.c, a.x))).collect::<Vec<_>>());
        if weird(&e.cast.own) {
            // the adversary with malformed keys: evaluated, not executed
            continue;
        }
        for (who, term) in [(&e.cast.own, e.own), (&e.cast.sk, e.sk)] {
            if !keys.contains_key(who) {
                let s = r.t.get(term);
                keys.insert(who.clone(), PublicKey::gen(&arr(&s)));
            }
        }
        let id = if j.how == How::Exact {
            identity(&r.t.get(e.id))
        } else {
            let near = e.cast.id.starts_with("Bn");
            let s = stream(seed, &format!("static{}", if near { "B" } else { &e.cast.id }), 96);
            let id = PublicKey::gen(&arr(&s)).0.identity();
            if near {
                let x = stream(seed, "near", 8);
                identity(&crate::term::near(id.as_ref(), &e.cast.id, x.iter().fold(0, |a, b| a << 8 | *b as u64)))
            } else {
                id
            }
        };
        let seeds: Vec<Vec<u8>> = e.seeds.iter().map(|s| r.t.get(*s)).collect();
        let mut f = BTreeMap::new();
        for (name, term) in &e.rx {
            if name == "none" {
                continue;
            }
            f.insert(name.clone(), r.bytes(e.k, *term));
        }
        let s0 = match st.remove(&(ini, e.k)) {
            Some(s) => s,
            None if e.op == "out0" || e.op == "take0" => St::None,
            // the instance has already ended in an error the specification did not expect
            None => continue,
        };
        let (own, sk) = (&keys[&e.cast.own].0, &keys[&e.cast.sk].1);
        let peer0 = peers.get(&(ini, e.k)).cloned().unwrap_or_default();
        let res = guard(|| match combo {
            0 => s16::call(e, s0, own, sk, &id, &seeds, &f, peer0, i),
            1 => smix::call(e, s0, own, sk, &id, &seeds, &f, peer0, i),
            2 => srev::call(e, s0, own, sk, &id, &seeds, &f, peer0, i),
            3 => sbig::call(e, s0, own, sk, &id, &seeds, &f, peer0, i),
            4 => slow::call(e, s0, own, sk, &id, &seeds, &f, peer0, i),
            5 => sblock::call(e, s0, own, sk, &id, &seeds, &f, peer0, i),
            6 => slong::call(e, s0, own, sk, &id, &seeds, &f, peer0, i),
            _ => szero::call(e, s0, own, sk, &id, &seeds, &f, peer0, i),
        });
        steps += 1;
        let (ns, out) = match res {
            Ok(None) => return None,
            Ok(Some(x)) => x,
            Err(p) => {
                let invalid = e.op == "take0" && !e.ok;
                let c = if invalid { "C04/take0-invalid-point" } else { "C04/panic" };
                fails.push((c, at(p.clone())));
                if e.ok {
                    fails.push(("C05/panic", at(p.clone())));
                    if tr.log.iter().all(|e| e.alt.is_empty()) {
                        fails.push(("C01/panic", at(p)));
                    }
                }
                continue;
            },
        };
        let honest_pair = e.cast.own == e.cast.sk;
        if out.ok != e.ok {
            let w = at(format!("returned {} but the specification says {}", if out.ok { "success".into() } else { format!("the error {:?}", out.err) }, if e.ok { "success" } else { "error" }));
            if out.ok {
                if altered[e.k] {
                    fails.push(("C02/accepted", w.clone()));
                }
                let imposture = tr.log.iter().any(|x| x.k == e.k && (x.cast.own != x.cast.sk)) || (ini && tr.log.iter().any(|x| x.k == e.k && x.op == "take0" && x.cast.own != e.cast.id));
                if imposture || (!ini && !altered[e.k]) {
                    fails.push(("C03/accepted", w.clone()));
                }
            } else if tr.log.iter().all(|x| x.alt.is_empty()) {
                fails.push(("C01/refused", w.clone()));
            }
            fails.push(("C05/result", w));
            // what follows is no longer described
            break;
        }
        let _ = honest_pair;
        if !out.ok {
            continue;
        }
        for (name, bytes) in &out.fields {
            let term = e.tx[*name];
            if j.how == How::Exact && j.flip.is_none() {
                let want = r.t.get(term);
                if *bytes != want {
                    let p = bytes.iter().zip(want.iter()).position(|(a, b)| a != b);
                    fails.push(("C05/bytes", at(format!("field {name} of the produced message differs from the specified bytes at {p:?} (length {} / {})", bytes.len(), want.len()))));
                }
            }
            r.out.insert((e.k, term), bytes.clone());
        }
        if let Some(p) = &out.peer {
            peers.insert((ini, e.k), p.clone());
            if j.how == How::Exact {
                // the peer's key, exactly
                let want = r.t.get(e.peer);
                if *p != want {
                    fails.push(("C05/peer", at("the reported peer key differs from the specified one".into())));
                    fails.push(("C03/peer", at("the reported peer key differs from the specified one".into())));
                }
            } else {
                // made from the seed of the party the specification names
                let pk = tr.defs[e.peer - 1].k[0];
                let sd = tr.defs[pk - 1].k[0];
                let s = r.t.get(sd);
                let want = PublicKey::gen(&arr(&s)).0.compress().clone_line().to_vec();
                if *p != want {
                    fails.push(("C03/peer", at("the reported peer key is not the key of the party on the other side".into())));
                    if !altered[e.k] {
                        fails.push(("C01/peer", at("the reported peer key is not exactly the peer's".into())));
                    }
                }
            }
        }
        // payloads: the last ones of e.pay are those of this step
        let n = out.pays.len();
        for (got, term) in out.pays.iter().zip(&e.pay[e.pay.len() - n..]) {
            let want = r.t.get(*term);
            if *got != want {
                fails.push(("C05/payload", at("a payload arrives changed".into())));
                if !altered[e.k] {
                    fails.push(("C01/payload", at("a payload arrives changed".into())));
                } else {
                    fails.push(("C02/payload", at("a payload arrives changed".into())));
                }
            }
        }
        match ns {
            St::Done(mut x) => {
                if x.ini {
                    x.peer = peers[&(ini, e.k)].clone();
                }
                done.push(x);
            },
            s => {
                st.insert((ini, e.k), s);
            },
        }
    }
    steps += finish(tr, &mut r, &mut done, j, &altered, fails);
    Some(steps)
}

/// all completed instances against each other
fn finish(tr: &Trace, r: &mut Run, done: &mut Vec<Box<Done>>, j: &Judge, altered: &[bool; 3], fails: &mut Vec<(&'static str, String)>) -> usize {
    let ev: Vec<&Ev> = done.iter().map(|d| &tr.log[d.ev]).collect();
    let name = |d: &Done| format!("{} of pair {}", if d.ini { "initiator" } else { "responder" }, d.k);
    let clean = !altered[1] && !altered[2];
    let mut steps = 0;
    // the properties concerned by a relation between instances a and b that must be equal / differ
    let alts = || format!("cast {}, alterations {:?}", tr.cast, tr.log.iter().flat_map(|e| e.alt.iter().map(move |a| format!("pair {} message {} field {} {} {}", e.k, a.m, a.f, a.c, a.x))).collect::<Vec<_>>());
    for a in 0..done.len() {
        if j.how == How::Exact && j.flip.is_none() {
            let want = r.t.get(ev[a].h);
            if done[a].hash != want {
                fails.push(("C05/hash", format!("{}: the session hash of the {} differs from the specified one", alts(), name(&done[a]))));
            }
        }
        for b in 0..a {
            let same_pair = done[a].k == done[b].k && !altered[done[a].k];
            if (done[a].hash == done[b].hash) != (ev[a].h == ev[b].h) {
                let w = format!("{}: session hashes of the {} and the {} are {}", alts(), name(&done[a]), name(&done[b]), if done[a].hash == done[b].hash { "equal" } else { "different" });
                if same_pair { fails.push(("C01/hash", w.clone())); } else if ev[a].h != ev[b].h { fails.push(("C06/hash", w.clone())); if !clean { fails.push(("C02/hash", w)); } } else if clean { fails.push(("C01/hash", w)); }
            }
        }
    }
    // transport: every completed instance sends; everybody tries to read everything.  What must be
    // rejected is offered first.
    let dir = |e: &Ev| (e.send, e.recv);
    for round in 0..4u64 {
        let order: Vec<usize> = if round % 2 == 0 { (0..done.len()).collect() } else { (0..done.len()).rev().collect() };
        let mut msgs: Vec<(usize, Vec<u8>, Vec<u8>)> = vec![];
        for &a in &order {
            // in the last round all send the same
            let pt = stream(&r.t.seed, &if round == 3 { "transport".into() } else { format!("transport {a} {round}") }, [17, 0, 64, 48][round as usize]);
            let mut data = pt.clone();
            done[a].cipher.encrypt_ext(b"ad", &mut data);
            if j.how == How::Exact && j.flip.is_none() {
                let key = r.t.get(dir(ev[a]).0);
                if data != AeadKind::ChaCha.seal(&key, round, b"ad", &pt) {
                    fails.push(("C05/transport", format!("{}: message {round} of the {} is not encrypted with the specified key", alts(), name(&done[a]))));
                }
            }
            msgs.push((a, data, pt));
        }
        if round == 3 {
            for (i, (a, x, _)) in msgs.iter().enumerate() {
                for (b, y, _) in &msgs[..i] {
                    if dir(ev[*a]).0 != dir(ev[*b]).0 && (x == y || x[..48] == y[..48]) {
                        fails.push(("C06/keys", format!("{}: the {} and the {} send with the same key", alts(), name(&done[*a]), name(&done[*b]))));
                    }
                }
            }
        }
        for &b in &order {
            let mut accepted = false;
            for pass in [false, true] {
                for (a, data, pt) in &msgs {
                    let should = dir(ev[*a]).0 == dir(ev[b]).1;
                    if should != pass || (should && accepted) {
                        continue;
                    }
                    accepted |= should;
                    steps += 1;
                    let mut x = data.clone();
                    let ok = done[b].cipher.decrypt_ext(b"ad", &mut x).is_ok();
                    if ok != should || (ok && x != *pt) {
                        let w = format!("{}: message {round} of the {} {} by the {}", alts(), name(&done[*a]), if !ok { "is not accepted" } else if should { "is read differently" } else { "is accepted" }, name(&done[b]));
                        if should {
                            if clean { fails.push(("C01/transport", w)); }
                        } else {
                            fails.push(("C06/transport", w.clone()));
                        }
                        // what the directions send is still compared
                        if !should || fails.len() > 8 { return steps; }
                    }
                }
            }
        }
    }
    if j.prop == "C01" && clean {
        steps += talk(r, done, fails);
    }
    steps
}

/// a longer conversation of every completed pair
fn talk(r: &Run, done: &mut Vec<Box<Done>>, fails: &mut Vec<(&'static str, String)>) -> usize {
    let v = stream(&r.t.seed, "talk", 4);
    let v = u32::from_le_bytes(v.try_into().unwrap());
    let total = if v % 2000 == 0 { 66000 } else if v % 40 == 0 { 1100 } else { 12 };
    let mut steps = 0;
    for a in 0..done.len() {
        let Some(b) = (0..done.len()).find(|&b| done[b].k == done[a].k && done[b].ini != done[a].ini) else { continue };
        for i in 0..total {
            let x = v.wrapping_mul(i + 1) >> 8;
            let len = if total < 100 && i % 6 == 5 { [1024, 4096, 16384, 65519, 65520, 70000][(x % 6) as usize] } else { x as usize % 100 };
            let pt = vec![x as u8; len];
            let ad = &pt[..len.min(x as usize % 40)];
            let mut data = pt.clone();
            done[a].cipher.encrypt_ext(ad, &mut data);
            let ok = done[b].cipher.decrypt_ext(ad, &mut data).is_ok();
            if !ok || data != pt {
                fails.push(("C01/conversation", format!("message {} (of {len} bytes) from the {} of pair {} {}", i + 3, if done[a].ini { "initiator" } else { "responder" }, done[a].k, if ok { "is read differently" } else { "is not accepted" })));
                return steps;
            }
            steps += 1;
        }
    }
    steps
}

fn report(prop: &str, fails: Vec<(&'static str, String)>, rep: &Report, replay: &str) {
    for (c, w) in fails {
        let (p, class) = c.split_once('/').unwrap();
        if p == prop {
            rep.fail(Fail::new(class, w, replay.to_string()));
        }
    }
}

pub fn run(prop: &str, how: How, lines: &[String], reps: usize, seed: u64, rep: &Report) {
    let traces: Vec<Trace> = lines.iter().map(|l| serde_json::from_str(l).unwrap()).collect();
    par(lines.len() * reps, |x| {
        let (i, n) = (x / reps, x % reps);
        let tr = &traces[i];
        let j = Judge { prop, how, flip: None };
        // one size that fits everything and one of the others
        for combo in [0, 1 + (i + n) % (COMBOS - 1)] {
            let mut fails = vec![];
            let s = match (i * 7 + n) % 12 {
                5 => format!("sparse0/{seed}/{i}/{n}"),
                9 => format!("sparsef/{seed}/{i}/{n}"),
                _ => format!("{seed}/{i}/{n}"),
            };
            if let Some(n) = replay(tr, &s, combo, &j, &mut fails) {
                rep.ok(n);
                if combo == 0 {
                    rep.sample(serde_json::json!({"cast": tr.cast, "steps": tr.log.iter().map(|e| format!("{}{} {} {:?}", e.op, e.k, e.ok, e.alt.iter().map(|a| (&a.f, &a.c, a.x)).collect::<Vec<_>>())).collect::<Vec<_>>()}));
                }
            } else {
                rep.count("not_applicable_to_these_sizes", 1);
            }
            report(j.prop, fails, rep, &format!("seed {s}, payload lengths {:?}: {}", lens(combo), lines[i]));
        }
    });
}

/// every byte of every field: the behaviours with a single damaged field, replayed with the
/// damage at each position
pub fn run_bytes(prop: &str, lines: &[String], bits: usize, seed: u64, rep: &Report) {
    let mut jobs: Vec<(usize, usize, u8)> = vec![];
    let traces: Vec<Trace> = lines.iter().map(|l| serde_json::from_str(l).unwrap()).collect();
    for (i, tr) in traces.iter().enumerate() {
        let alts: Vec<(usize, &Alt)> = tr.log.iter().enumerate().flat_map(|(n, e)| e.alt.iter().map(move |a| (n, a))).collect();
        if alts.len() != 1 || alts[0].1.c != "dmg" {
            continue;
        }
        let (n, a) = alts[0];
        let ell = a.f == "ell";
        if (ell && a.x > 1) || (!ell && a.x != 0) {
            continue;
        }
        let e = &tr.log[n];
        let node = &tr.defs[e.rx[&a.f] - 1];
        let len = match (a.f.as_str(), a.m) {
            ("ell", _) => 32,
            ("lat", _) => 1088,
            ("ct", _) | ("cts", _) => 1152,
            ("s", 1) | ("s", 2) => 1136,
            _ => 32,
        };
        let _ = node;
        for byte in 0..len {
            for b in 0..bits {
                let bit = if bits == 8 { b as u8 } else { ((byte * 7 + i + seed as usize + b * 3) % 8) as u8 };
                jobs.push((i, byte, bit));
            }
        }
    }
    par(jobs.len(), |x| {
        let (i, byte, bit) = jobs[x];
        let tr = &traces[i];
        // an altered point is judged by what it has become
        let (e, a) = tr.log.iter().flat_map(|e| e.alt.iter().map(move |a| (e, a))).next().unwrap();
        let s = format!("{seed}/bytes");
        if a.f == "ell" {
            let mut j = Judge { prop, how: How::Native, flip: None };
            j.flip = Some((byte, bit));
            let mut t = Terms::new(&tr.defs, HashKind::Sha3_256, AeadKind::ChaCha, s.clone());
            let src = tr.defs[e.rx["ell"] - 1].k[0];
            let mut v = t.get(src);
            v[byte] ^= 1 << bit;
            if crate::term::valid_point(&v) != (a.x == 0) {
                return;
            }
        }
        let j = Judge { prop, how: How::Native, flip: Some((byte, bit)) };
        let mut fails = vec![];
        if let Some(n) = replay(tr, &s, 0, &j, &mut fails) {
            rep.ok(n);
            rep.count("altered_positions", 1);
        }
        report(prop, fails, rep, &format!("byte {byte} bit {bit} of the altered field; {}", lines[i]));
    });
}
