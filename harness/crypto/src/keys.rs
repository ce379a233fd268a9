//! Replays Keys.tla on vru-session, and records texts of identities for IdentityText.tla.
use crate::{term::{altpt, badpt, stream, valid_point}, util::{guard, par, Fail, Report}};
use rac::{generic_array::GenericArray, Concat, LineValid};
use serde::Deserialize;
use sha3::Digest;
use std::{collections::HashMap, io::Write};
use vru_session::handshake::{Identity, PublicKey, SecretKey};

#[derive(Deserialize, Clone, Debug)]
pub struct Ev { op: String, x: usize, y: usize, z: usize, ok: bool }
#[derive(Deserialize, Clone, Debug)]
pub struct Out { kind: String, v: Vec<usize> }
#[derive(Deserialize)]
pub struct Trace { log: Vec<Ev>, outs: Vec<Out> }

const L: usize = 1088;
type Bytes = (Vec<u8>, Vec<u8>);

fn arr<N: rac::generic_array::ArrayLength<u8>>(b: &[u8]) -> GenericArray<u8, N> { GenericArray::clone_from_slice(b) }

/// a text altered in the way `m`
fn alter(t: &str, m: usize, id: &str) -> Option<String> {
    const AB: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let r = stream(id, &format!("alter{m}"), 8);
    let p = u16::from_le_bytes([r[0], r[1]]) as usize;
    let mut c: Vec<char> = t.chars().collect();
    if c.len() != 44 { return None }
    let other = |c: char| -> char { let k = AB.iter().position(|x| *x as char == c).unwrap_or(0); AB[(k + 1 + r[2] as usize % 63) % 64] as char };
    match m {
        1 => { let k = 2 + p % 42; c[k] = other(c[k]) },
        2 => c[0] = other(c[0]),
        3 => { let k = AB.iter().position(|x| *x as char == c[1])?; c[1] = AB[(k + 16 * (1 + p % 3)) % 64] as char },
        4 => { c.pop(); },
        5 => c.truncate(40),
        6 => c.push('A'),
        7 => c.extend("AAAA".chars()),
        8 => c[p % 44] = *[' ', '=', '\n', '*', '\0', '.'].get(r[3] as usize % 6)?,
        9 => c[p % 44] = *['-', '_'].get(r[3] as usize % 2)?,
        10 => c[p % 44] = *['é', 'Ａ', '\u{0}', '😀'].get(r[3] as usize % 4)?,
        11 => c.push(*['\n', ' ', '=', '\0'].get(r[3] as usize % 4)?),
        12 => c.insert(0, *['\n', ' ', '=', '\0'].get(r[3] as usize % 4)?),
        13 => c.clear(),
        14 => { c[43] = '='; if p % 2 == 0 { c[42] = '=' } },
        15 => c.extend("====".chars()),
        16 => c.truncate(p % 44),
        17 => { let k = c.clone(); c.extend(k) },
        18 => { c.truncate(42); c.extend("==".chars()) },
        // three bytes instead of the zero byte's group: 33 bytes, no zero in front
        _ => { c.rotate_left(4); if c[0] == 'A' && c[1] < 'Q' { c[0] = 'z' } },
    }
    Some(c.into_iter().collect())
}

fn layout(pk: &PublicKey) -> Option<Vec<u8>> {
    let b = bincode::serialize(pk).ok()?;
    let Concat(e, l) = pk.compress();
    let h = sha3::Sha3_256::digest(&l);
    if b == [e.to_vec(), l.to_vec(), h.to_vec()].concat() { Some(b) } else { None }
}

fn unpack(b: &[u8], how: usize) -> Result<PublicKey, String> {
    if how == 1 { return bincode::deserialize(b).map_err(|e| e.to_string()) }
    serde_json::from_str(&serde_json::to_string(b).unwrap()).map_err(|e| e.to_string())
}

fn replay(t: &Trace, id: &str) -> Result<usize, String> {
    let seeds = [stream(id, "k1", 96), stream(id, "k2", 96)];
    let (mut pks, mut sks): (Vec<PublicKey>, Vec<SecretKey>) = (vec![], vec![]);
    for s in &seeds {
        let (p, k) = PublicKey::gen(&arr(s));
        pks.push(p);
        sks.push(k);
    }
    let parts = |p: &PublicKey| -> Bytes { let Concat(e, l) = p.compress(); (e.to_vec(), l.to_vec()) };
    let own: Vec<Bytes> = pks.iter().map(parts).collect();
    let mut ells = vec![badpt(&own[0].0), own[0].0.clone(), own[1].0.clone()];
    ells.push(altpt(&stream(id, "e3", 32)));
    let mut lats = vec![vec![], own[0].1.clone(), own[1].1.clone()];
    // the first key's altered in one byte, or anything
    let mut l3 = own[0].1.clone();
    let r = stream(id, "l3", L);
    if r[0] % 2 == 0 { l3[u16::from_le_bytes([r[1], r[2]]) as usize % L] ^= 1 << (r[3] % 8) } else { l3 = r }
    lats.push(l3);
    let mut hashes: Vec<Vec<u8>> = lats.iter().map(|l| sha3::Sha3_256::digest(l).to_vec()).collect();
    let mut h4 = hashes[1].clone();
    let r = stream(id, "h4", 2);
    h4[r[0] as usize % 32] ^= 1 << (r[1] % 8);
    hashes.push(h4);
    let flat = layout(&pks[0]).is_some();

    let mut raws: Vec<Bytes> = vec![];
    let mut packs: Vec<Vec<u8>> = vec![];
    let mut ids: Vec<Identity> = vec![];
    let mut texts: Vec<String> = vec![];
    let mut cts = vec![];
    let mut outs: Vec<Vec<u8>> = vec![];
    for (i, v) in t.log.iter().enumerate() {
        let e = |m: String| format!("step {} ({} {} {} {}): {m}", i + 1, v.op, v.x, v.y, v.z);
        let x = v.x.wrapping_sub(1);
        match v.op.as_str() {
            "compress" => raws.push(parts(&pks[x])),
            "mix" => {
                let (a, b) = (v.z / 10, v.z % 10);
                let m = (if a == 9 { raws[x].0.clone() } else { ells[a].clone() }, if b == 9 { raws[v.y - 1].1.clone() } else { lats[b].clone() });
                raws.push(m);
            },
            "decompress" => {
                let b = Concat(arr(&raws[x].0), arr(&raws[x].1));
                match (PublicKey::try_decompress(b), v.ok) {
                    (Ok(p), true) => {
                        if parts(&p) != raws[x] { return Err(e("compression does not give back the bytes".into())) }
                        pks.push(p)
                    },
                    (Err(_), false) => {},
                    (Ok(_), false) => return Err(e("bytes of no point are accepted".into())),
                    (Err(_), true) => return Err(e("a compressed key is refused".into())),
                }
            },
            "clone" => { let p = pks[x].clone(); pks.push(p) },
            "clonesk" => { let s = sks[x].clone(); sks.push(s) },
            "pack" => packs.push(bincode::serialize(&pks[x]).map_err(|m| e(m.to_string()))?),
            "mixpack" => {
                if !flat { return Ok(i) }
                let (a, b, c) = (v.z / 100, v.z / 10 % 10, v.z % 10);
                let mut m = packs[x].clone();
                if a != 9 { m[..32].copy_from_slice(&ells[a]) }
                if b != 9 { m[32..32 + L].copy_from_slice(&lats[b]) }
                if c != 9 { m[32 + L..].copy_from_slice(&hashes[c]) }
                packs.push(m);
            },
            "unpack" => match (unpack(&packs[x], v.y), v.ok) {
                (Ok(p), true) => {
                    let want: Vec<u8> = packs[x].clone();
                    if bincode::serialize(&p).ok() != Some(want) { return Err(e("serialising gives other bytes".into())) }
                    pks.push(p)
                },
                (Err(_), false) => {},
                (Ok(_), false) => return Err(e("an inconsistent key is accepted".into())),
                (Err(m), true) => return Err(e(format!("a serialised key is refused: {m}"))),
            },
            "broken" => {
                let b = &packs[x];
                let js = serde_json::to_string(b).unwrap();
                let ok = match v.y {
                    1 => bincode::deserialize::<PublicKey>(&b[..b.len() / 2]).is_ok(),
                    2 => bincode::deserialize::<PublicKey>(&[]).is_ok(),
                    3 => bincode::deserialize::<PublicKey>(&b[..b.len() - 1]).is_ok(),
                    4 => serde_json::from_str::<PublicKey>("\"x\"").is_ok(),
                    5 => serde_json::from_str::<PublicKey>(&serde_json::to_string(&b[1..]).unwrap()).is_ok(),
                    _ => serde_json::from_str::<PublicKey>(&js.replacen('[', "[256,", 1)).is_ok(),
                };
                if ok { return Err(e("malformed bytes are accepted as a key".into())) }
            },
            "id" => {
                let d = pks[x].identity();
                let want = sha3::Sha3_256::digest(&{ let (a, b) = parts(&pks[x]); [a, b].concat() }).to_vec();
                if d.as_ref() != &want[..] { return Err(e("the identity is not the hash of the compressed key".into())) }
                outs.push(d.as_ref().to_vec());
                ids.push(d);
            },
            "show" => {
                let s = ids[x].to_string();
                if s != base64::encode([&[0], ids[x].as_ref()].concat()) { return Err(e(format!("wrong text {s}"))) }
                texts.push(s);
            },
            "alter" => texts.push(alter(&texts[x], v.y, id).ok_or_else(|| e("a text of another length".into()))?),
            "read" => match (texts[x].parse::<Identity>(), v.ok) {
                (Ok(d), true) => {
                    if d.to_string() != texts[x] { return Err(e("the text changes when read and written".into())) }
                    outs.push(d.as_ref().to_vec());
                    ids.push(d);
                },
                (Err(_), false) => {},
                (Ok(_), false) => return Err(e(format!("the text {:?} is accepted", texts[x]))),
                (Err(_), true) => return Err(e(format!("the text {:?} is refused", texts[x]))),
            },
            "idserde" => {
                let d: Identity = if v.y == 1 {
                    bincode::deserialize(&bincode::serialize(&ids[x]).map_err(|m| e(m.to_string()))?).map_err(|m| e(m.to_string()))?
                } else {
                    serde_json::from_str(&serde_json::to_string(&ids[x]).map_err(|m| e(m.to_string()))?).map_err(|m| e(m.to_string()))?
                };
                if d != ids[x] || d.clone() != d { return Err(e("an identity changes".into())) }
                outs.push(d.as_ref().to_vec());
                ids.push(d);
            },
            "dh" => outs.push(pks[x].dh(&sks[v.y - 1]).to_vec()),
            "enc" => {
                let s = stream(id, &format!("enc{}", v.y), 32);
                let c = pks[x].encapsulate(&arr(&s));
                outs.push(c.ss.to_vec());
                cts.push(c.ct);
            },
            "dec" => outs.push(pks[x].decapsulate(&sks[v.y - 1], &cts[v.z - 1]).to_vec()),
            o => panic!("harness: {o}"),
        }
    }
    if outs.len() != t.outs.len() { panic!("harness: number of values") }
    let mut by: HashMap<(&str, &[usize]), &[u8]> = HashMap::new();
    let mut back: HashMap<(&str, &[u8]), &[usize]> = HashMap::new();
    for (k, (o, b)) in t.outs.iter().zip(&outs).enumerate() {
        if *by.entry((&o.kind, &o.v)).or_insert(b) != &b[..] { return Err(format!("use {} ({} {:?}) depends on the representation", k + 1, o.kind, o.v)) }
        if *back.entry((&o.kind, b)).or_insert(&o.v) != &o.v[..] { return Err(format!("use {} ({} {:?}) gives the value of another key", k + 1, o.kind, o.v)) }
    }
    let eq: std::collections::HashSet<&Identity> = ids.iter().collect();
    let n: std::collections::HashSet<&[u8]> = ids.iter().map(|d| d.as_ref()).collect();
    if eq.len() != n.len() { return Err("identities with different hashes compare equal, or equal ones different".into()) }
    Ok(t.log.len())
}

pub fn run(lines: &[String], reps: usize, seed: u64, rep: &Report) {
    par(lines.len() * reps, |i| {
        let l = &lines[i / reps];
        let t: Trace = serde_json::from_str(l).expect("harness: trace");
        match guard(|| replay(&t, &format!("{seed}.{i}"))) {
            Ok(Ok(n)) => rep.ok(n),
            Ok(Err(m)) | Err(m) => rep.fail(Fail::new("representation", m, l.clone())),
        }
    });
    if let Some(l) = lines.first() { rep.sample(serde_json::from_str(l).unwrap()) }
}

/// texts of identities, altered any number of times, and arbitrary texts; what is made of them
pub fn record(n: usize, seed: u64, out: &str, rep: &Report) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..n {
        let id = format!("{seed}.t{i}");
        let r = stream(&id, "r", 8);
        let mut hash = stream(&id, "h", 32);
        match r[4] % 8 { 0 => hash.fill(0), 1 => hash.fill(0xff), 2 => hash[..16].fill(0xfb), _ => {} }
        let first = guard(|| base64::encode([&[0], &hash[..]].concat()));
        let mut text = first.expect("harness: text");
        let k = r[0] % 4;
        for j in 0..k {
            if let Some(t) = alter(&text, 1 + r[1 + j as usize] as usize % 19, &format!("{id}.{j}")) { text = t }
        }
        if k == 3 && r[5] % 2 == 0 {
            // random texts over the alphabet and others
            let l = [0, 1, 4, 43, 44, 44, 44, 45, 48][r[6] as usize % 9];
            text = stream(&id, "txt", l).iter().map(|c| if r[7] % 2 == 0 { b"AB+/=z0-"[*c as usize % 8] as char } else { *c as char }).collect();
        }
        let got = guard(|| text.parse::<Identity>());
        let rec = match got {
            Err(m) => { rep.fail(Fail::new("text", format!("reading {text:?}: {m}"), text.clone())); continue },
            Ok(Ok(d)) => serde_json::json!({"text": text.as_bytes(), "ok": true, "hash": d.as_ref(), "shown": false}),
            Ok(Err(_)) => serde_json::json!({"text": text.as_bytes(), "ok": false, "hash": Vec::<u8>::new(), "shown": false}),
        };
        writeln!(f, "{rec}").unwrap();
        rep.ok(1);
        // an identity with this very hash, written
        if let Ok(Ok(d)) = guard(|| bincode::deserialize::<Identity>(&hash)) {
            match guard(|| d.to_string()) {
                Ok(s) => writeln!(f, "{}", serde_json::json!({"text": s.as_bytes(), "ok": s.parse::<Identity>().is_ok(), "hash": d.as_ref(), "shown": true})).unwrap(),
                Err(m) => rep.fail(Fail::new("text", format!("writing: {m}"), hex::encode(&hash))),
            }
        }
    }
    let _ = valid_point;
}
