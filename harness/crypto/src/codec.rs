//! Replays Codec.tla on the codecs of rac.
use crate::{field::*, term::stream, util::{guard, par, Fail, Report}};
use rac_repo::{
    generic_array::{typenum::*, ArrayLength, GenericArray},
    Array, Concat, Line, LineLike, LineValid, Schnorr,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::any::Any;

#[derive(Deserialize, Clone, Debug)]
pub struct Piece { b: usize, i: usize, n: usize, cl: bool }
#[derive(Deserialize, Clone, Debug)]
pub struct Block { n: usize, c: String, edp: bool, ses: bool, can: bool }
#[derive(Deserialize, Clone, Debug)]
pub struct Ev { op: String, x: usize, y: usize, t: String, ok: bool, s: Vec<Piece> }
#[derive(Deserialize)]
pub struct Trace { blocks: Vec<Block>, log: Vec<Ev> }

type A<N> = GenericArray<u8, N>;
type Nil = [u8; 0];
type Eds = curve25519_dalek::scalar::Scalar;
type Edp = curve25519_dalek::edwards::EdwardsPoint;
type Mop = curve25519_dalek::montgomery::MontgomeryPoint;
type Ses = secp256k1::SecretKey;
type Sep = secp256k1::PublicKey;
type Ecd = secp256k1::Signature;
type Sch = Schnorr<Edp, sha3::Sha3_256>;
type Scs = Schnorr<Sep, sha2::Sha256>;
type C<U, V> = Concat<U, V>;

trait Named { fn name() -> String; }
impl<N: ArrayLength<u8>> Named for A<N> { fn name() -> String { format!("a{}", N::USIZE) } }
macro_rules! named { ($($t:ty, $n:expr;)*) => { $(impl Named for $t { fn name() -> String { $n.into() } })* } }
named! { Nil, "nil"; Eds, "eds"; Edp, "edp"; Mop, "mop"; Ses, "ses"; Sep, "sep"; Ecd, "ecd"; Sch, "sch"; Scs, "scs"; }
impl<U: Named + LineValid, V: Named + LineValid> Named for C<U, V> {
    fn name() -> String { format!("({} {})", U::name(), V::name()) }
}

type Value = Box<dyn Any>;

/// a type of the menu
pub struct Entry {
    name: String,
    parse: fn(&[u8]) -> Option<Value>,
    ser: fn(&Value) -> Vec<u8>,
    left: Option<fn(&Value) -> Vec<u8>>,
    right: Option<fn(&Value) -> Vec<u8>>,
    cat: Option<fn(&[u8], &[u8]) -> Option<Value>>,
    serde: Option<fn(&Value, usize) -> Result<(), String>>,
}

fn parse_t<T: LineValid>(b: &[u8]) -> Option<T> {
    if b.len() != T::Length::USIZE { panic!("harness: length") }
    T::try_clone_array(Array::<T::Length>::from_slice(b)).ok()
}
fn the<T: 'static>(v: &Value) -> &T { v.downcast_ref::<T>().expect("harness: type") }

fn plain<T: LineValid + Named + 'static>() -> Entry {
    Entry {
        name: T::name(),
        parse: |b| parse_t::<T>(b).map(|x| Box::new(x) as Value),
        ser: |v| the::<T>(v).clone_line().to_vec(),
        left: None,
        right: None,
        cat: None,
        serde: None,
    }
}

fn cat<U: LineValid + Named + 'static, V: LineValid + Named + 'static>() -> Entry
where
    C<U, V>: LineValid,
{
    Entry {
        left: Some(|v| the::<C<U, V>>(v).as_ref_u().clone_line().to_vec()),
        right: Some(|v| the::<C<U, V>>(v).as_ref_v().clone_line().to_vec()),
        cat: Some(|a, b| Some(Box::new(Concat(parse_t::<U>(a)?, parse_t::<V>(b)?)))),
        ..plain::<C<U, V>>()
    }
}

fn total<T: Line + Named + Serialize + DeserializeOwned + 'static>(e: Entry) -> Entry {
    Entry {
        serde: Some(|v, how| {
            let b = the::<T>(v).clone_line();
            let same = |x: &T, what: &str| if x.clone_line() == b { Ok(()) } else { Err(format!("{what} gives another value")) };
            let x = T::clone_array(&b);
            same(&x, "parsing")?;
            let len = b.len();
            match how {
                1 => {
                    let l = LineLike(x);
                    same(&l.clone().0, "cloning")?;
                    let s = bincode::serialize(&l).map_err(|e| e.to_string())?;
                    same(&bincode::deserialize::<LineLike<T>>(&s).map_err(|e| e.to_string())?.0, "bincode")?;
                    for k in [0, s.len() / 2, s.len().saturating_sub(1)] {
                        if len > 0 && k < s.len() && bincode::deserialize::<LineLike<T>>(&s[..k]).is_ok() { return Err(format!("{k} of {} serialised bytes are accepted", s.len())) }
                    }
                },
                2 => {
                    let s = serde_json::to_string(&LineLike(x)).map_err(|e| e.to_string())?;
                    same(&serde_json::from_str::<LineLike<T>>(&s).map_err(|e| e.to_string())?.0, "json")?;
                    let mut a: Vec<u16> = b.iter().map(|x| *x as u16).collect();
                    a.push(1);
                    let mut bad = vec![serde_json::to_string(&a).unwrap(), "7".into(), "{}".into(), "\"x\"".into()];
                    a.pop();
                    if len > 0 {
                        a[len / 2] = 256;
                        bad.push(serde_json::to_string(&a).unwrap());
                        a.pop();
                        bad.push(serde_json::to_string(&a).unwrap());
                        bad.push("[]".into());
                    }
                    for s in bad {
                        if serde_json::from_str::<LineLike<T>>(&s).is_ok() { return Err(format!("{s} is accepted")) }
                    }
                },
                _ => {
                    let s = bincode::serialize(&x).map_err(|e| e.to_string())?;
                    same(&bincode::deserialize::<T>(&s).map_err(|e| e.to_string())?, "bincode of the parts")?;
                    for k in [0, s.len() / 2, s.len().saturating_sub(1)] {
                        if len > 0 && k < s.len() && bincode::deserialize::<T>(&s[..k]).is_ok() { return Err(format!("{k} of {} serialised bytes are accepted", s.len())) }
                    }
                    let s = serde_json::to_string(&x).map_err(|e| e.to_string())?;
                    same(&serde_json::from_str::<T>(&s).map_err(|e| e.to_string())?, "json of the parts")?;
                },
            }
            Ok(())
        }),
        ..e
    }
}

fn menu() -> Vec<Entry> {
    type A1 = A<U1>;
    type A5 = A<U5>;
    type A16 = A<U16>;
    type A32 = A<U32>;
    type A33 = A<U33>;
    type A64 = A<U64>;
    macro_rules! t { ($t:ty) => { total::<$t>(plain::<$t>()) } }
    macro_rules! tc { ($u:ty, $v:ty) => { total::<C<$u, $v>>(cat::<$u, $v>()) } }
    macro_rules! c { ($u:ty, $v:ty) => { cat::<$u, $v>() } }
    vec![
        t!(A<U0>), t!(A1), t!(A5), t!(A32), t!(A33), t!(A64), t!(Nil),
        plain::<Eds>(), plain::<Edp>(), plain::<Mop>(), plain::<Ses>(), plain::<Sep>(), plain::<Ecd>(), plain::<Sch>(), plain::<Scs>(),
        tc!(A1, A5), tc!(A5, A1), tc!(Nil, A5), tc!(A5, Nil), tc!(A<U0>, A32), tc!(A32, A32),
        c!(Edp, Eds), c!(Eds, Edp), c!(Edp, Edp), c!(Eds, Eds), c!(Ses, Sep), c!(Sep, Ses), c!(A33, Edp), c!(Edp, A33),
        c!(Sch, A5), c!(A5, Sch), c!(Mop, Edp), c!(Edp, Mop), c!(Ses, Edp), c!(Sep, Ecd),
        tc!(C<A1, A5>, A32), tc!(A1, C<A5, A32>), c!(C<Edp, A1>, C<A1, Edp>),
        c!(C<Edp, Edp>, Edp), c!(Edp, C<Edp, Edp>), c!(C<A32, C<Edp, A16>>, A16),
        tc!(C<Nil, C<A1, Nil>>, A5), c!(Ecd, C<Scs, Sep>), c!(C<Eds, Ses>, C<Mop, A32>),
        tc!(C<A1, C<A5, C<A33, A1>>>, C<A64, A5>), tc!(C<A5, A33>, C<A1, A64>),
    ]
}

/// bytes with the wanted properties
fn block(b: &Block, id: &str, k: usize) -> Vec<u8> {
    match b.c.as_str() {
        "raw" => return stream(id, &format!("b{k}"), b.n),
        "zero" => return vec![0; 32],
        "pt" => {
            let s = SecpK::exp(&stream(id, &format!("b{k}"), 32));
            return s;
        },
        _ => {},
    }
    for j in 0.. {
        let mut v = stream(id, &format!("b{k}.{j}"), b.n);
        if b.c == "nopt" {
            if j > 1 { v[..32].fill(if k % 2 == 0 { 0 } else { 0xff }) }
            if Secp::parse(&v).is_none() { return v }
            continue;
        }
        if !b.ses { v[..16].fill(0xff) }
        if b.can { v[31] &= 0x0f } else { v[31] |= 0x20 }
        // canonical values close to the order, and values just above
        let own = Ed::decompress(&v).is_some();
        let be = from_be(&v);
        let ok = be != ZERO && less(&be, &nsecp().m);
        let canon = less(&from_le(&v), &l25519().m);
        if own == b.edp && ok == b.ses && canon == b.can { return v }
        if j > 1000 { panic!("harness: no such block") }
    }
    unreachable!()
}

struct SecpK;
impl SecpK {
    fn exp(k: &[u8]) -> Vec<u8> { Secp::base().mul(&from_be(k)).line() }
}

fn replay(t: &Trace, id: &str, menu: &[Entry]) -> Result<usize, String> {
    let blocks: Vec<Vec<u8>> = t.blocks.iter().enumerate().map(|(k, b)| block(b, id, k)).collect();
    let eval = |s: &[Piece]| -> Vec<u8> {
        s.iter().flat_map(|p| {
            let b = &blocks[p.b - 1];
            let b = if p.cl { to_le(&clamp(b)).to_vec() } else { b.clone() };
            b[p.i - 1..p.i - 1 + p.n].to_vec()
        }).collect()
    };
    let mut strs: Vec<Vec<u8>> = vec![];
    let mut vals: Vec<(&Entry, Value)> = vec![];
    for (i, v) in t.log.iter().enumerate() {
        let e = |m: String| format!("step {} ({} {} {} {}): {m}", i + 1, v.op, v.x, v.y, v.t);
        let by = |n: &str| menu.iter().find(|x| x.name == n).expect("harness: type of the menu");
        match v.op.as_str() {
            "bytes" => strs.push(eval(&v.s)),
            "parse" => {
                let t = by(&v.t);
                match ((t.parse)(&strs[v.x - 1]), v.ok) {
                    (Some(x), true) => {
                        let b = (t.ser)(&x);
                        let y = (t.parse)(&b).ok_or_else(|| e("the bytes of a parsed value are refused".into()))?;
                        if (t.ser)(&y) != b { return Err(e("serialising and parsing gives another value".into())) }
                        vals.push((t, x))
                    },
                    (None, false) => {},
                    (Some(_), false) => return Err(e("bytes that denote no value are accepted".into())),
                    (None, true) => return Err(e("bytes of a value are refused".into())),
                }
            },
            "ser" | "left" | "right" => {
                let (t, x) = &vals[v.x - 1];
                let f = match v.op.as_str() { "ser" => t.ser, "left" => t.left.expect("harness: part"), _ => t.right.expect("harness: part") };
                let b = f(x);
                let want = eval(&v.s);
                if b != want { return Err(e(format!("bytes {} and not {}", hex::encode(&b), hex::encode(&want)))) }
                strs.push(b);
            },
            "cat" => {
                let t = by(&v.t);
                let (a, b) = (&vals[v.x - 1], &vals[v.y - 1]);
                let x = (t.cat.expect("harness: cat"))(&(a.0.ser)(&a.1), &(b.0.ser)(&b.1)).ok_or_else(|| e("the bytes of a parsed value are refused".into()))?;
                vals.push((t, x));
            },
            "serde" => {
                let (t, x) = &vals[v.x - 1];
                (t.serde.expect("harness: serde"))(x, v.y).map_err(e)?;
            },
            o => panic!("harness: {o}"),
        }
    }
    Ok(t.log.len())
}

pub fn run(lines: &[String], reps: usize, seed: u64, rep: &Report) {
    let menu = menu();
    par(lines.len() * reps, |i| {
        let l = &lines[i / reps];
        let t: Trace = serde_json::from_str(l).expect("harness: trace");
        let id = format!("{seed}.{i}");
        match guard(|| replay(&t, &id, &menu)) {
            Ok(Ok(n)) => rep.ok(n),
            Ok(Err(m)) | Err(m) => rep.fail(Fail::new("codec", m, l.clone())),
        }
    });
    if let Some(l) = lines.first() { rep.sample(serde_json::from_str(l).unwrap()) }
}
