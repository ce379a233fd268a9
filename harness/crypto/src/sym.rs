//! Replays behaviours of NoiseSym.tla and NoisePatterns.tla on the real symmetric state.
use crate::{term::{Node, Terms, HashKind, AeadKind}, util::{Report, Fail, guard}};
use serde::Deserialize;
use std::{collections::HashMap, marker::PhantomData};
use vru_noise::{typenum::*, ChainingKey, Cipher, Config, Key, SymmetricState};

#[derive(Deserialize, Clone, Debug)]
pub struct Ev {
    pub op: String,
    pub o: String,
    pub x: usize,
    pub y: usize,
    pub ok: bool,
    pub h: usize,
}

#[derive(Deserialize)]
pub struct Trace {
    #[serde(default)]
    pub pattern: String,
    pub defs: Vec<Node>,
    pub log: Vec<Ev>,
}

type Rot<C> = PhantomData<C>;

macro_rules! states {
    ($last:ident $ln:ident; $($v:ident $n:ident $next:ident),*) => {
        pub enum St<C: Config> {
            H(SymmetricState<C, ChainingKey<C>>),
            $($v(SymmetricState<C, Key<C, $n>>),)*
            $last(SymmetricState<C, Key<C, $ln>>),
            T(Cipher<C, Rot<C>>),
            Gone,
        }
        impl<C: Config> St<C> {
            pub fn hash(&self) -> Option<Vec<u8>> {
                match self {
                    St::H(s) => Some(s.hash().to_vec()),
                    $(St::$v(s) => Some(s.hash().to_vec()),)*
                    St::$last(s) => Some(s.hash().to_vec()),
                    _ => None,
                }
            }
            pub fn mix_hash(self, x: &[u8]) -> Self {
                match self {
                    St::H(s) => St::H(s.mix_hash(x)),
                    $(St::$v(s) => St::$v(s.mix_hash(x)),)*
                    St::$last(s) => St::$last(s.mix_hash(x)),
                    _ => panic!("harness: not a handshake state"),
                }
            }
            pub fn mix_key(self, x: &[u8]) -> Self {
                St::N0(match self {
                    St::H(s) => s.mix_shared_secret(x),
                    $(St::$v(s) => s.mix_shared_secret(x),)*
                    St::$last(s) => s.mix_shared_secret(x),
                    _ => panic!("harness: not a handshake state"),
                })
            }
            pub fn mix_psk(self, x: &[u8]) -> Self {
                St::N0(match self {
                    St::H(s) => s.mix_psk(x),
                    $(St::$v(s) => s.mix_psk(x),)*
                    St::$last(s) => s.mix_psk(x),
                    _ => panic!("harness: not a handshake state"),
                })
            }
            /// ciphertext || tag; `ext` selects the other entry point for the same thing
            pub fn encrypt(self, data: &mut Vec<u8>, ext: bool) -> Self {
                match self {
                    $(St::$v(s) => if ext { St::$next(s.encrypt_ext(data)) } else {
                        let (s, tag) = s.encrypt(data);
                        data.extend_from_slice(&tag);
                        St::$next(s)
                    },)*
                    _ => panic!("harness: no key"),
                }
            }
            pub fn decrypt(self, data: &mut Vec<u8>) -> Option<Self> {
                let tag_len = 16;
                if data.len() < tag_len { return None }
                let pos = data.len() - tag_len;
                let tag = data.split_off(pos);
                match self {
                    $(St::$v(s) => s.decrypt(data, vru_noise::Tag::<C>::clone_from_slice(&tag)).ok().map(St::$next),)*
                    _ => panic!("harness: no key"),
                }
            }
            pub fn finish(self) -> (Cipher<C, Rot<C>>, Vec<u8>) {
                match self {
                    St::H(s) => { let (c, h) = s.finish(); (c, h.to_vec()) },
                    $(St::$v(s) => { let (c, h) = s.finish(); (c, h.to_vec()) },)*
                    St::$last(s) => { let (c, h) = s.finish(); (c, h.to_vec()) },
                    _ => panic!("harness: not a handshake state"),
                }
            }
        }
    };
}
/// up to nine messages under one key, every suite
mod short {
    use super::*;
    states!(N9 U9; N0 U0 N1, N1 U1 N2, N2 U2 N3, N3 U3 N4, N4 U4 N5, N5 U5 N6, N6 U6 N7, N7 U7 N8, N8 U8 N9);
    include!("sym_replay.rs");
}

/// up to three hundred, one suite
mod long {
    use super::*;
    states!(N300 U300; N0 U0 N1, N1 U1 N2, N2 U2 N3, N3 U3 N4, N4 U4 N5, N5 U5 N6, N6 U6 N7, N7 U7 N8, N8 U8 N9, N9 U9 N10, N10 U10 N11, N11 U11 N12, N12 U12 N13, N13 U13 N14, N14 U14 N15, N15 U15 N16, N16 U16 N17, N17 U17 N18, N18 U18 N19, N19 U19 N20, N20 U20 N21, N21 U21 N22, N22 U22 N23, N23 U23 N24, N24 U24 N25, N25 U25 N26, N26 U26 N27, N27 U27 N28, N28 U28 N29, N29 U29 N30, N30 U30 N31, N31 U31 N32, N32 U32 N33, N33 U33 N34, N34 U34 N35, N35 U35 N36, N36 U36 N37, N37 U37 N38, N38 U38 N39, N39 U39 N40, N40 U40 N41, N41 U41 N42, N42 U42 N43, N43 U43 N44, N44 U44 N45, N45 U45 N46, N46 U46 N47, N47 U47 N48, N48 U48 N49, N49 U49 N50, N50 U50 N51, N51 U51 N52, N52 U52 N53, N53 U53 N54, N54 U54 N55, N55 U55 N56, N56 U56 N57, N57 U57 N58, N58 U58 N59, N59 U59 N60, N60 U60 N61, N61 U61 N62, N62 U62 N63, N63 U63 N64, N64 U64 N65, N65 U65 N66, N66 U66 N67, N67 U67 N68, N68 U68 N69, N69 U69 N70, N70 U70 N71, N71 U71 N72, N72 U72 N73, N73 U73 N74, N74 U74 N75, N75 U75 N76, N76 U76 N77, N77 U77 N78, N78 U78 N79, N79 U79 N80, N80 U80 N81, N81 U81 N82, N82 U82 N83, N83 U83 N84, N84 U84 N85, N85 U85 N86, N86 U86 N87, N87 U87 N88, N88 U88 N89, N89 U89 N90, N90 U90 N91, N91 U91 N92, N92 U92 N93, N93 U93 N94, N94 U94 N95, N95 U95 N96, N96 U96 N97, N97 U97 N98, N98 U98 N99, N99 U99 N100, N100 U100 N101, N101 U101 N102, N102 U102 N103, N103 U103 N104, N104 U104 N105, N105 U105 N106, N106 U106 N107, N107 U107 N108, N108 U108 N109, N109 U109 N110, N110 U110 N111, N111 U111 N112, N112 U112 N113, N113 U113 N114, N114 U114 N115, N115 U115 N116, N116 U116 N117, N117 U117 N118, N118 U118 N119, N119 U119 N120, N120 U120 N121, N121 U121 N122, N122 U122 N123, N123 U123 N124, N124 U124 N125, N125 U125 N126, N126 U126 N127, N127 U127 N128, N128 U128 N129, N129 U129 N130, N130 U130 N131, N131 U131 N132, N132 U132 N133, N133 U133 N134, N134 U134 N135, N135 U135 N136, N136 U136 N137, N137 U137 N138, N138 U138 N139, N139 U139 N140, N140 U140 N141, N141 U141 N142, N142 U142 N143, N143 U143 N144, N144 U144 N145, N145 U145 N146, N146 U146 N147, N147 U147 N148, N148 U148 N149, N149 U149 N150, N150 U150 N151, N151 U151 N152, N152 U152 N153, N153 U153 N154, N154 U154 N155, N155 U155 N156, N156 U156 N157, N157 U157 N158, N158 U158 N159, N159 U159 N160, N160 U160 N161, N161 U161 N162, N162 U162 N163, N163 U163 N164, N164 U164 N165, N165 U165 N166, N166 U166 N167, N167 U167 N168, N168 U168 N169, N169 U169 N170, N170 U170 N171, N171 U171 N172, N172 U172 N173, N173 U173 N174, N174 U174 N175, N175 U175 N176, N176 U176 N177, N177 U177 N178, N178 U178 N179, N179 U179 N180, N180 U180 N181, N181 U181 N182, N182 U182 N183, N183 U183 N184, N184 U184 N185, N185 U185 N186, N186 U186 N187, N187 U187 N188, N188 U188 N189, N189 U189 N190, N190 U190 N191, N191 U191 N192, N192 U192 N193, N193 U193 N194, N194 U194 N195, N195 U195 N196, N196 U196 N197, N197 U197 N198, N198 U198 N199, N199 U199 N200, N200 U200 N201, N201 U201 N202, N202 U202 N203, N203 U203 N204, N204 U204 N205, N205 U205 N206, N206 U206 N207, N207 U207 N208, N208 U208 N209, N209 U209 N210, N210 U210 N211, N211 U211 N212, N212 U212 N213, N213 U213 N214, N214 U214 N215, N215 U215 N216, N216 U216 N217, N217 U217 N218, N218 U218 N219, N219 U219 N220, N220 U220 N221, N221 U221 N222, N222 U222 N223, N223 U223 N224, N224 U224 N225, N225 U225 N226, N226 U226 N227, N227 U227 N228, N228 U228 N229, N229 U229 N230, N230 U230 N231, N231 U231 N232, N232 U232 N233, N233 U233 N234, N234 U234 N235, N235 U235 N236, N236 U236 N237, N237 U237 N238, N238 U238 N239, N239 U239 N240, N240 U240 N241, N241 U241 N242, N242 U242 N243, N243 U243 N244, N244 U244 N245, N245 U245 N246, N246 U246 N247, N247 U247 N248, N248 U248 N249, N249 U249 N250, N250 U250 N251, N251 U251 N252, N252 U252 N253, N253 U253 N254, N254 U254 N255, N255 U255 N256, N256 U256 N257, N257 U257 N258, N258 U258 N259, N259 U259 N260, N260 U260 N261, N261 U261 N262, N262 U262 N263, N263 U263 N264, N264 U264 N265, N265 U265 N266, N266 U266 N267, N267 U267 N268, N268 U268 N269, N269 U269 N270, N270 U270 N271, N271 U271 N272, N272 U272 N273, N273 U273 N274, N274 U274 N275, N275 U275 N276, N276 U276 N277, N277 U277 N278, N278 U278 N279, N279 U279 N280, N280 U280 N281, N281 U281 N282, N282 U282 N283, N283 U283 N284, N284 U284 N285, N285 U285 N286, N286 U286 N287, N287 U287 N288, N288 U288 N289, N289 U289 N290, N290 U290 N291, N291 U291 N292, N292 U292 N293, N293 U293 N294, N294 U294 N295, N295 U295 N296, N296 U296 N297, N297 U297 N298, N298 U298 N299, N299 U299 N300);
    include!("sym_replay.rs");
}

pub struct Suite {
    pub name: &'static str,
    pub hash: HashKind,
    pub aead: AeadKind,
    pub run: fn(&Trace, &mut Terms, Option<&crate::vectors::Vector>) -> Result<usize, String>,
}

pub fn suites() -> Vec<Suite> {
    use byteorder::{BigEndian, LittleEndian};
    use chacha20poly1305::ChaCha20Poly1305;
    use aes_gcm::{Aes256Gcm, Aes128Gcm};
    macro_rules! s {
        ($name:expr, $hk:ident, $ak:ident, $d:ty, $e:ty, $a:ty) => {
            Suite { name: $name, hash: HashKind::$hk, aead: AeadKind::$ak, run: short::replay::<($d, $e, $a)> }
        };
    }
    vec![
        s!("ChaChaPoly_SHA3", Sha3_256, ChaCha, sha3::Sha3_256, LittleEndian, ChaCha20Poly1305),
        s!("ChaChaPoly_SHA256", Sha256, ChaCha, sha2::Sha256, LittleEndian, ChaCha20Poly1305),
        s!("ChaChaPoly_SHA512", Sha512, ChaCha, sha2::Sha512, LittleEndian, ChaCha20Poly1305),
        s!("AESGCM_SHA256", Sha256, Aes256, sha2::Sha256, BigEndian, Aes256Gcm),
        s!("AESGCM_SHA512", Sha512, Aes256, sha2::Sha512, BigEndian, Aes256Gcm),
        s!("AES128GCM_SHA512", Sha512, Aes128, sha2::Sha512, BigEndian, Aes128Gcm),
        s!("AES128GCM_SHA3-512", Sha3_512, Aes128, sha3::Sha3_512, BigEndian, Aes128Gcm),
    ]
}

/// behaviours of NoiseSym.tla on every suite
pub fn run_sym(lines: &[String], seed: u64, rep: &Report) {
    let suites = suites();
    crate::util::par(lines.len(), |i| {
        let t: Trace = serde_json::from_str(&lines[i]).unwrap();
        for s in &suites {
            let mut terms = Terms::new(&t.defs, s.hash, s.aead, format!("{seed}/{i}"));
            let r = guard(|| (s.run)(&t, &mut terms, None));
            match r {
                Ok(Ok(n)) => rep.ok(n),
                Ok(Err(e)) | Err(e) => rep.fail(Fail::new("noise-sym", format!("suite {}: {e}", s.name), lines[i].clone())),
            }
        }
    });
}

/// behaviours of NoiseSymLong.tla
pub fn run_long(lines: &[String], seed: u64, rep: &Report) {
    crate::util::par(lines.len(), |i| {
        let t: Trace = serde_json::from_str(&lines[i]).unwrap();
        let mut terms = Terms::new(&t.defs, HashKind::Sha3_256, AeadKind::ChaCha, format!("{seed}/{i}"));
        match guard(|| long::replay::<(sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305)>(&t, &mut terms, None)) {
            Ok(Ok(n)) => rep.ok(n),
            Ok(Err(e)) | Err(e) => rep.fail(Fail::new("noise-sym", e, lines[i].clone())),
        }
    });
}

/// behaviours of NoisePatterns.tla with the published vectors
pub fn run_patterns(lines: &[String], vectors: &[crate::vectors::Vector], rep: &Report) {
    let suites = suites();
    let by: HashMap<String, Trace> = lines
        .iter()
        .map(|l| {
            let t: Trace = serde_json::from_str(l).unwrap();
            (t.pattern.clone(), t)
        })
        .collect();
    crate::util::par(vectors.len(), |i| {
        let v = &vectors[i];
        let f: Vec<&str> = v.protocol_name.split('_').collect();
        if f[2] != "25519" {
            return;
        }
        let suite = match suites.iter().find(|s| s.name == format!("{}_{}", f[3], f[4])) {
            Some(s) => s,
            None => return,
        };
        let t = match by.get(f[1]) {
            Some(t) => t,
            None => panic!("harness: the specification has no pattern {}", f[1]),
        };
        let mut terms = Terms::new(&t.defs, suite.hash, suite.aead, "".into());
        terms.name = v.protocol_name.clone();
        v.bind(&mut terms.bind);
        match guard(|| (suite.run)(t, &mut terms, Some(v))) {
            Ok(Ok(n)) => rep.ok(n),
            Ok(Err(e)) | Err(e) => rep.fail(Fail::new("noise-vector", format!("{}: {e}", v.protocol_name), v.protocol_name.clone())),
        }
    });
}
