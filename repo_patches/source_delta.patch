From bc4ccf540a1fa6fecec1cc1ea629d1909ffad8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 01/25] fix: kyber: round the generated public key as its
 serialised form does

---
 vru-kyber/src/indcpa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-kyber/src/indcpa.rs b/vru-kyber/src/indcpa.rs
index d4e99b6..372ced3 100644
--- a/vru-kyber/src/indcpa.rs
+++ b/vru-kyber/src/indcpa.rs
@@ -124,7 +124,9 @@ where
             Coefficient::acc(a.iter().zip(b.iter()))
         });
         let p = p.ntt();
-        Poly::functor_2(&p, &e[i], |p, e| p + e)
+        let p: Poly<S, typenum::B1> = Poly::functor_2(&p, &e[i], |p, e| p + e);
+        // the peer has only the compressed key, so use the same rounded value here
+        Poly::decompress_slightly(&p.compress_slightly())
     });
 
     (
-- 
2.43.0


From 3770cf65246e05ec2b7f2784f32b2eb42bb4b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 02/25] fix: kyber: hash the received ciphertext, not the
 re-encrypted one, on decapsulation

---
 vru-kyber/src/kem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-kyber/src/kem.rs b/vru-kyber/src/kem.rs
index 4b6835b..af3a943 100644
--- a/vru-kyber/src/kem.rs
+++ b/vru-kyber/src/kem.rs
@@ -94,7 +94,7 @@ where
         let ct_prime = cipher_text.clone_line();
         let flag = ct.ct_eq(ct_prime.as_ref());
 
-        let ct_hash = Sha3_256::default().chain(ct).finalize_fixed();
+        let ct_hash = Sha3_256::default().chain(ct_prime).finalize_fixed();
         for i in 0..32 {
             r[i].conditional_assign(&reject[i], !flag);
         }
-- 
2.43.0


From 8bdada5e5ff518fdcfc977ee47fda3cb10138a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 03/25] fix: session: refuse texts that are not an identity
 instead of panicking or accepting them

---
 vru-session/src/handshake/key.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 9d9a78b..7e09346 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -119,6 +119,12 @@ impl FromStr for Identity {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let bytes = base64::decode(s)?;
+        if bytes.len() != 33 {
+            return Err(base64::DecodeError::InvalidLength);
+        }
+        if bytes[0] != 0 {
+            return Err(base64::DecodeError::InvalidByte(0, bytes[0]));
+        }
         let mut hash = Array::default();
         hash.as_mut_slice().clone_from_slice(&bytes[1..33]);
         Ok(Identity { hash })
-- 
2.43.0


From d0b2a6ea41773be2af68cc7cbdf00b78313e3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 04/25] fix: session: return an error when deserialising an
 inconsistent public key

---
 vru-session/src/handshake/key.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 7e09346..097d9be 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -139,7 +139,7 @@ pub struct SecretKey {
 mod implementations {
     use serde::{ser, de};
     use rac::{Concat, Line, LineLike, LineValid};
-    use super::{PublicKey, SecretKey};
+    use super::{PublicKey, SecretKey, lattice::pk_hash};
 
     impl ser::Serialize for PublicKey {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -159,9 +159,15 @@ mod implementations {
             D: de::Deserializer<'de>,
         {
             let LineLike(Concat(a, Concat(b, c))) = de::Deserialize::deserialize(deserializer)?;
+            let elliptic = LineValid::try_clone_array(&a)
+                .map_err(|()| de::Error::custom("invalid curve point"))?;
+            let lattice = Line::clone_array(&b);
+            if pk_hash(&lattice) != c {
+                return Err(de::Error::custom("lattice key hash mismatch"));
+            }
             Ok(PublicKey {
-                elliptic: LineValid::try_clone_array(&a).unwrap(),
-                lattice: Line::clone_array(&b),
+                elliptic,
+                lattice,
                 lattice_hash: c,
             })
         }
-- 
2.43.0


From 1eb569c1e40de5c2cdd611467ae37cfeae6878eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 05/25] fix: session: report an error when a handshake reply
 carries an invalid curve point

---
 vru-session/src/handshake/key.rs | 15 ++++++++++++---
 vru-session/src/handshake/mod.rs |  2 +-
 vru-session/src/handshake/xx.rs  | 17 +++++++++++++----
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 097d9be..edea85b 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -1,10 +1,15 @@
 use std::{ops::Mul, fmt, str::FromStr};
 use curve25519_dalek::{edwards::EdwardsPoint, scalar::Scalar};
 use serde::{Serialize, Deserialize};
+use thiserror::Error;
 use rac::{Array, Concat, Curve, LineValid, Line, generic_array::typenum};
 use self::lattice::{Sk, Pk, PkHash};
 pub use self::lattice::{Ct, SharedSecret, Encapsulated};
 
+#[derive(Debug, Error)]
+#[error("invalid curve point")]
+pub struct InvalidPoint;
+
 pub struct PublicKey {
     elliptic: EdwardsPoint,
     lattice: Pk,
@@ -40,15 +45,19 @@ impl PublicKey {
     }
 
     pub fn decompress(bytes: PublicKeyBytes) -> Self {
+        Self::try_decompress(bytes).unwrap()
+    }
+
+    pub fn try_decompress(bytes: PublicKeyBytes) -> Result<Self, InvalidPoint> {
         let Concat(elliptic_bytes, lattice_bytes) = bytes;
+        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).map_err(|()| InvalidPoint)?;
         let lattice = Pk::clone_array(&lattice_bytes);
-        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).unwrap();
         let lattice_hash = lattice::pk_hash(&lattice);
-        PublicKey {
+        Ok(PublicKey {
             elliptic,
             lattice,
             lattice_hash,
-        }
+        })
     }
 
     pub fn elliptic(&self) -> Array<typenum::U32> {
diff --git a/vru-session/src/handshake/mod.rs b/vru-session/src/handshake/mod.rs
index 3e24e4f..3892ae8 100644
--- a/vru-session/src/handshake/mod.rs
+++ b/vru-session/src/handshake/mod.rs
@@ -1,5 +1,5 @@
 mod key;
-pub use self::key::{SecretKey, PublicKey, Identity};
+pub use self::key::{SecretKey, PublicKey, Identity, InvalidPoint};
 
 mod noise;
 pub use self::noise::{TrivialRotor, TrivialCipher, TrivialUnidirectional};
diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index f2b543b..bab7bc3 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -2,7 +2,7 @@ use vru_noise::{SymmetricState, MacMismatch, ChainingKey, Key, Cipher, Rotor};
 use rac::{Array, Concat, LineValid, Line, generic_array::typenum};
 use thiserror::Error;
 use super::{
-    key::{Identity, PublicKey, PublicKeyBytes, SecretKey, Ct},
+    key::{Identity, InvalidPoint, PublicKey, PublicKeyBytes, SecretKey, Ct},
     noise::{Noise, EncryptedDefault, SymmetricStateOps},
 };
 
@@ -53,6 +53,10 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("ephemeral key {}", _0)]
+    EphemeralKeyPoint(InvalidPoint),
+    #[error("static key {}", _0)]
+    StaticKeyPoint(InvalidPoint),
 }
 
 #[derive(Debug, Error)]
@@ -63,6 +67,8 @@ pub enum RespondersError {
     PayloadRMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("static key {}", _0)]
+    StaticKeyPoint(InvalidPoint),
 }
 
 // the handshake variant is xx, but the initiator know responder pk
@@ -121,12 +127,14 @@ where
         .decrypt_line(payload_p)
         .map_err(InitiatorsError::PayloadPMac)?;
     let symmetric_state = symmetric_state.mix_hash(&peer_e_pkc.clone_line());
-    let peer_e_pk = PublicKey::decompress(peer_e_pkc);
+    let peer_e_pk =
+        PublicKey::try_decompress(peer_e_pkc).map_err(InitiatorsError::EphemeralKeyPoint)?;
     let (symmetric_state, peer_s_pkc) = symmetric_state
         .mix_shared_secret(&peer_e_pk.dh(&e_sk))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).map_err(InitiatorsError::StaticKeyPoint)?;
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
@@ -263,7 +271,8 @@ where
         .mix_shared_secret(&s_pk.decapsulate(&s_sk, &peer_s_ct))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(RespondersError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).map_err(RespondersError::StaticKeyPoint)?;
     let (symmetric_state, payload_r) = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
         .decrypt_line(payload_r)
-- 
2.43.0


From 09ab81313c836186c8ccd7a2fc9af58c019cc0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 06/25] fix: session: initiator checks the responder's static
 key against the requested identity

---
 vru-session/src/handshake/xx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index bab7bc3..0e9cdc8 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -31,6 +31,7 @@ pub type Message3<S> = Concat<Ct, EncryptedDefault<S>>;
 
 pub struct InitiatorsEphemeral {
     symmetric_state: SymmetricState<Noise, ChainingKey<Noise>>,
+    peer_s_pi: Identity,
     e_pk: PublicKey,
     e_sk: SecretKey,
 }
@@ -57,6 +58,8 @@ pub enum InitiatorsError {
     EphemeralKeyPoint(InvalidPoint),
     #[error("static key {}", _0)]
     StaticKeyPoint(InvalidPoint),
+    #[error("static key does not match the requested identity")]
+    IdentityMismatch,
 }
 
 #[derive(Debug, Error)]
@@ -90,6 +93,7 @@ pub fn out0(seed: &Array<typenum::U96>, peer_s_pi: &Identity) -> (InitiatorsEphe
     (
         InitiatorsEphemeral {
             symmetric_state,
+            peer_s_pi: peer_s_pi.clone(),
             e_pk,
             e_sk,
         },
@@ -118,6 +122,7 @@ where
     let (Concat(peer_e_ct, payload_p), peer_e_pkc, enc_peer_s_pkc) = message;
     let InitiatorsEphemeral {
         symmetric_state,
+        peer_s_pi,
         e_pk,
         e_sk,
     } = state;
@@ -135,6 +140,9 @@ where
         .map_err(InitiatorsError::StaticKeyMac)?;
     let peer_s_pk =
         PublicKey::try_decompress(peer_s_pkc).map_err(InitiatorsError::StaticKeyPoint)?;
+    if peer_s_pk.identity() != peer_s_pi {
+        return Err(InitiatorsError::IdentityMismatch);
+    }
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
-- 
2.43.0


From 0c5f458cd9f1e9096851f3cd6ae6c22ec18bced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 07/25] fix: noise: a transport message shorter than the tag is
 a mac mismatch, not a panic

---
 vru-noise/src/cipher_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vru-noise/src/cipher_state.rs b/vru-noise/src/cipher_state.rs
index 96862b6..9a59b83 100644
--- a/vru-noise/src/cipher_state.rs
+++ b/vru-noise/src/cipher_state.rs
@@ -183,7 +183,10 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut tag = GenericArray::default();
-        let pos = buffer.len() - <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let pos = buffer
+            .len()
+            .checked_sub(<<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE)
+            .ok_or(MacMismatch)?;
         tag.clone_from_slice(&buffer[pos..]);
         buffer.resize(pos, 0);
         self.decrypt(associated_data, buffer.as_mut(), &tag)
-- 
2.43.0


From 1267747d9c73c246833163754b3934a2983250d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 08/25] fix: rac: parse the scalar of a signature exactly, so
 that it verifies after transmission

---
 rac/src/curve25519_dalek_m.rs | 6 ++++++
 rac/src/elliptic.rs           | 5 +++++
 rac/src/schnorr.rs            | 9 ++++++---
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/rac/src/curve25519_dalek_m.rs b/rac/src/curve25519_dalek_m.rs
index c35cfbb..75a29ef 100644
--- a/rac/src/curve25519_dalek_m.rs
+++ b/rac/src/curve25519_dalek_m.rs
@@ -41,6 +41,12 @@ impl Scalar for C25519Scalar {
     fn inv_ff(&self) -> Result<Self, ()> {
         unimplemented!()
     }
+
+    fn try_clone_exact(a: &Array<Self::Length>) -> Result<Self, ()> {
+        let mut buffer = [0; 32];
+        buffer.clone_from_slice(a.as_slice());
+        C25519Scalar::from_canonical_bytes(buffer).ok_or(())
+    }
 }
 
 impl LineValid for MontgomeryPoint {
diff --git a/rac/src/elliptic.rs b/rac/src/elliptic.rs
index 4d23e80..63236f5 100644
--- a/rac/src/elliptic.rs
+++ b/rac/src/elliptic.rs
@@ -9,6 +9,11 @@ where
     fn sub_ff(&self, rhs: &Self) -> Result<Self, ()>;
     fn mul_ff(&self, rhs: &Self) -> Result<Self, ()>;
     fn inv_ff(&self) -> Result<Self, ()>;
+
+    /// parse exactly the scalar that was serialised, where `try_clone_array` may adjust the bits
+    fn try_clone_exact(a: &Array<Self::Length>) -> Result<Self, ()> {
+        Self::try_clone_array(a)
+    }
 }
 
 pub trait Curve
diff --git a/rac/src/schnorr.rs b/rac/src/schnorr.rs
index 09ae327..c7ee506 100644
--- a/rac/src/schnorr.rs
+++ b/rac/src/schnorr.rs
@@ -45,9 +45,12 @@ where
     type Length = <Concat<Array<C::CoordinateLength>, C::Scalar> as LineValid>::Length;
 
     fn try_clone_array(a: &Array<Self::Length>) -> Result<Self, ()> {
-        Concat::try_clone_array(a).map(|Concat(r, s)| Schnorr {
-            r: r,
-            s: s,
+        use generic_array::typenum::Unsigned;
+
+        let m = <C::CoordinateLength as Unsigned>::USIZE;
+        Ok(Schnorr {
+            r: GenericArray::from_slice(&a[..m]).clone(),
+            s: C::Scalar::try_clone_exact(GenericArray::from_slice(&a[m..]))?,
             phantom_data: PhantomData,
         })
     }
-- 
2.43.0


From 2d37c840895b014030baa869450c82ea0c277577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 09/25] fix: udp: a command for a peer neither stops its worker
 nor panics the caller

---
 vru-udp/src/local.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 55c656a..577ceef 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -65,7 +65,10 @@ pub struct PeerHandle {
 
 impl PeerHandle {
     pub fn send(&self, command: LocalCommand) {
-        self.sender.send(PeerMessage::Command(command)).unwrap()
+        // the worker may be already stopped along with the node
+        if self.sender.send(PeerMessage::Command(command)).is_err() {
+            log::warn!("failed to send command, the peer is stopped");
+        }
     }
 }
 
@@ -82,10 +85,16 @@ impl PeerState {
     fn run(self) {
         // TODO:
         let _ = (&self.sk, &self.pk, &self.handshake_state);
-        while let Ok(PeerMessage::Network { address, datagram }) = self.receiver.recv() {
-            let _ = datagram;
-            self.event_sender
-                .report(Event::Info(format!("process connection with: {}", address)));
+        while let Ok(message) = self.receiver.recv() {
+            match message {
+                PeerMessage::Network { address, datagram } => {
+                    let _ = datagram;
+                    self.event_sender
+                        .report(Event::Info(format!("process connection with: {}", address)));
+                },
+                // TODO:
+                PeerMessage::Command(_) => (),
+            }
         }
     }
 }
-- 
2.43.0


From 81fa2bbbb610db067b5534fdfcdbacac53c77fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 10/25] fix: udp: stop the workers before joining them

---
 vru-udp/src/local.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 577ceef..59d9a99 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -11,6 +11,7 @@ enum PeerMessage {
         datagram: Datagram,
     },
     Command(LocalCommand),
+    Shutdown,
 }
 
 pub struct Peer {
@@ -26,6 +27,8 @@ impl Peer {
     }
 
     pub fn join(self) {
+        // peer handle keeps the channel open, so tell the worker explicitly
+        let _ = self.sender.send(PeerMessage::Shutdown);
         self.worker_thread.join().unwrap();
     }
 
@@ -94,6 +97,7 @@ impl PeerState {
                 },
                 // TODO:
                 PeerMessage::Command(_) => (),
+                PeerMessage::Shutdown => break,
             }
         }
     }
-- 
2.43.0


From c579093c8d2a585c70aec169148f4dbf339907f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 11/25] fix: udp: report datagrams longer than the frame
 instead of processing them truncated

---
 vru-udp/src/global.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 87e3f60..f48ff3c 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -154,12 +154,15 @@ impl NodeState {
                 }
             }
             let mut datagram = Datagram::default();
-            match self.socket.recv_from(datagram.as_mut()) {
+            // one byte more, to tell a longer datagram from a truncated one
+            let mut buffer = [0; Datagram::SIZE + 1];
+            match self.socket.recv_from(buffer.as_mut()) {
                 Ok((length, address)) => {
                     if length != Datagram::SIZE {
                         self.sender
                             .report(Event::Error(Error::FrameSize(address, length)));
                     } else {
+                        datagram.as_mut().clone_from_slice(&buffer[..length]);
                         self.process(address, datagram);
                     }
                 },
-- 
2.43.0


From ec272a9e14f888d09438edfc93a50dba897ac0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 12/25] fix: tcp: report a failed connect as an event instead
 of panicking

---
 vru-tcp/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 4e6346e..2bdcebc 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -107,7 +107,9 @@ where
     fn command(&self, command: Command<Self::Address>) {
         match command {
             Command::Connect { peer_pi, address } => {
-                let stream = TcpStream::connect(address).unwrap();
+                if let Err(error) = TcpStream::connect(address) {
+                    let _ = self.sender.send(Event::Error(NodeError::Io(error)));
+                }
             },
             _ => (),
         }
-- 
2.43.0


From 0fe1ef7600789408e4548bfdbac5aaa06bbec7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 13/25] fix: node: make the generated key durable before using
 it

---
 vru-node/src/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 5f768c7..3bd1679 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -27,6 +27,7 @@ impl Database {
         } else {
             randomize(&mut s);
             self.db.insert(b"key_seed", s.as_ref())?;
+            self.db.flush()?;
         }
         Ok(PublicKey::gen(&s))
     }
-- 
2.43.0


From 621d978b80e9d4304d433926025c100173ab60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 14/25] fix: node: register the control socket for polling
 once, not on every command

---
 vru-node/src/listener_unix.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index f64e4d1..45db38c 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -33,10 +33,13 @@ impl CommandListener {
         P: AsRef<Path>,
     {
         let _ = fs::remove_file(&path);
+        let listener = UnixListener::bind(path)?;
+        let mut sources = Sources::with_capacity(1);
+        sources.register((), &listener, interest::READ);
         Ok(CommandListener {
             running,
-            listener: UnixListener::bind(path)?,
-            sources: Sources::with_capacity(1),
+            listener,
+            sources,
             events: Events::with_capacity(1),
         })
     }
@@ -59,9 +62,6 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.inner
-            .sources
-            .register((), &self.inner.listener, interest::READ);
         loop {
             match self
                 .inner
-- 
2.43.0


From 33603c2c54ef63b1ac0c0b04233376ac96a9e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 15/25] fix: node: neither a stalled nor a busy control socket
 prevents the node from stopping

---
 vru-node/src/listener_unix.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 45db38c..9637626 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -62,6 +62,9 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if !self.inner.running.load(Ordering::Acquire) {
+            return None;
+        }
         loop {
             match self
                 .inner
@@ -81,7 +84,13 @@ where
             }
         }
         match self.inner.listener.accept() {
-            Ok((stream, _)) => Some(bincode::deserialize_from(stream)),
+            Ok((stream, _)) => {
+                // a stalled client must not block other commands and the shutdown
+                if let Err(error) = stream.set_read_timeout(Some(Duration::from_secs(2))) {
+                    return Some(Err(error.into()));
+                }
+                Some(bincode::deserialize_from(stream))
+            },
             Err(error) => {
                 if error.kind() == io::ErrorKind::Interrupted {
                     None
-- 
2.43.0


From 709ddf1f706d82ceba8c71deaa9d87d1d90b950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 16/25] fix: noise: mix the psk-derived hash input in its full
 length

---
 vru-noise/src/hash.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/vru-noise/src/hash.rs b/vru-noise/src/hash.rs
index 5d5683c..3006cbd 100644
--- a/vru-noise/src/hash.rs
+++ b/vru-noise/src/hash.rs
@@ -119,7 +119,7 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     );
 }
@@ -170,15 +170,11 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     ) {
         let keys = Self::hkdf_split(Some(chaining_key), data);
         let [chaining_key, middle, key]: [_; 3] = keys.into();
-        (
-            chaining_key,
-            truncate::<A>(middle.as_ref()),
-            truncate::<A>(key.as_ref()),
-        )
+        (chaining_key, middle, truncate::<A>(key.as_ref()))
     }
 }
-- 
2.43.0


From 85be2e75a707845783a79b98f544ca2db123ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:12 +0000
Subject: [PATCH 17/25] fix: rac: subtract secp256k1 scalars, so that signing
 on this curve does not panic

---
 rac/src/secp256k1_m.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rac/src/secp256k1_m.rs b/rac/src/secp256k1_m.rs
index ccb7db7..cf025b2 100644
--- a/rac/src/secp256k1_m.rs
+++ b/rac/src/secp256k1_m.rs
@@ -25,8 +25,9 @@ impl Scalar for SecretKey {
     }
 
     fn sub_ff(&self, rhs: &Self) -> Result<Self, ()> {
-        let _ = rhs;
-        unimplemented!()
+        let mut c = rhs.clone();
+        c.negate_assign();
+        self.add_ff(&c)
     }
 
     fn mul_ff(&self, rhs: &Self) -> Result<Self, ()> {
-- 
2.43.0


From eed8c9235c8b66a7d6da5243c56de2740d800a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:14 +0000
Subject: [PATCH 18/25] fix: rac: verifying a signature whose commitment is the
 neutral element is an error, not a panic

---
 rac/src/elliptic.rs    | 6 ++++++
 rac/src/schnorr.rs     | 2 +-
 rac/src/secp256k1_m.rs | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/rac/src/elliptic.rs b/rac/src/elliptic.rs
index 63236f5..3e8c7d0 100644
--- a/rac/src/elliptic.rs
+++ b/rac/src/elliptic.rs
@@ -28,6 +28,12 @@ where
 
     fn base() -> Self;
     fn mul_ec(&self, rhs: &Self) -> Self;
+
+    /// the sum, or an error where the type cannot represent it, while `mul_ec` may panic
+    fn try_mul_ec(&self, rhs: &Self) -> Result<Self, ()> {
+        Ok(self.mul_ec(rhs))
+    }
+
     fn exp_ec(&self, rhs: &Self::Scalar) -> Self;
     fn decompress(packed: &Array<Self::CompressedLength>) -> Result<Self, ()>;
     fn compress(&self) -> Array<Self::CompressedLength>;
diff --git a/rac/src/schnorr.rs b/rac/src/schnorr.rs
index c7ee506..89f2fe5 100644
--- a/rac/src/schnorr.rs
+++ b/rac/src/schnorr.rs
@@ -109,7 +109,7 @@ where
             .chain(message)
             .finalize_fixed();
         let h = LineValid::try_clone_array(&h)?;
-        let qk = y.exp_ec(&h).mul_ec(&C::base().exp_ec(&s));
+        let qk = y.exp_ec(&h).try_mul_ec(&C::base().exp_ec(&s))?;
         if qk.x_coordinate().eq(r) {
             Ok(())
         } else {
diff --git a/rac/src/secp256k1_m.rs b/rac/src/secp256k1_m.rs
index cf025b2..eabff50 100644
--- a/rac/src/secp256k1_m.rs
+++ b/rac/src/secp256k1_m.rs
@@ -86,6 +86,10 @@ impl Curve for PublicKey {
         self.combine(rhs).unwrap()
     }
 
+    fn try_mul_ec(&self, rhs: &Self) -> Result<Self, ()> {
+        self.combine(rhs).map_err(|_| ())
+    }
+
     fn exp_ec(&self, rhs: &Self::Scalar) -> Self {
         use secp256k1::Secp256k1;
 
-- 
2.43.0


From dc8ca3b0fc8b5c976fc21c238777e9c8b2e35a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 19/25] fix: tcp: an incoming connection is an error event, not
 a panic of the node

---
 vru-tcp/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 2bdcebc..ad76402 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -167,14 +167,16 @@ where
                     1 => match self.listener.accept() {
                         Ok((stream, address)) => {
                             let processor = self.processor_factory.spawn_processor(None);
-                            let peer = Peer::spawn(
+                            match Peer::spawn(
                                 self.sk.clone(),
                                 self.pk.clone(),
                                 stream,
                                 processor,
                                 running.clone(),
-                            );
-                            self.incoming.send((address, peer)).unwrap();
+                            ) {
+                                Ok(peer) => self.incoming.send((address, peer)).unwrap(),
+                                Err(error) => self.report(Event::Error(NodeError::Io(error))),
+                            }
                         },
                         Err(error) => self.report(Event::Error(NodeError::Io(error))),
                     },
@@ -212,8 +214,9 @@ where
         stream: TcpStream,
         processor: P,
         running: Arc<AtomicBool>,
-    ) -> Self {
-        unimplemented!()
+    ) -> io::Result<Self> {
+        // TODO:
+        Err(io::Error::new(io::ErrorKind::Other, "peer is not implemented"))
     }
 
     fn join(self) {
-- 
2.43.0


From 68937c95edd10563f14517ba86e2c85390b0af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 20/25] fix: node: bound the whole time of reading a command, a
 client sending byte by byte blocked the node

---
 vru-node/src/listener_unix.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 9637626..0e0c79d 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -1,5 +1,5 @@
 use std::{
-    os::unix::net::UnixListener,
+    os::unix::net::{UnixListener, UnixStream},
     path::Path,
     io, fs,
     sync::{
@@ -7,7 +7,7 @@ use std::{
         atomic::{Ordering, AtomicBool},
     },
     marker::PhantomData,
-    time::Duration,
+    time::{Duration, Instant},
 };
 use serde::de::DeserializeOwned;
 use popol::{Sources, Events, interest};
@@ -27,6 +27,23 @@ where
     phantom_data: PhantomData<T>,
 }
 
+/// reads no longer than until the deadline
+struct Limited {
+    stream: UnixStream,
+    deadline: Instant,
+}
+
+impl io::Read for Limited {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let left = self.deadline.saturating_duration_since(Instant::now());
+        if left == Duration::from_secs(0) {
+            return Err(io::ErrorKind::TimedOut.into());
+        }
+        self.stream.set_read_timeout(Some(left))?;
+        self.stream.read(buf)
+    }
+}
+
 impl CommandListener {
     pub fn bind<P>(path: P, running: Arc<AtomicBool>) -> io::Result<Self>
     where
@@ -85,11 +102,9 @@ where
         }
         match self.inner.listener.accept() {
             Ok((stream, _)) => {
-                // a stalled client must not block other commands and the shutdown
-                if let Err(error) = stream.set_read_timeout(Some(Duration::from_secs(2))) {
-                    return Some(Err(error.into()));
-                }
-                Some(bincode::deserialize_from(stream))
+                // a stalled or slow client must not block other commands and the shutdown
+                let deadline = Instant::now() + Duration::from_secs(2);
+                Some(bincode::deserialize_from(Limited { stream, deadline }))
             },
             Err(error) => {
                 if error.kind() == io::ErrorKind::Interrupted {
-- 
2.43.0


From dcc7cc30c09d3ee0582d4160677da60f1fe852e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 21/25] fix: udp: send the whole first handshake message,
 taking half of it panicked the node

---
 vru-udp/src/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index f48ff3c..b8ced11 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -189,7 +189,7 @@ impl NodeState {
                 rand::Rng::fill(&mut rand::thread_rng(), seed.as_mut());
                 let mut datagram = Datagram::default();
                 let (state, message) = xx::out0(&seed, &peer_pi);
-                datagram.as_mut()[..1120].clone_from_slice(&message.0.clone_line());
+                datagram.as_mut()[..1120].clone_from_slice(&message.clone_line());
                 rand::Rng::fill(&mut rand::thread_rng(), datagram.as_mut()[1120..].as_mut());
                 if let Err(error) = self.socket.send_to(datagram.as_ref(), address) {
                     self.sender
-- 
2.43.0


From d0a9efe4835267105b2fc5126cfa1033b64cc54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 22/25] fix: udp: do not borrow the handles twice, the first
 command for a connected peer panicked the caller

---
 vru-udp/src/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index b8ced11..64b43d9 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -106,14 +106,15 @@ impl Node {
                 destination,
                 command,
             } => {
-                if let Some(handle) = self.handles.borrow().get(&destination) {
+                let mut handles = self.handles.borrow_mut();
+                if let Some(handle) = handles.get(&destination) {
                     handle.send(command);
                 } else {
                     let mut h = self.pending_handles.lock().unwrap();
                     if let Some(handle) = h.remove(&destination) {
                         drop(h);
                         handle.send(command);
-                        self.handles.borrow_mut().insert(destination, handle);
+                        handles.insert(destination, handle);
                     }
                 }
             },
-- 
2.43.0


From 2f41a19bdb74ea4c7ddef90da342bd5b93e32640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 23/25] fix: node: start after a crash in the middle of
 creating the database

---
 vru-node/src/database.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 3bd1679..cf4f381 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -1,4 +1,4 @@
-use std::path::Path;
+use std::{fs, path::Path};
 use sled::Db;
 use rac::{Array, generic_array::typenum};
 use vru_session::handshake::{SecretKey, PublicKey};
@@ -12,6 +12,12 @@ impl Database {
     where
         P: AsRef<Path>,
     {
+        let path = path.as_ref();
+        // sled writes its config before it creates the log, a crash in between leaves
+        // an incomplete config that can never be opened, while there is no data yet
+        if !path.join("db").exists() {
+            let _ = fs::remove_file(path.join("conf"));
+        }
         Ok(Database {
             db: sled::open(path)?,
         })
-- 
2.43.0


From 193d6dcf819c444bcd8778a74a72047933e01d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 24/25] fix: node: start after a crash in the middle of writing
 a snapshot of the database

---
 vru-node/src/database.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index cf4f381..ab389c9 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -18,6 +18,15 @@ impl Database {
         if !path.join("db").exists() {
             let _ = fs::remove_file(path.join("conf"));
         }
+        // a crash while sled writes a snapshot leaves an incomplete one, which sled would
+        // take for a snapshot and fail; the log does not need it
+        for entry in fs::read_dir(path).into_iter().flatten().flatten() {
+            let name = entry.file_name();
+            let name = name.to_string_lossy();
+            if name.starts_with("snap.") && name.ends_with(".generating") {
+                let _ = fs::remove_file(entry.path());
+            }
+        }
         Ok(Database {
             db: sled::open(path)?,
         })
-- 
2.43.0


From 2e74a6973cf6fb40b296b76f21a3435196a16c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 25/25] fix: tcp, udp: a wait interrupted by a signal does not
 end the node

---
 vru-tcp/src/lib.rs    | 6 ++++--
 vru-udp/src/global.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index ad76402..1bf2019 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -148,12 +148,14 @@ where
             loop {
                 match self.poll.poll(&mut events, Some(Duration::from_secs(1))) {
                     Ok(events) => break events,
-                    Err(error) if error.kind() == io::ErrorKind::TimedOut => {
+                    Err(error)
+                        if error.kind() == io::ErrorKind::TimedOut
+                            || error.kind() == io::ErrorKind::Interrupted =>
+                    {
                         if !running.load(Ordering::Acquire) {
                             return;
                         }
                     },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
                     Err(error) => self.report(Event::Error(NodeError::Io(error))),
                 }
             }
diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 64b43d9..5190d08 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -145,12 +145,14 @@ impl NodeState {
             loop {
                 match sources.wait_timeout(&mut events, Duration::from_secs(2)) {
                     Ok(()) => break,
-                    Err(error) if error.kind() == io::ErrorKind::TimedOut => {
+                    Err(error)
+                        if error.kind() == io::ErrorKind::TimedOut
+                            || error.kind() == io::ErrorKind::Interrupted =>
+                    {
                         if !running.load(Ordering::Acquire) {
                             return;
                         }
                     },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
                     Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
                 }
             }
-- 
2.43.0

