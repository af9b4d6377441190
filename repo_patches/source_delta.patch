From 7010c4f586fb219549e802ec34ed990f2bad75cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:36 +0000
Subject: [PATCH 01/22] fix: make aeonflux::user compile

The module used CredentialBlindRequest without importing it and assigned a
Keypair to an Option<Keypair>, so neither aeonflux nor anything which depends
on it could be built.
---
 aeonflux/src/user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4cd8647..eb49790 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -28,6 +28,7 @@ use serde::de::Visitor;
 
 use amacs;
 use credential::Credential;
+use credential::CredentialBlindRequest;
 use credential::CredentialIssuance;
 use credential::CredentialPresentation;
 use credential::CredentialRequest;
@@ -260,7 +261,7 @@ impl User {
         C: CryptoRng + RngCore,
     {
         if self.key.is_none() {
-            self.key = elgamal::Keypair::generate::<C>(&mut csprng);
+            self.key = Some(elgamal::Keypair::generate::<C>(csprng));
         }
 
         unimplemented!();
-- 
2.43.0


From c2ae244422d1e72e397aa95af4eaabff3d6d987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 02/22] fix: reject algebraic MACs whose nonce is the identity

MAC_GGM verification must reject u = 1.  The check compared the nonce against
the basepoint instead, so (identity, identity) verified on every message (and
an honest tag with nonce B was rejected).
---
 aeonflux/src/amacs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dcc65c7..32dc148 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -39,11 +39,11 @@ use core::ops::{Index, Mul};
 
 use clear_on_drop::clear::Clear;
 
-use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
 use curve25519_dalek::scalar::Scalar;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use rand_core::RngCore;
 use rand_core::CryptoRng;
@@ -321,7 +321,9 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
-        if mac.nonce == RISTRETTO_BASEPOINT_POINT {
+        // The nonce must not be the identity, otherwise (0, 0) would be a valid
+        // tag on every message.
+        if mac.nonce == RistrettoPoint::identity() {
             return Err(MacError::AuthenticationError);
         }
         let mut exponent = self.x0;
-- 
2.43.0


From 00497cf3cd43ffb7567c6e1ca557c688c97b60b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 03/22] fix: reject messages of the wrong length when verifying
 a MAC

SecretKey::verify() zipped the key with the message, so that a tag on a message
also verified for any extension of it, and for truncations whose missing
elements are zero.  SecretKey::mac() already enforces this.
---
 aeonflux/src/amacs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index 32dc148..e79a2cc 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -321,6 +321,9 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
+        if self.xn.len() != message.0.len() {
+            return Err(MacError::MessageLengthError{ length: self.xn.len() });
+        }
         // The nonce must not be the identity, otherwise (0, 0) would be a valid
         // tag on every message.
         if mac.nonce == RistrettoPoint::identity() {
-- 
2.43.0


From d6069b6e4dfe4ddf5cfdefa94e9e14f37ff015c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:51 +0000
Subject: [PATCH 04/22] fix: reject presentations whose rerandomised nonce is
 the identity

With P = identity the recomputed MAC no longer depends upon the issuer's secret
key, so a presentation of an arbitrary attribute could be forged without ever
obtaining a credential.
---
 aeonflux/src/issuer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 95b9af9..4fe08e3 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -18,6 +18,7 @@ pub use amacs::SecretKey as IssuerSecretKey;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::traits::Identity;
 
 use merlin::Transcript;
 
@@ -199,6 +200,12 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        // The rerandomised nonce must not be the identity, otherwise the proof
+        // says nothing about the issuer's key, and anybody could create it.
+        if P == RistrettoPoint::identity() {
+            return Err(CredentialError::MacVerification);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From 760d8daffac85cec440d382f799c0e272a3b7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:16 +0000
Subject: [PATCH 05/22] fix: check the number of attributes in a presentation
 before verifying it

The issuer used the same key for a revealed and for a blinded attribute, so a
user could add a revealed attribute of their choice in order to shift their
blinded attribute to another value, and a presentation without blinded
attributes made the issuer panic.
---
 aeonflux/src/issuer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 4fe08e3..ac0de66 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -32,6 +32,8 @@ use credential::Credential;
 use credential::CredentialIssuance;
 use credential::CredentialRequest;
 use credential::CredentialPresentation;
+use credential::PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES;
+use credential::PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES;
 use credential::VerifiedCredential;
 use errors::CredentialError;
 use nonces::Ephemeral;
@@ -198,6 +200,13 @@ impl Issuer {
     pub fn verify(&self, presentation: &CredentialPresentation)
         -> Result<VerifiedCredential, CredentialError>
     {
+        // The proof only covers exactly this arrangement of attributes.
+        if presentation.attributes_revealed.len() != PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES ||
+            presentation.attributes_blinded.len() != PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES
+        {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+
         let P = presentation.rerandomized_nonce;
 
         // The rerandomised nonce must not be the identity, otherwise the proof
-- 
2.43.0


From 218df892b340bd66f92e87ec2bd70608b4f09dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:16 +0000
Subject: [PATCH 06/22] fix: check that an issued credential is on the user's
 own phone number

SignalUser::obtain_finish() stored whichever attribute arrived in the issuance,
which isn't covered by the proof of issuance, so an altered issuance silently
replaced the user's credential by an unusable one, or one for another number.
---
 signal-credential/src/user.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 2093e1e..1627014 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -89,6 +89,13 @@ impl SignalUser {
         issuance: Option<&SignalCredentialIssuance>,
     ) -> Result<(), CredentialError>
     {
+        // The proof of issuance doesn't cover the attributes, so check that the
+        // issuer really issued a credential on our phone number.
+        if let Some(i) = issuance {
+            if i.credential.attributes != [self.phone_number.0] {
+                return Err(CredentialError::BadAttribute);
+            }
+        }
         self.user.obtain_finish(issuance)
     }
 
-- 
2.43.0


From 2068738b2d45fab1fb52af56ffb901690d220dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 07/22] fix: return a NULL pointer from the C API upon failure

As documented in credential.h; the pointer was the (non-NULL) address of an
empty slice.
---
 ffi/src/macros.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ed979e..4473e89 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -22,7 +22,10 @@ macro_rules! slice_to_len_and_ptr {
 #[macro_export]
 macro_rules! zero_len_and_ptr {
     () => {
-        slice_to_len_and_ptr!(&[])
+        buf_t {
+            len: 0,
+            ptr: ptr::null(),
+        }
     }
 }
 
-- 
2.43.0


From 7c2e3ef31a9bcb512ee39f4512ab68f69f7f1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 08/22] fix: don't return pointers to freed memory from the C
 API

Every function returned a pointer into a Vec which was dropped when the
function returned.  Return a copy allocated with malloc() instead, as in
build-test/alloc, which the caller may free().
---
 ffi/src/c.rs                 |  6 ++++++
 ffi/src/include/credential.h |  3 +++
 ffi/src/macros.rs            | 13 ++++++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 2ad78da..fc8b363 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -62,6 +62,12 @@ pub const LENGTH_CREDENTIAL_ISSUANCE: u64 = 328;
 pub const LENGTH_CREDENTIAL_PRESENTATION: u64 = 448;
 pub const LENGTH_VERIFIED_CREDENTIAL: u64 = 448;
 
+// Use the same allocator as the caller does, so that they can `free()` the `ptr`
+// in a `buf_t`.
+extern "C" {
+    fn malloc(size: size_t) -> *mut uint8_t;
+}
+
 #[repr(C)]
 pub struct buf_t {
     pub len: uint64_t,
diff --git a/ffi/src/include/credential.h b/ffi/src/include/credential.h
index fd73cca..c8225f1 100644
--- a/ffi/src/include/credential.h
+++ b/ffi/src/include/credential.h
@@ -21,6 +21,9 @@ const uint LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING = 32;
 
 /**
  * Contains a pointer to some data and a length.
+ *
+ * When returned from one of the following functions, the `ptr` is either `NULL`
+ * or was allocated with `malloc()` and should be given to `free()` by the caller.
  */
 // RUST_C_COUPLED: ffi/src/c.rs buf_t
 typedef struct buf_s {
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 4473e89..6850bca 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -12,9 +12,20 @@ macro_rules! slice_to_len_and_ptr {
     ($x:expr) => {{
         let x: &[u8] = $x;
 
+        // The caller gets a copy which outlives this function, since `x` usually
+        // is a slice of a `Vec` which is about to be dropped.
+        let copy: *mut uint8_t = unsafe { malloc(x.len() as size_t) };
+
+        if copy.is_null() {
+            return zero_len_and_ptr!();
+        }
+        unsafe {
+            ptr::copy_nonoverlapping(x.as_ptr(), copy, x.len());
+        }
+
         buf_t {
             len: x.len() as uint64_t,
-            ptr: x.as_ptr() as *const uint8_t,
+            ptr: copy as *const uint8_t,
         }
     }}
 }
-- 
2.43.0


From d17009ae3c4e39f1f1b614ed38579c5bfb4fc128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 09/22] fix: make credential.h usable in more than one
 translation unit

The constants were external definitions, which clash at link time when two
files include the header, and used the non-standard type uint, which
<stdint.h> doesn't define.
---
 ffi/src/include/credential.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ffi/src/include/credential.h b/ffi/src/include/credential.h
index c8225f1..8f27b8d 100644
--- a/ffi/src/include/credential.h
+++ b/ffi/src/include/credential.h
@@ -7,17 +7,17 @@
 
 #include <stdint.h>
 
-const uint LENGTH_SEED = 32;
-const uint LENGTH_SYSTEM_PARAMETERS = 64;
-const uint LENGTH_ISSUER = 160;
-const uint LENGTH_ISSUER_PARAMETERS = 32;
-const uint LENGTH_ISSUER_KEYPAIR = 96;
-const uint LENGTH_USER = 288;
-const uint LENGTH_CREDENTIAL_ISSUANCE = 328;
-const uint LENGTH_CREDENTIAL_PRESENTATION = 448;
-const uint LENGTH_VERIFIED_CREDENTIAL = 448;
-const uint LENGTH_ROSTER_ENTRY_COMMITMENT = 64;
-const uint LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING = 32;
+static const uint32_t LENGTH_SEED = 32;
+static const uint32_t LENGTH_SYSTEM_PARAMETERS = 64;
+static const uint32_t LENGTH_ISSUER = 160;
+static const uint32_t LENGTH_ISSUER_PARAMETERS = 32;
+static const uint32_t LENGTH_ISSUER_KEYPAIR = 96;
+static const uint32_t LENGTH_USER = 288;
+static const uint32_t LENGTH_CREDENTIAL_ISSUANCE = 328;
+static const uint32_t LENGTH_CREDENTIAL_PRESENTATION = 448;
+static const uint32_t LENGTH_VERIFIED_CREDENTIAL = 448;
+static const uint32_t LENGTH_ROSTER_ENTRY_COMMITMENT = 64;
+static const uint32_t LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING = 32;
 
 /**
  * Contains a pointer to some data and a length.
-- 
2.43.0


From 2b21ad0ec2a9e0a56e245629307236d91a63c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 10/22] fix: return an error for elGamal keys of the wrong
 length, don't panic

---
 aeonflux/src/elgamal.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aeonflux/src/elgamal.rs b/aeonflux/src/elgamal.rs
index d440d2b..68f001c 100644
--- a/aeonflux/src/elgamal.rs
+++ b/aeonflux/src/elgamal.rs
@@ -96,7 +96,9 @@ impl<'a, 'b> Add<&'b Encryption> for &'a Encryption {
 
 impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != 32 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -144,7 +146,9 @@ impl<'a> From<&'a SecretKey> for PublicKey {
 
 impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != 32 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -196,7 +200,9 @@ impl Drop for SecretKey {
 
 impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, CredentialError> {
-        assert!(bytes.len() == 64);
+        if bytes.len() != 64 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let secret = SecretKey::from_bytes(&bytes[00..32])?;
         let public = PublicKey::from_bytes(&bytes[32..64])?;
-- 
2.43.0


From b85d649e37adc9f032af2d8c30b74e919314d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 11/22] fix: return an error for aMAC keys which are too short,
 don't panic

---
 aeonflux/src/amacs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index e79a2cc..556bd40 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -240,8 +240,8 @@ impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, MacError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        // The bytes must be a multiple of 32, and there must be at least x0.
+        if length % 32 != 0 || length < 32 {
             return Err(MacError::MessageLengthError{ length });
         }
         let mut x0: Option<Scalar> = None;
@@ -357,6 +357,10 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
+        if length < 32 {
+            return Err(MacError::KeypairDeserialisation);
+        }
+
         // The public key must always be 32 bytes shorter since the secret key has the extra x0 element.
         let public_key_length: usize = (length - 32) / 2;
         let secret_key_length: usize = length - public_key_length;
-- 
2.43.0


From b31800bacdc87f1ddfb20d482e784c254eef7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 12/22] fix: return an error for commitments of the wrong
 length

Short ones made from_bytes() panic, and trailing bytes were ignored.
---
 aeonflux/src/pedersen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeonflux/src/pedersen.rs b/aeonflux/src/pedersen.rs
index e3c5378..30fc96e 100644
--- a/aeonflux/src/pedersen.rs
+++ b/aeonflux/src/pedersen.rs
@@ -65,6 +65,10 @@ impl SubAssign<Commitment> for RistrettoPoint {
 
 impl Commitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<Commitment, CredentialError> {
+        if bytes.len() != SIZEOF_COMMITMENT {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let mut tmp: [u8; 32] = [0u8; 32];
 
         tmp.copy_from_slice(&bytes[0..32]);
-- 
2.43.0


From 5deaea22c0fb64b3266251e301e20aa2946d1f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 13/22] fix: return an error for issuances and presentations of
 the wrong length

Short ones made from_bytes() panic, and trailing bytes were ignored.
---
 aeonflux/src/credential.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index d249b44..8db7ba0 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -40,6 +40,7 @@ use proofs::issuance_revealed;
 use proofs::valid_credential;
 
 pub const SIZEOF_CREDENTIAL: usize = SIZEOF_TAG + NUMBER_OF_ATTRIBUTES * 32;
+pub const SIZEOF_CREDENTIAL_ISSUANCE: usize = 328;
 pub const SIZEOF_CREDENTIAL_PRESENTATION: usize = 256;
 
 /// The number of revealed attributes on a `Credential` during issuance.
@@ -209,6 +210,10 @@ pub struct CredentialIssuance {
 
 impl CredentialIssuance {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialIssuance, CredentialError> {
+        if bytes.len() != SIZEOF_CREDENTIAL_ISSUANCE {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let secret_key_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
         let credential = Credential::from_bytes(&bytes[32..32+SIZEOF_CREDENTIAL])?;
         
@@ -265,10 +270,7 @@ pub struct CredentialPresentation {
 
 impl CredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialPresentation, CredentialError> {
-        let length: usize = bytes.len();
-
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        if bytes.len() != SIZEOF_CREDENTIAL_PRESENTATION {
             return Err(CredentialError::WrongNumberOfBytes);
         }
 
-- 
2.43.0


From 43867c893ae7a8151ba221c1f910ee60e6b2d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 14/22] fix: don't ignore bytes which trail a
 SignalCredentialPresentation

---
 signal-credential/src/credential.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/credential.rs b/signal-credential/src/credential.rs
index bc403a3..84cea81 100644
--- a/signal-credential/src/credential.rs
+++ b/signal-credential/src/credential.rs
@@ -46,6 +46,10 @@ pub const NUMBER_OF_ATTRIBUTES: usize =
     ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES +
     ISSUANCE_NUMBER_OF_BLINDED_ATTRIBUTES;
 
+/// The length of a serialised `SignalCredentialPresentation`.
+pub const SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION: usize =
+    SIZEOF_COMMITTED_PHONE_NUMBER + SIZEOF_CREDENTIAL_PRESENTATION + 160;
+
 pub type SignalCredentialIssuance = CredentialIssuance;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
@@ -65,9 +69,9 @@ impl SignalCredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalCredentialPresentation, CredentialError> {
         const RE: usize = SIZEOF_COMMITTED_PHONE_NUMBER;
 
-        if bytes.len() < RE + SIZEOF_CREDENTIAL_PRESENTATION {
+        if bytes.len() != SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION {
             #[cfg(feature = "std")]
-            println!("The SignalCredentialPresentation bytes were not long enough, got {} bytes", bytes.len());
+            println!("The SignalCredentialPresentation bytes were not the right length, got {} bytes", bytes.len());
             return Err(CredentialError::MissingData);
         }
 
-- 
2.43.0


From e0ee5e0bd50d0a752347e7f32d8730f20af23354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 15/22] fix: return an error for a SignalUser which is too
 short, don't panic

---
 signal-credential/src/user.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 1627014..e0839b8 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -44,6 +44,10 @@ pub struct SignalUser {
 
 impl SignalUser {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalUser, CredentialError> {
+        if bytes.len() < 32 {
+            return Err(CredentialError::MissingData);
+        }
+
         let phone_number = PhoneNumber::from_bytes(&bytes[00..32])?;
         let user = User::from_bytes(&bytes[32..])?;
 
-- 
2.43.0


From 12d4666ceae06b3acabd8ef4a8dfb90afa642548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 16/22] fix: return an error for a RosterEntryCommitment of the
 wrong length, don't panic

---
 signal-credential/src/phone_number.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 902e55d..ba40610 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -323,6 +323,10 @@ pub struct RosterEntryCommitment {
 
 impl RosterEntryCommitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<RosterEntryCommitment, PhoneNumberError> {
+        if bytes.len() != SIZEOF_COMMITTED_PHONE_NUMBER + 32 {
+            return Err(PhoneNumberError::LengthExceeded);
+        }
+
         let commitment = CommittedPhoneNumber::from_bytes(&bytes[..SIZEOF_COMMITTED_PHONE_NUMBER])?;
 
         let mut tmp = [0u8; 32];
-- 
2.43.0


From 345735a0b6e05cc3b8fefca0eb0ae65de7313b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 17/22] fix: reject non-canonical scalars in phone numbers and
 roster entry openings

Every other type does so.  Scalar::from_bits() neither reduces them nor keeps
the high bit, so several byte strings decoded to equal values.
---
 signal-credential/src/phone_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index ba40610..935d25b 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -74,7 +74,7 @@ impl PhoneNumber {
 
         tmp.copy_from_slice(&bytes[00..32]);
 
-        Ok(PhoneNumber(Scalar::from_bits(tmp)))
+        Ok(PhoneNumber(Scalar::from_canonical_bytes(tmp)?))
     }
 
     pub fn to_bytes(&self) -> Vec<u8> {
@@ -333,7 +333,7 @@ impl RosterEntryCommitment {
 
         tmp.copy_from_slice(&bytes[SIZEOF_COMMITTED_PHONE_NUMBER..]);
 
-        let opening: Ephemeral = Scalar::from_bits(tmp).into();
+        let opening: Ephemeral = Scalar::from_canonical_bytes(tmp)?.into();
 
         Ok(RosterEntryCommitment { commitment, opening })
     }
-- 
2.43.0


From d230a4e4a406dabbbcae092b1d07aea65263cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 18/22] fix: reject phone numbers which don't fit into a scalar

Those of 28 to 32 digits were accepted by the length check but made the encoding
index out of bounds, and those of 27 digits were reduced modulo the group order,
after which the number couldn't be recovered.
---
 signal-credential/src/errors.rs       | 2 +-
 signal-credential/src/phone_number.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/signal-credential/src/errors.rs b/signal-credential/src/errors.rs
index 67aae14..c309bd7 100644
--- a/signal-credential/src/errors.rs
+++ b/signal-credential/src/errors.rs
@@ -31,7 +31,7 @@ impl fmt::Display for PhoneNumberError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match *self {
             PhoneNumberError::LengthExceeded
-                => write!(f, "A canonicalised phone number cannot be more than 32 bytes"),
+                => write!(f, "A canonicalised phone number cannot be more than 26 digits"),
             PhoneNumberError::InvalidPhoneNumber
                 => write!(f, "The user's proof of roster membership could not be verified"),
         }
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 935d25b..d50993e 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -40,6 +40,9 @@ use rand_core::CryptoRng;
 use errors::PhoneNumberError;
 
 pub const SIZEOF_PHONE_NUMBER: usize = 32;
+/// The most digits which fit into a `PhoneNumber`, since we add five more bytes
+/// and only scalars shorter than 32 bytes are never reduced modulo the group order.
+pub const MAX_PHONE_NUMBER_LENGTH: usize = SIZEOF_PHONE_NUMBER - 5 - 1;
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
@@ -135,7 +138,7 @@ impl PhoneNumber {
         let bytes: &[u8] = source.as_bytes();
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -175,7 +178,7 @@ impl PhoneNumber {
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, PhoneNumberError> {
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
-- 
2.43.0


From be2d09e42d01f0296bd6268a160b2da1919eb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:58 +0000
Subject: [PATCH 19/22] fix: don't trust the length in a PhoneNumber when
 converting it to a String

A PhoneNumber whose last byte isn't the one try_from_bytes() writes, such as one
deserialised from foreign bytes, made the conversion index out of bounds, and
the empty number was converted to thirteen zeroes.
---
 signal-credential/src/phone_number.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index d50993e..bb683d8 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -207,12 +207,13 @@ impl From<PhoneNumber> for String {
     fn from(source: PhoneNumber) -> String {
         let mut length: usize = 0;
 
-        // Work backwards to find the length:
+        // Work backwards to find the length, which is in the byte with the index
+        // `length + 4`, as long as there are any digits:
         for i in (0..32).rev() {
             if source.0[i] == 0 {
                 continue;
             } else {
-                length = source[i] as usize;
+                length = i.saturating_sub(4);
                 break;
             }
         }
-- 
2.43.0


From d95aa00d722a116c836f9bd4fe40ee32e7d1d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:16 +0000
Subject: [PATCH 20/22] fix: deserialise every type from formats without bytes,
 such as JSON

The wasm API passes everything through JsValue::from_serde()/into_serde(), i.e.
through JSON, where bytes are serialised as a sequence of numbers, which none of
our visitors accepted.
---
 aeonflux/src/macros.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/aeonflux/src/macros.rs b/aeonflux/src/macros.rs
index a5f42e2..f3db3aa 100644
--- a/aeonflux/src/macros.rs
+++ b/aeonflux/src/macros.rs
@@ -43,6 +43,19 @@ macro_rules! impl_serde_with_to_bytes_and_from_bytes {
                             },
                         }
                     }
+
+                    // Formats without a type for bytes, such as JSON, serialise
+                    // them as a sequence.
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$t, A::Error>
+                        where A: serde::de::SeqAccess<'de>
+                    {
+                        let mut v = Vec::new();
+
+                        while let Some(byte) = seq.next_element::<u8>()? {
+                            v.push(byte);
+                        }
+                        self.visit_bytes(&v)
+                    }
                 }
                 deserializer.deserialize_bytes(AeonfluxVisitor)
             }
-- 
2.43.0


From 096c010d35317a59b8024501b9a8a8d3fdae0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:16 +0000
Subject: [PATCH 21/22] fix: never choose the identity as the second generator

SystemParameters::hunt_and_peck() skips the first generator, but took the
identity if the RNG returned zeroes, with which commitments aren't hiding.
---
 aeonflux/src/parameters.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/parameters.rs b/aeonflux/src/parameters.rs
index 4fbe670..b87778a 100644
--- a/aeonflux/src/parameters.rs
+++ b/aeonflux/src/parameters.rs
@@ -111,8 +111,9 @@ impl SystemParameters {
         while H.is_none() {
             csprng.fill_bytes(&mut tmp);
 
-            // Extremely unlikely but we may as well be careful.
-            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED {
+            // Extremely unlikely but we may as well be careful.  (All zeroes is
+            // the identity, which isn't a generator.)
+            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED && tmp != [0u8; 32] {
                 H = CompressedRistretto(tmp).decompress();
             }
         }
-- 
2.43.0


From e5897ce9c04321ac01a92a9e7b54e1dd7f06a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:17 +0000
Subject: [PATCH 22/22] fix: reject keys for other than one attribute in the C
 API

---
 ffi/src/c.rs      |  7 +++++++
 ffi/src/macros.rs | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index fc8b363..cb4813c 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -111,6 +111,7 @@ pub extern "C" fn issuer_new(
 ) -> buf_t
 {
     let system_params = deserialize_or_return!(SystemParameters, system_parameters_length, system_parameters);
+    expect_length_or_return!(keypair_length, LENGTH_ISSUER_KEYPAIR);
     let keys = deserialize_or_return!(AmacsKeypair, keypair_length, keypair);
     let issuer: SignalIssuer = SignalIssuer::new(system_params, keys);
     let serialized: Vec<u8> = serialize_or_return!(&issuer);
@@ -124,6 +125,7 @@ pub extern "C" fn issuer_get_issuer_parameters(
     issuer_length: uint64_t,
 ) -> buf_t
 {
+    expect_length_or_return!(issuer_length, LENGTH_ISSUER);
     let deserialized = deserialize_or_return!(SignalIssuer, issuer_length, issuer);
     let issuer_parameters: IssuerParameters = deserialized.get_issuer_parameters();
     let serialized: Vec<u8> = serialize_or_return!(&issuer_parameters);
@@ -140,6 +142,7 @@ pub extern "C" fn issuer_issue(
     seed: *const uint8_t, // must be 32 bytes exactly
 ) -> buf_t
 {
+    expect_length_or_return!(issuer_length, LENGTH_ISSUER);
     let issuer = deserialize_or_return!(SignalIssuer, issuer_length, issuer);
     let mut csprng: SignalRng = csprng_from_seed!(seed);
     let user_number: &[u8] = len_and_ptr_to_slice!(phone_number_length, phone_number);
@@ -157,6 +160,7 @@ pub extern "C" fn issuer_verify(
     presentation_length: uint64_t,
 ) -> buf_t
 {
+    expect_length_or_return!(issuer_length, LENGTH_ISSUER);
     let issuer_deserialized = deserialize_or_return!(SignalIssuer, issuer_length, issuer);
     let presentation_deserialized = deserialize_or_return!(SignalCredentialPresentation,
                                                            presentation_length,
@@ -175,6 +179,7 @@ pub extern "C" fn issuer_verify_roster_membership(
     verified_credential_length: uint64_t,
 ) -> buf_t
 {
+    expect_length_or_return!(issuer_length, LENGTH_ISSUER);
     let issuer_deserialized = deserialize_or_return!(SignalIssuer, issuer_length, issuer);
     let verified = deserialize_or_return!(VerifiedSignalCredential,
                                           verified_credential_length,
@@ -198,6 +203,7 @@ pub extern "C" fn user_obtain_finish(
 ) -> buf_t
 {
     let system_params = deserialize_or_return!(SystemParameters, system_parameters_length, system_parameters);
+    expect_length_or_return!(issuer_parameters_length, LENGTH_ISSUER_PARAMETERS);
     let issuer_params = deserialize_or_return!(IssuerParameters, issuer_parameters_length, issuer_parameters);
     let issuance_deserialized = deserialize_or_return!(SignalCredentialIssuance, issuance_length, issuance);
     let phone_number_bytes: &[u8] = len_and_ptr_to_slice!(phone_number_length, phone_number);
@@ -223,6 +229,7 @@ pub extern "C" fn user_show(
 ) -> buf_t
 {
     let mut csprng: SignalRng = csprng_from_seed!(seed);
+    expect_length_or_return!(user_length, LENGTH_USER);
     let user_deserialized = deserialize_or_return!(SignalUser, user_length, user);
     let entry = deserialize_or_return!(RosterEntryCommitment,
                                        roster_entry_commitment_length,
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 6850bca..5d661e0 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -51,6 +51,17 @@ macro_rules! len_and_ptr_to_slice {
     }}
 }
 
+// Key material can be serialised for any number of attributes, but the credentials
+// have exactly one, and so all of its lengths are fixed.
+#[macro_export]
+macro_rules! expect_length_or_return {
+    ($len:expr, $expected:expr) => {
+        if $len != $expected {
+            return zero_len_and_ptr!();
+        }
+    }
+}
+
 #[macro_export]
 macro_rules! ok_or_return {
     ($expr:expr) => {
-- 
2.43.0

