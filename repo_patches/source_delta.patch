From 369866f21d8091346c76ab563fc5c3d0769471f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:09 +0000
Subject: [PATCH 01/11] fix: make aeonflux::user compile (import
 CredentialBlindRequest, wrap the generated key in Some)

---
 aeonflux/src/user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4cd8647..eb49790 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -28,6 +28,7 @@ use serde::de::Visitor;
 
 use amacs;
 use credential::Credential;
+use credential::CredentialBlindRequest;
 use credential::CredentialIssuance;
 use credential::CredentialPresentation;
 use credential::CredentialRequest;
@@ -260,7 +261,7 @@ impl User {
         C: CryptoRng + RngCore,
     {
         if self.key.is_none() {
-            self.key = elgamal::Keypair::generate::<C>(&mut csprng);
+            self.key = Some(elgamal::Keypair::generate::<C>(csprng));
         }
 
         unimplemented!();
-- 
2.43.0


From 06de94a9fcf3847a65d527f510fa80d756298acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:15 +0000
Subject: [PATCH 02/11] fix: amacs::SecretKey::verify rejects the identity
 nonce and messages of the wrong length

---
 aeonflux/src/amacs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dcc65c7..ab15648 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -39,11 +39,11 @@ use core::ops::{Index, Mul};
 
 use clear_on_drop::clear::Clear;
 
-use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
 use curve25519_dalek::scalar::Scalar;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use rand_core::RngCore;
 use rand_core::CryptoRng;
@@ -321,7 +321,11 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
-        if mac.nonce == RISTRETTO_BASEPOINT_POINT {
+        if self.xn.len() != message.0.len() {
+            return Err(MacError::MessageLengthError{ length: self.xn.len() });
+        }
+        // A tag on the identity authenticates every message under every key.
+        if mac.nonce == RistrettoPoint::identity() {
             return Err(MacError::AuthenticationError);
         }
         let mut exponent = self.x0;
-- 
2.43.0


From 0bd410d57a0905c43d1e874ee3f27cf16c5f4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:55 +0000
Subject: [PATCH 03/11] fix: Issuer::verify rejects the identity nonce and the
 wrong number of attributes

A presentation on the identity nonce does not depend on the issuer's secret
key, so it could be made by anyone.
---
 aeonflux/src/issuer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 95b9af9..00a6933 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -18,6 +18,7 @@ pub use amacs::SecretKey as IssuerSecretKey;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::traits::Identity;
 
 use merlin::Transcript;
 
@@ -32,8 +33,11 @@ use credential::CredentialIssuance;
 use credential::CredentialRequest;
 use credential::CredentialPresentation;
 use credential::VerifiedCredential;
+use credential::PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES;
+use credential::PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES;
 use errors::CredentialError;
 use nonces::Ephemeral;
+use parameters::NUMBER_OF_ATTRIBUTES;
 use parameters::SystemParameters;
 use pedersen::{self};
 use proofs::issuance_revealed;
@@ -199,6 +203,22 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        // Without these the MAC equation below would not involve our secret
+        // key at all, or would involve the same part of it more than once.
+        if presentation.attributes_revealed.len() != PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES ||
+            presentation.attributes_blinded.len() != PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+        if P == RistrettoPoint::identity() {
+            return Err(CredentialError::MacVerification);
+        }
+        if self.keypair.public.Xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+        if self.keypair.secret.xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerKey);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From 95e3e4fb094e2d0d66e1c01721796e95342121d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 04/11] fix: User::obtain_finish rejects a MAC on the identity
 and issuer parameters or attributes of the wrong length

---
 aeonflux/src/user.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index eb49790..e844cf7 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -38,6 +38,7 @@ use errors::CredentialError;
 use issuer::IssuerParameters;
 use nonces::Ephemeral;
 use nonces::Nonces;
+use parameters::NUMBER_OF_ATTRIBUTES;
 use parameters::SystemParameters;
 use pedersen;
 use proofs::issuance_revealed;
@@ -149,10 +150,17 @@ impl User {
             Some(i) => i,
             None    => return Err(CredentialError::CredentialIssuance),
         };
-        let X1: RistrettoPoint = match self.issuer_parameters.Xn.get(0) {
-            None => return Err(CredentialError::NoIssuerParameters),
-            Some(x) => *x,
-        };
+        if self.issuer_parameters.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+        if issue.credential.attributes.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+        // A MAC on the identity is "valid" for every key and every attribute.
+        if issue.credential.mac.nonce == RistrettoPoint::identity() {
+            return Err(CredentialError::CredentialIssuance);
+        }
+        let X1: RistrettoPoint = self.issuer_parameters.Xn[0];
 
         let publics = issuance_revealed::Publics {
             P: &issue.credential.mac.nonce,
-- 
2.43.0


From d085f3e3a2650d6eed520ab611e11cc4c84d3642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 05/11] fix: SignalUser::obtain_finish only accepts a
 credential for the user's own phone number

---
 signal-credential/src/user.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 2093e1e..3408876 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -89,6 +89,12 @@ impl SignalUser {
         issuance: Option<&SignalCredentialIssuance>,
     ) -> Result<(), CredentialError>
     {
+        // The issuer must have issued the credential on our phone number.
+        if let Some(issue) = issuance {
+            if issue.credential.attributes != [self.phone_number.0] {
+                return Err(CredentialError::BadAttribute);
+            }
+        }
         self.user.obtain_finish(issuance)
     }
 
-- 
2.43.0


From d4effaa7d06db05c0c6ceb044133a9bb302c7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 06/11] fix: ffi functions give ownership of the returned
 buffer to the caller

Every function returned a pointer into a Vec which was dropped on return, and a
dangling pointer on failure where the header promises NULL.
---
 ffi/src/c.rs                 | 16 ++++++++++++++++
 ffi/src/include/credential.h | 12 ++++++++++++
 ffi/src/macros.rs            |  7 +++++--
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 2ad78da..32d4d4d 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -9,9 +9,13 @@
 
 //! C-like language FFI API.
 
+#[cfg(all(not(feature = "std"), feature = "alloc"))]
+use alloc::boxed::Box;
 #[cfg(all(not(feature = "std"), feature = "alloc"))]
 use alloc::vec::Vec;
 #[cfg(all(not(feature = "alloc"), feature = "std"))]
+use std::boxed::Box;
+#[cfg(all(not(feature = "alloc"), feature = "std"))]
 use std::vec::Vec;
 
 cfg_if! {
@@ -68,6 +72,18 @@ pub struct buf_t {
     pub ptr: *const uint8_t,
 }
 
+/// Free a buffer which was returned by any of the functions below.
+#[no_mangle]
+pub extern "C" fn buf_free(buf: buf_t) {
+    if !buf.ptr.is_null() {
+        unsafe {
+            let x: &mut [u8] = slice::from_raw_parts_mut(buf.ptr as *mut u8, buf.len as size_t);
+
+            drop(Box::from_raw(x as *mut [u8]));
+        }
+    }
+}
+
 #[no_mangle]
 pub extern "C" fn system_parameters_create(
     seed: *const uint8_t,  // should be 32 bytes exactly
diff --git a/ffi/src/include/credential.h b/ffi/src/include/credential.h
index fd73cca..85ca04d 100644
--- a/ffi/src/include/credential.h
+++ b/ffi/src/include/credential.h
@@ -28,6 +28,18 @@ typedef struct buf_s {
   const uint8_t* ptr; /**< The `ptr` to some `uint8_t`s. */
 } buf_t;
 
+/**
+ * Free a `buf_t` returned by any of the functions below, each of which gives
+ * ownership of the data it returns to its caller.
+ *
+ * **Inputs**
+ *
+ * - `buf` is a `buf_t` which was returned by one of the functions below, exactly
+ *   as it was returned.  It must not be used again afterwards.  Those with a
+ *   NULL pointer may be given to this function, but do not need to be.
+ */
+void buf_free(buf_t buf);
+
 /**
  * Create some globally-agreed upon `SystemParameters` by seeding a CSPRNG.
  *
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ed979e..d7f31c9 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -11,10 +11,13 @@
 macro_rules! slice_to_len_and_ptr {
     ($x:expr) => {{
         let x: &[u8] = $x;
+        // The buffer must outlive the function which returns it, so ownership
+        // of it goes to the caller, who gives it back with `buf_free()`.
+        let x: Box<[u8]> = x.to_vec().into_boxed_slice();
 
         buf_t {
             len: x.len() as uint64_t,
-            ptr: x.as_ptr() as *const uint8_t,
+            ptr: Box::into_raw(x) as *const uint8_t,
         }
     }}
 }
@@ -22,7 +25,7 @@ macro_rules! slice_to_len_and_ptr {
 #[macro_export]
 macro_rules! zero_len_and_ptr {
     () => {
-        slice_to_len_and_ptr!(&[])
+        buf_t { len: 0, ptr: ptr::null() }
     }
 }
 
-- 
2.43.0


From f68e2571423a7473cf14df375e87de025f022e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:43 +0000
Subject: [PATCH 07/11] fix: decoders return an error for input of the wrong
 length

They panicked on short input, or ignored trailing bytes.
---
 aeonflux/src/amacs.rs                 |  7 +++++--
 aeonflux/src/credential.rs            |  9 +++++----
 aeonflux/src/elgamal.rs               | 12 +++++++++---
 aeonflux/src/pedersen.rs              |  3 +++
 signal-credential/src/credential.rs   |  7 +++++--
 signal-credential/src/phone_number.rs |  3 +++
 signal-credential/src/user.rs         |  4 ++++
 7 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index ab15648..865b6cc 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -240,8 +240,8 @@ impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, MacError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        // The bytes must be a multiple of 32, and there must be an x0.
+        if length % 32 != 0 || length == 0 {
             return Err(MacError::MessageLengthError{ length });
         }
         let mut x0: Option<Scalar> = None;
@@ -356,6 +356,9 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
+        if length < 32 {
+            return Err(MacError::KeypairDeserialisation);
+        }
         // The public key must always be 32 bytes shorter since the secret key has the extra x0 element.
         let public_key_length: usize = (length - 32) / 2;
         let secret_key_length: usize = length - public_key_length;
diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index d249b44..ebf0f97 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -40,6 +40,7 @@ use proofs::issuance_revealed;
 use proofs::valid_credential;
 
 pub const SIZEOF_CREDENTIAL: usize = SIZEOF_TAG + NUMBER_OF_ATTRIBUTES * 32;
+pub const SIZEOF_CREDENTIAL_ISSUANCE: usize = 328;
 pub const SIZEOF_CREDENTIAL_PRESENTATION: usize = 256;
 
 /// The number of revealed attributes on a `Credential` during issuance.
@@ -209,6 +210,9 @@ pub struct CredentialIssuance {
 
 impl CredentialIssuance {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialIssuance, CredentialError> {
+        if bytes.len() != SIZEOF_CREDENTIAL_ISSUANCE {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
         let secret_key_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
         let credential = Credential::from_bytes(&bytes[32..32+SIZEOF_CREDENTIAL])?;
         
@@ -265,10 +269,7 @@ pub struct CredentialPresentation {
 
 impl CredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialPresentation, CredentialError> {
-        let length: usize = bytes.len();
-
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        if bytes.len() != SIZEOF_CREDENTIAL_PRESENTATION {
             return Err(CredentialError::WrongNumberOfBytes);
         }
 
diff --git a/aeonflux/src/elgamal.rs b/aeonflux/src/elgamal.rs
index d440d2b..29929e5 100644
--- a/aeonflux/src/elgamal.rs
+++ b/aeonflux/src/elgamal.rs
@@ -96,7 +96,9 @@ impl<'a, 'b> Add<&'b Encryption> for &'a Encryption {
 
 impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != SIZEOF_PUBLIC_KEY {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -144,7 +146,9 @@ impl<'a> From<&'a SecretKey> for PublicKey {
 
 impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != SIZEOF_SECRET_KEY {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -196,7 +200,9 @@ impl Drop for SecretKey {
 
 impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, CredentialError> {
-        assert!(bytes.len() == 64);
+        if bytes.len() != SIZEOF_KEYPAIR {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let secret = SecretKey::from_bytes(&bytes[00..32])?;
         let public = PublicKey::from_bytes(&bytes[32..64])?;
diff --git a/aeonflux/src/pedersen.rs b/aeonflux/src/pedersen.rs
index e3c5378..7595307 100644
--- a/aeonflux/src/pedersen.rs
+++ b/aeonflux/src/pedersen.rs
@@ -65,6 +65,9 @@ impl SubAssign<Commitment> for RistrettoPoint {
 
 impl Commitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<Commitment, CredentialError> {
+        if bytes.len() != SIZEOF_COMMITMENT {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
         let mut tmp: [u8; 32] = [0u8; 32];
 
         tmp.copy_from_slice(&bytes[0..32]);
diff --git a/signal-credential/src/credential.rs b/signal-credential/src/credential.rs
index bc403a3..a4f0a44 100644
--- a/signal-credential/src/credential.rs
+++ b/signal-credential/src/credential.rs
@@ -29,6 +29,9 @@ use serde::de::Visitor;
 use phone_number::SIZEOF_COMMITTED_PHONE_NUMBER;
 use phone_number::CommittedPhoneNumber;
 
+/// The number of bytes in a `SignalCredentialPresentation`.
+pub const SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION: usize = 448;
+
 /// The number of revealed attributes on a `SignalCredential` during issuance.
 pub const ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES: usize = 1;
 
@@ -65,9 +68,9 @@ impl SignalCredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalCredentialPresentation, CredentialError> {
         const RE: usize = SIZEOF_COMMITTED_PHONE_NUMBER;
 
-        if bytes.len() < RE + SIZEOF_CREDENTIAL_PRESENTATION {
+        if bytes.len() != SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION {
             #[cfg(feature = "std")]
-            println!("The SignalCredentialPresentation bytes were not long enough, got {} bytes", bytes.len());
+            println!("The SignalCredentialPresentation bytes were not the right length, got {} bytes", bytes.len());
             return Err(CredentialError::MissingData);
         }
 
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 902e55d..a402e55 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -323,6 +323,9 @@ pub struct RosterEntryCommitment {
 
 impl RosterEntryCommitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<RosterEntryCommitment, PhoneNumberError> {
+        if bytes.len() != SIZEOF_COMMITTED_PHONE_NUMBER + 32 {
+            return Err(PhoneNumberError::LengthExceeded);
+        }
         let commitment = CommittedPhoneNumber::from_bytes(&bytes[..SIZEOF_COMMITTED_PHONE_NUMBER])?;
 
         let mut tmp = [0u8; 32];
diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 3408876..db54de3 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -34,6 +34,7 @@ use credential::SignalCredentialPresentation;
 use credential::SignalCredential;
 use phone_number::PhoneNumber;
 use phone_number::RosterEntryCommitment;
+use phone_number::SIZEOF_PHONE_NUMBER;
 
 /// DOCDOC
 #[derive(Debug, Eq, PartialEq)]
@@ -44,6 +45,9 @@ pub struct SignalUser {
 
 impl SignalUser {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalUser, CredentialError> {
+        if bytes.len() < SIZEOF_PHONE_NUMBER {
+            return Err(CredentialError::MissingData);
+        }
         let phone_number = PhoneNumber::from_bytes(&bytes[00..32])?;
         let user = User::from_bytes(&bytes[32..])?;
 
-- 
2.43.0


From 8488961be225bef93c48d026a1e07c1c4d32b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:49 +0000
Subject: [PATCH 08/11] fix: PhoneNumber and RosterEntryCommitment decode
 canonical scalars only

---
 signal-credential/src/phone_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index a402e55..265a2e2 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -74,7 +74,7 @@ impl PhoneNumber {
 
         tmp.copy_from_slice(&bytes[00..32]);
 
-        Ok(PhoneNumber(Scalar::from_bits(tmp)))
+        Ok(PhoneNumber(Scalar::from_canonical_bytes(tmp)?))
     }
 
     pub fn to_bytes(&self) -> Vec<u8> {
@@ -332,7 +332,7 @@ impl RosterEntryCommitment {
 
         tmp.copy_from_slice(&bytes[SIZEOF_COMMITTED_PHONE_NUMBER..]);
 
-        let opening: Ephemeral = Scalar::from_bits(tmp).into();
+        let opening: Ephemeral = Scalar::from_canonical_bytes(tmp)?.into();
 
         Ok(RosterEntryCommitment { commitment, opening })
     }
-- 
2.43.0


From 22baa425fb2fbdab5946840c2f39f2802804c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:16 +0000
Subject: [PATCH 09/11] fix: phone numbers are between 1 and 26 bytes

Longer ones panicked or were reduced modulo ell, and could not be converted
back to a String. Nor could an empty one.
---
 signal-credential/src/errors.rs       |  2 +-
 signal-credential/src/phone_number.rs | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/signal-credential/src/errors.rs b/signal-credential/src/errors.rs
index 67aae14..9697438 100644
--- a/signal-credential/src/errors.rs
+++ b/signal-credential/src/errors.rs
@@ -31,7 +31,7 @@ impl fmt::Display for PhoneNumberError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match *self {
             PhoneNumberError::LengthExceeded
-                => write!(f, "A canonicalised phone number cannot be more than 32 bytes"),
+                => write!(f, "A canonicalised phone number cannot be more than 26 bytes"),
             PhoneNumberError::InvalidPhoneNumber
                 => write!(f, "The user's proof of roster membership could not be verified"),
         }
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 265a2e2..e541712 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -40,6 +40,9 @@ use rand_core::CryptoRng;
 use errors::PhoneNumberError;
 
 pub const SIZEOF_PHONE_NUMBER: usize = 32;
+/// The longest number of digits which, along with the two bytes before them, the
+/// two after them, and their length, make an integer which is less than ell.
+pub const MAXIMUM_PHONE_NUMBER_LENGTH: usize = 26;
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
@@ -135,7 +138,10 @@ impl PhoneNumber {
         let bytes: &[u8] = source.as_bytes();
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length == 0 {
+            return Err(PhoneNumberError::InvalidPhoneNumber);
+        }
+        if length > MAXIMUM_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -175,7 +181,10 @@ impl PhoneNumber {
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, PhoneNumberError> {
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length == 0 {
+            return Err(PhoneNumberError::InvalidPhoneNumber);
+        }
+        if length > MAXIMUM_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -214,6 +223,11 @@ impl From<PhoneNumber> for String {
             }
         }
 
+        // A `PhoneNumber` may be made from any scalar.
+        if length > MAXIMUM_PHONE_NUMBER_LENGTH {
+            length = MAXIMUM_PHONE_NUMBER_LENGTH;
+        }
+
         let mut s: String = String::with_capacity(length);
 
         for i in 2..length+2 {
-- 
2.43.0


From a3fc9a2010826265365c5901f146020316a3f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 10/11] fix: system parameters are two different generators

hunt_and_peck() took the identity for h, and from_bytes() took it for either
generator, or the same point for both.
---
 aeonflux/src/parameters.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/parameters.rs b/aeonflux/src/parameters.rs
index 4fbe670..fa4053c 100644
--- a/aeonflux/src/parameters.rs
+++ b/aeonflux/src/parameters.rs
@@ -16,6 +16,7 @@ use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use serde::{self, Serialize, Deserialize, Serializer, Deserializer};
 use serde::de::Visitor;
@@ -77,6 +78,11 @@ impl SystemParameters {
             },
         };
 
+        // Nothing is hidden or bound unless these are different generators.
+        if g == RistrettoPoint::identity() || h == RistrettoPoint::identity() || g == h {
+            return Err(CredentialError::NoSystemParameters);
+        }
+
         Ok(SystemParameters { g, h })
     }
 
@@ -113,7 +119,7 @@ impl SystemParameters {
 
             // Extremely unlikely but we may as well be careful.
             if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED {
-                H = CompressedRistretto(tmp).decompress();
+                H = CompressedRistretto(tmp).decompress().filter(|H| *H != RistrettoPoint::identity());
             }
         }
 
-- 
2.43.0


From 1d84d660adfe2ae5d3d3606fecdd2cd7c606d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:04 +0000
Subject: [PATCH 11/11] fix: deserialise from formats which write bytes as a
 sequence of numbers

The wasm API passes everything as JSON, so none of its functions could read
what another had returned.
---
 aeonflux/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aeonflux/src/macros.rs b/aeonflux/src/macros.rs
index a5f42e2..91d3f8e 100644
--- a/aeonflux/src/macros.rs
+++ b/aeonflux/src/macros.rs
@@ -43,6 +43,18 @@ macro_rules! impl_serde_with_to_bytes_and_from_bytes {
                             },
                         }
                     }
+
+                    // Formats without a type for bytes, such as JSON, have a sequence of numbers instead.
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$t, A::Error>
+                        where A: serde::de::SeqAccess<'de>
+                    {
+                        let mut v: Vec<u8> = Vec::new();
+
+                        while let Some(x) = seq.next_element()? {
+                            v.push(x);
+                        }
+                        self.visit_bytes(&v)
+                    }
                 }
                 deserializer.deserialize_bytes(AeonfluxVisitor)
             }
-- 
2.43.0

