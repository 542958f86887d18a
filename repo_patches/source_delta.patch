From 50997175e4fad34d4a07fb1d4b231256e88934ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:28 +0000
Subject: [PATCH 01/17] fix: import CredentialBlindRequest and wrap the
 generated keypair so that user.rs compiles

---
 aeonflux/src/user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4cd8647..4ea9b6e 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -28,6 +28,7 @@ use serde::de::Visitor;
 
 use amacs;
 use credential::Credential;
+use credential::CredentialBlindRequest;
 use credential::CredentialIssuance;
 use credential::CredentialPresentation;
 use credential::CredentialRequest;
@@ -260,7 +261,7 @@ impl User {
         C: CryptoRng + RngCore,
     {
         if self.key.is_none() {
-            self.key = elgamal::Keypair::generate::<C>(&mut csprng);
+            self.key = Some(elgamal::Keypair::generate(csprng));
         }
 
         unimplemented!();
-- 
2.43.0


From dda359ffe5b5fcaa46c052189b9c99443fa0111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:28 +0000
Subject: [PATCH 02/17] fix: reject credential presentations whose rerandomised
 nonce is the identity

---
 aeonflux/src/issuer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 95b9af9..f9d0999 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -18,6 +18,7 @@ pub use amacs::SecretKey as IssuerSecretKey;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::traits::Identity;
 
 use merlin::Transcript;
 
@@ -199,6 +200,12 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        // Every MAC is valid with respect to the identity, so a presentation
+        // using it as the nonce proves nothing about possessing a credential.
+        if P == RistrettoPoint::identity() {
+            return Err(CredentialError::MacVerification);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From 1518aa6c1d52f3ace687e623b4581e04190aaf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:28 +0000
Subject: [PATCH 03/17] fix: return an error for presentations or keys with the
 wrong number of attributes instead of panicking

---
 aeonflux/src/issuer.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index f9d0999..43d533e 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -33,8 +33,11 @@ use credential::CredentialIssuance;
 use credential::CredentialRequest;
 use credential::CredentialPresentation;
 use credential::VerifiedCredential;
+use credential::PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES;
+use credential::PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES;
 use errors::CredentialError;
 use nonces::Ephemeral;
+use parameters::NUMBER_OF_ATTRIBUTES;
 use parameters::SystemParameters;
 use pedersen::{self};
 use proofs::issuance_revealed;
@@ -198,6 +201,19 @@ impl Issuer {
     pub fn verify(&self, presentation: &CredentialPresentation)
         -> Result<VerifiedCredential, CredentialError>
     {
+        let X0: &RistrettoPoint = match self.keypair.public.Xn.get(0) {
+            Some(x) => x,
+            None    => return Err(CredentialError::NoIssuerParameters),
+        };
+
+        if presentation.attributes_revealed.len() != PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES ||
+           presentation.attributes_blinded.len() != PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+        if self.keypair.secret.xn.len() < NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerKey);
+        }
+
         let P = presentation.rerandomized_nonce;
 
         // Every MAC is valid with respect to the identity, so a presentation
@@ -222,7 +238,7 @@ impl Issuer {
         let publics = valid_credential::Publics {
             B: &self.system_parameters.g,
             A: &self.system_parameters.h,
-            X0: &self.keypair.public.Xn[0],
+            X0: X0,
             P: &P,
             V: &V_prime,
             Cm0: &presentation.attributes_blinded[0].into(),
-- 
2.43.0


From c036370c9d1629909eb4e2c87ed4f0300d83a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:28 +0000
Subject: [PATCH 04/17] fix: do not authenticate tags with an identity nonce or
 messages of the wrong length

---
 aeonflux/src/amacs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dcc65c7..1410663 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -39,11 +39,11 @@ use core::ops::{Index, Mul};
 
 use clear_on_drop::clear::Clear;
 
-use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
 use curve25519_dalek::scalar::Scalar;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use rand_core::RngCore;
 use rand_core::CryptoRng;
@@ -321,9 +321,13 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
-        if mac.nonce == RISTRETTO_BASEPOINT_POINT {
+        // Every MAC is valid with respect to the identity.
+        if mac.nonce == RistrettoPoint::identity() {
             return Err(MacError::AuthenticationError);
         }
+        if self.xn.len() != message.0.len() {
+            return Err(MacError::MessageLengthError{ length: self.xn.len() });
+        }
         let mut exponent = self.x0;
 
         for (xi, mi) in self.xn.iter().zip(message.0.iter()) {
-- 
2.43.0


From d76aba713daed88bbde0a6c9131061e81fd280db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:37 +0000
Subject: [PATCH 05/17] fix: decoders return an error for inputs of the wrong
 length instead of panicking or ignoring trailing bytes

---
 aeonflux/src/amacs.rs                 |  9 +++++++--
 aeonflux/src/credential.rs            | 10 ++++++----
 aeonflux/src/elgamal.rs               | 12 +++++++++---
 aeonflux/src/pedersen.rs              |  6 +++++-
 signal-credential/src/credential.rs   |  9 +++++++--
 signal-credential/src/phone_number.rs |  4 ++++
 signal-credential/src/user.rs         |  9 +++++++--
 7 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index 1410663..aa52fdc 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -240,8 +240,8 @@ impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, MacError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        // The bytes must be a multiple of 32, and there must be at least an x0.
+        if length % 32 != 0 || length < 32 {
             return Err(MacError::MessageLengthError{ length });
         }
         let mut x0: Option<Scalar> = None;
@@ -356,6 +356,11 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
+        // There must be at least an x0.
+        if length < 32 {
+            return Err(MacError::KeypairDeserialisation);
+        }
+
         // The public key must always be 32 bytes shorter since the secret key has the extra x0 element.
         let public_key_length: usize = (length - 32) / 2;
         let secret_key_length: usize = length - public_key_length;
diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index d249b44..3d22a5a 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -40,6 +40,7 @@ use proofs::issuance_revealed;
 use proofs::valid_credential;
 
 pub const SIZEOF_CREDENTIAL: usize = SIZEOF_TAG + NUMBER_OF_ATTRIBUTES * 32;
+pub const SIZEOF_CREDENTIAL_ISSUANCE: usize = 32 + SIZEOF_CREDENTIAL + 200;
 pub const SIZEOF_CREDENTIAL_PRESENTATION: usize = 256;
 
 /// The number of revealed attributes on a `Credential` during issuance.
@@ -209,6 +210,10 @@ pub struct CredentialIssuance {
 
 impl CredentialIssuance {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialIssuance, CredentialError> {
+        if bytes.len() != SIZEOF_CREDENTIAL_ISSUANCE {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let secret_key_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
         let credential = Credential::from_bytes(&bytes[32..32+SIZEOF_CREDENTIAL])?;
         
@@ -265,10 +270,7 @@ pub struct CredentialPresentation {
 
 impl CredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialPresentation, CredentialError> {
-        let length: usize = bytes.len();
-
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        if bytes.len() != SIZEOF_CREDENTIAL_PRESENTATION {
             return Err(CredentialError::WrongNumberOfBytes);
         }
 
diff --git a/aeonflux/src/elgamal.rs b/aeonflux/src/elgamal.rs
index d440d2b..29929e5 100644
--- a/aeonflux/src/elgamal.rs
+++ b/aeonflux/src/elgamal.rs
@@ -96,7 +96,9 @@ impl<'a, 'b> Add<&'b Encryption> for &'a Encryption {
 
 impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != SIZEOF_PUBLIC_KEY {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -144,7 +146,9 @@ impl<'a> From<&'a SecretKey> for PublicKey {
 
 impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != SIZEOF_SECRET_KEY {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -196,7 +200,9 @@ impl Drop for SecretKey {
 
 impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, CredentialError> {
-        assert!(bytes.len() == 64);
+        if bytes.len() != SIZEOF_KEYPAIR {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let secret = SecretKey::from_bytes(&bytes[00..32])?;
         let public = PublicKey::from_bytes(&bytes[32..64])?;
diff --git a/aeonflux/src/pedersen.rs b/aeonflux/src/pedersen.rs
index e3c5378..56dc1cc 100644
--- a/aeonflux/src/pedersen.rs
+++ b/aeonflux/src/pedersen.rs
@@ -65,9 +65,13 @@ impl SubAssign<Commitment> for RistrettoPoint {
 
 impl Commitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<Commitment, CredentialError> {
+        if bytes.len() != SIZEOF_COMMITMENT {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let mut tmp: [u8; 32] = [0u8; 32];
 
-        tmp.copy_from_slice(&bytes[0..32]);
+        tmp.copy_from_slice(bytes);
 
         Ok(Commitment(CompressedRistretto(tmp).decompress()?))
     }
diff --git a/signal-credential/src/credential.rs b/signal-credential/src/credential.rs
index bc403a3..a696a2e 100644
--- a/signal-credential/src/credential.rs
+++ b/signal-credential/src/credential.rs
@@ -29,6 +29,11 @@ use serde::de::Visitor;
 use phone_number::SIZEOF_COMMITTED_PHONE_NUMBER;
 use phone_number::CommittedPhoneNumber;
 
+pub const SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION: usize =
+    SIZEOF_COMMITTED_PHONE_NUMBER +
+    SIZEOF_CREDENTIAL_PRESENTATION +
+    160; // the roster membership proof
+
 /// The number of revealed attributes on a `SignalCredential` during issuance.
 pub const ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES: usize = 1;
 
@@ -65,9 +70,9 @@ impl SignalCredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalCredentialPresentation, CredentialError> {
         const RE: usize = SIZEOF_COMMITTED_PHONE_NUMBER;
 
-        if bytes.len() < RE + SIZEOF_CREDENTIAL_PRESENTATION {
+        if bytes.len() != SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION {
             #[cfg(feature = "std")]
-            println!("The SignalCredentialPresentation bytes were not long enough, got {} bytes", bytes.len());
+            println!("The SignalCredentialPresentation bytes were the wrong length, got {} bytes", bytes.len());
             return Err(CredentialError::MissingData);
         }
 
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 902e55d..ba40610 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -323,6 +323,10 @@ pub struct RosterEntryCommitment {
 
 impl RosterEntryCommitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<RosterEntryCommitment, PhoneNumberError> {
+        if bytes.len() != SIZEOF_COMMITTED_PHONE_NUMBER + 32 {
+            return Err(PhoneNumberError::LengthExceeded);
+        }
+
         let commitment = CommittedPhoneNumber::from_bytes(&bytes[..SIZEOF_COMMITTED_PHONE_NUMBER])?;
 
         let mut tmp = [0u8; 32];
diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 2093e1e..73a1e2b 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -33,6 +33,7 @@ use credential::SignalCredentialIssuance;
 use credential::SignalCredentialPresentation;
 use credential::SignalCredential;
 use phone_number::PhoneNumber;
+use phone_number::SIZEOF_PHONE_NUMBER;
 use phone_number::RosterEntryCommitment;
 
 /// DOCDOC
@@ -44,8 +45,12 @@ pub struct SignalUser {
 
 impl SignalUser {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalUser, CredentialError> {
-        let phone_number = PhoneNumber::from_bytes(&bytes[00..32])?;
-        let user = User::from_bytes(&bytes[32..])?;
+        if bytes.len() < SIZEOF_PHONE_NUMBER {
+            return Err(CredentialError::MissingData);
+        }
+
+        let phone_number = PhoneNumber::from_bytes(&bytes[00..SIZEOF_PHONE_NUMBER])?;
+        let user = User::from_bytes(&bytes[SIZEOF_PHONE_NUMBER..])?;
 
         Ok(SignalUser { phone_number, user })
     }
-- 
2.43.0


From aa2ee5e29c53498df2e5c1d16e1ab75114132806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:37 +0000
Subject: [PATCH 06/17] fix: only decode phone numbers and commitment openings
 from canonical scalars

---
 signal-credential/src/phone_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index ba40610..935d25b 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -74,7 +74,7 @@ impl PhoneNumber {
 
         tmp.copy_from_slice(&bytes[00..32]);
 
-        Ok(PhoneNumber(Scalar::from_bits(tmp)))
+        Ok(PhoneNumber(Scalar::from_canonical_bytes(tmp)?))
     }
 
     pub fn to_bytes(&self) -> Vec<u8> {
@@ -333,7 +333,7 @@ impl RosterEntryCommitment {
 
         tmp.copy_from_slice(&bytes[SIZEOF_COMMITTED_PHONE_NUMBER..]);
 
-        let opening: Ephemeral = Scalar::from_bits(tmp).into();
+        let opening: Ephemeral = Scalar::from_canonical_bytes(tmp)?.into();
 
         Ok(RosterEntryCommitment { commitment, opening })
     }
-- 
2.43.0


From b86a1e282af61c096eafafbce6bca64b16587ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 07/17] fix: bound the number of digits in a phone number by
 what its encoding can hold

---
 signal-credential/src/errors.rs       |  2 +-
 signal-credential/src/phone_number.rs | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/signal-credential/src/errors.rs b/signal-credential/src/errors.rs
index 67aae14..c309bd7 100644
--- a/signal-credential/src/errors.rs
+++ b/signal-credential/src/errors.rs
@@ -31,7 +31,7 @@ impl fmt::Display for PhoneNumberError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match *self {
             PhoneNumberError::LengthExceeded
-                => write!(f, "A canonicalised phone number cannot be more than 32 bytes"),
+                => write!(f, "A canonicalised phone number cannot be more than 26 digits"),
             PhoneNumberError::InvalidPhoneNumber
                 => write!(f, "The user's proof of roster membership could not be verified"),
         }
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 935d25b..d539e26 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -16,9 +16,13 @@ use std::vec::Vec;
 #[cfg(all(not(feature = "alloc"), feature = "std"))]
 use std::string::String;
 
+#[cfg(feature = "std")]
+use std::cmp::min;
 #[cfg(feature = "std")]
 use std::ops::{Index};
 #[cfg(not(feature = "std"))]
+use core::cmp::min;
+#[cfg(not(feature = "std"))]
 use core::ops::{Index};
 
 use aeonflux::amacs::{self};
@@ -40,6 +44,10 @@ use rand_core::CryptoRng;
 use errors::PhoneNumberError;
 
 pub const SIZEOF_PHONE_NUMBER: usize = 32;
+/// The two bytes of prefix, the two bytes of suffix, and the byte containing the
+/// length must also fit into the `Scalar` without it being reduced modulo the
+/// order of the group.
+pub const MAX_PHONE_NUMBER_DIGITS: usize = 26;
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
@@ -135,9 +143,12 @@ impl PhoneNumber {
         let bytes: &[u8] = source.as_bytes();
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_DIGITS {
             return Err(PhoneNumberError::LengthExceeded);
         }
+        if length == 0 {
+            return Err(PhoneNumberError::InvalidPhoneNumber);
+        }
         let mut bits: [u8; 32] = [0u8; 32];
 
         // Prefix it with some bogus digits to prevent phone numbers with
@@ -175,9 +186,12 @@ impl PhoneNumber {
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, PhoneNumberError> {
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_DIGITS {
             return Err(PhoneNumberError::LengthExceeded);
         }
+        if length == 0 {
+            return Err(PhoneNumberError::InvalidPhoneNumber);
+        }
         let mut bits: [u8; 32] = [0u8; 32];
 
         // Prefix it with some bogus digits to prevent phone numbers with
@@ -209,7 +223,7 @@ impl From<PhoneNumber> for String {
             if source.0[i] == 0 {
                 continue;
             } else {
-                length = source[i] as usize;
+                length = min(source[i] as usize, MAX_PHONE_NUMBER_DIGITS);
                 break;
             }
         }
-- 
2.43.0


From 4e6e1125d0e2db64a69c590b1f4d429a14a58c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 08/17] fix: reject phone number strings containing non-digits
 rather than mapping them all to one value

---
 signal-credential/src/phone_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index d539e26..33eaf8a 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -170,7 +170,7 @@ impl PhoneNumber {
                 55 => 7,
                 56 => 8,
                 57 => 9,
-                _  => 15,
+                _  => return Err(PhoneNumberError::InvalidPhoneNumber),
             };
         }
         // Suffix some bogus digits as well and then finally add the length:
-- 
2.43.0


From 0bf5eea5a21cd6787e95c1f2f1bf11a82bc924c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 09/17] fix: deserialise from sequences of bytes, as produced
 by our serialisers in formats like JSON

---
 aeonflux/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aeonflux/src/macros.rs b/aeonflux/src/macros.rs
index a5f42e2..b03a14a 100644
--- a/aeonflux/src/macros.rs
+++ b/aeonflux/src/macros.rs
@@ -43,6 +43,18 @@ macro_rules! impl_serde_with_to_bytes_and_from_bytes {
                             },
                         }
                     }
+
+                    // Formats without a native bytes type, e.g. JSON, use a sequence of integers.
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$t, A::Error>
+                        where A: serde::de::SeqAccess<'de>
+                    {
+                        let mut v: Vec<u8> = Vec::new();
+
+                        while let Some(byte) = seq.next_element()? {
+                            v.push(byte);
+                        }
+                        self.visit_bytes(&v)
+                    }
                 }
                 deserializer.deserialize_bytes(AeonfluxVisitor)
             }
-- 
2.43.0


From 509b0e6e77b18a923004e63509f0b992d2b0d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 10/17] fix: refuse degenerate system parameters in every
 build, including when decoding them

---
 aeonflux/src/parameters.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/aeonflux/src/parameters.rs b/aeonflux/src/parameters.rs
index 4fbe670..794d282 100644
--- a/aeonflux/src/parameters.rs
+++ b/aeonflux/src/parameters.rs
@@ -16,6 +16,7 @@ use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use serde::{self, Serialize, Deserialize, Serializer, Deserializer};
 use serde::de::Visitor;
@@ -77,6 +78,11 @@ impl SystemParameters {
             },
         };
 
+        // The generators must be distinct, and must actually generate the group.
+        if g == h || g == RistrettoPoint::identity() || h == RistrettoPoint::identity() {
+            return Err(CredentialError::NoSystemParameters);
+        }
+
         Ok(SystemParameters { g, h })
     }
 
@@ -112,7 +118,8 @@ impl SystemParameters {
             csprng.fill_bytes(&mut tmp);
 
             // Extremely unlikely but we may as well be careful.
-            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED {
+            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED &&
+               CompressedRistretto(tmp) != CompressedRistretto::identity() {
                 H = CompressedRistretto(tmp).decompress();
             }
         }
@@ -133,11 +140,15 @@ impl From<RistrettoPoint> for SystemParameters {
     /// * `h`, a generator of the group `G`, which also has generator `g`, where
     ///    `h` is chosen orthogonally such that `log_g(h)` is unknown.
     ///
+    /// # Panics
+    ///
+    /// If `h` is the basepoint or the identity.
+    ///
     /// # Returns
     ///
     /// The `SystemParameters` for an anonymous credential protocol.
     fn from(h: RistrettoPoint) -> SystemParameters {
-        debug_assert!(h != RISTRETTO_BASEPOINT_POINT);
+        assert!(h != RISTRETTO_BASEPOINT_POINT && h != RistrettoPoint::identity());
 
         SystemParameters {
             g: RISTRETTO_BASEPOINT_POINT,
@@ -157,13 +168,14 @@ impl From<[u8; 32]> for SystemParameters {
     ///
     /// # Panics
     ///
-    /// If `h` cannot be decompressed.
+    /// If `h` cannot be decompressed, or is the basepoint or the identity.
     ///
     /// # Returns
     ///
     /// The `SystemParameters` for an anonymous credential protocol.
     fn from(h: [u8; 32]) -> SystemParameters {
-        debug_assert!(CompressedRistretto(h) != RISTRETTO_BASEPOINT_COMPRESSED);
+        assert!(CompressedRistretto(h) != RISTRETTO_BASEPOINT_COMPRESSED &&
+                CompressedRistretto(h) != CompressedRistretto::identity());
 
         SystemParameters {
             g: RISTRETTO_BASEPOINT_POINT,
-- 
2.43.0


From 049bb626be915a07e63e00b4056d9011bbff0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 11/17] fix: return an error from User::show for the wrong
 number of attributes or nonces instead of panicking

---
 aeonflux/src/user.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4ea9b6e..84873da 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -187,11 +187,18 @@ impl User {
             None        => return Err(CredentialError::MissingData),
         };
 
+        const N_ATTRIBUTES: usize = 1;
+
+        if credential.attributes.len() != N_ATTRIBUTES || nonces.0.len() != N_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+        if self.issuer_parameters.Xn.len() < N_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+
         let mut transcript = Transcript::new(b"AEONFLUX SHOW");
         let mut csprng = transcript.fork_transcript().reseed_from_rng(rng);
 
-        const N_ATTRIBUTES: usize = 1;
-
         // Rerandomise the aMAC to prevent trivial linkages.
         //
         // XXX do we want to pass in a merlin transcript instead of using the rng here?
-- 
2.43.0


From d8f46d2609b903c1a6fb5595f9effd210bc5ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 12/17] fix: only accept issuances for the user's own phone
 number

---
 signal-credential/src/user.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 73a1e2b..bb35942 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -94,6 +94,13 @@ impl SignalUser {
         issuance: Option<&SignalCredentialIssuance>,
     ) -> Result<(), CredentialError>
     {
+        // The issuer must have issued us a credential for our phone number.
+        if let Some(issue) = issuance {
+            if &issue.credential.attributes[..] != &[self.phone_number.0][..] {
+                return Err(CredentialError::BadAttribute);
+            }
+        }
+
         self.user.obtain_finish(issuance)
     }
 
-- 
2.43.0


From e8e9c5ee2e597166b493fe1b5a52d485fb677568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 13/17] fix: do not let other crates construct a
 VerifiedCredential without verifying it

---
 aeonflux/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index 3d22a5a..ca1ff50 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -360,7 +360,7 @@ impl_serde_with_to_bytes_and_from_bytes!(CredentialPresentation,
 /// `Issuer.verify()`.
 #[derive(Clone, Debug, Eq, PartialEq)]
 #[repr(C)]
-pub struct VerifiedCredential(pub CredentialPresentation);
+pub struct VerifiedCredential(pub(crate) CredentialPresentation);
 
 impl VerifiedCredential {
     pub fn from_bytes(bytes: &[u8]) -> Result<VerifiedCredential, CredentialError> {
-- 
2.43.0


From 39922ccd76d0a651850aea9cbe901dd4af1acbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 14/17] fix: return owned buffers over the FFI, released with
 buf_free, and NULL upon errors

---
 ffi/src/c.rs                      | 16 +++++++++++
 ffi/src/include/credential.h      |  8 ++++++
 ffi/src/macros.rs                 |  8 ++++--
 swift/Credential/Credential.swift | 47 +++++++++++--------------------
 4 files changed, 46 insertions(+), 33 deletions(-)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 2ad78da..303802d 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -9,6 +9,10 @@
 
 //! C-like language FFI API.
 
+#[cfg(all(not(feature = "std"), feature = "alloc"))]
+use alloc::boxed::Box;
+#[cfg(all(not(feature = "alloc"), feature = "std"))]
+use std::boxed::Box;
 #[cfg(all(not(feature = "std"), feature = "alloc"))]
 use alloc::vec::Vec;
 #[cfg(all(not(feature = "alloc"), feature = "std"))]
@@ -68,6 +72,18 @@ pub struct buf_t {
     pub ptr: *const uint8_t,
 }
 
+/// Release a buffer which was returned from any of the other functions.
+#[no_mangle]
+pub unsafe extern "C" fn buf_free(
+    buffer: buf_t,
+)
+{
+    if !buffer.ptr.is_null() {
+        drop(Box::from_raw(slice::from_raw_parts_mut(buffer.ptr as *mut uint8_t,
+                                                     buffer.len as size_t)));
+    }
+}
+
 #[no_mangle]
 pub extern "C" fn system_parameters_create(
     seed: *const uint8_t,  // should be 32 bytes exactly
diff --git a/ffi/src/include/credential.h b/ffi/src/include/credential.h
index fd73cca..b7d1184 100644
--- a/ffi/src/include/credential.h
+++ b/ffi/src/include/credential.h
@@ -28,6 +28,14 @@ typedef struct buf_s {
   const uint8_t* ptr; /**< The `ptr` to some `uint8_t`s. */
 } buf_t;
 
+/**
+ * Release a `buf_t` returned from any of the functions below.
+ *
+ * The data in the buffer remains valid until this function is called on it,
+ * which should be done exactly once.
+ */
+void buf_free(buf_t buffer);
+
 /**
  * Create some globally-agreed upon `SystemParameters` by seeding a CSPRNG.
  *
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ed979e..017bbdb 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -11,10 +11,12 @@
 macro_rules! slice_to_len_and_ptr {
     ($x:expr) => {{
         let x: &[u8] = $x;
+        let owned: Box<[u8]> = Vec::from(x).into_boxed_slice();
 
+        // The caller owns the memory from here on, and must release it with buf_free().
         buf_t {
-            len: x.len() as uint64_t,
-            ptr: x.as_ptr() as *const uint8_t,
+            len: owned.len() as uint64_t,
+            ptr: Box::into_raw(owned) as *const uint8_t,
         }
     }}
 }
@@ -22,7 +24,7 @@ macro_rules! slice_to_len_and_ptr {
 #[macro_export]
 macro_rules! zero_len_and_ptr {
     () => {
-        slice_to_len_and_ptr!(&[])
+        buf_t { len: 0, ptr: ptr::null() }
     }
 }
 
diff --git a/swift/Credential/Credential.swift b/swift/Credential/Credential.swift
index 4b8eeb1..c234166 100644
--- a/swift/Credential/Credential.swift
+++ b/swift/Credential/Credential.swift
@@ -10,6 +10,13 @@
 
 import Foundation
 
+/// Copy the bytes out of a `buf_t` returned from the Rust API, and then release it.
+func takeBytes(_ buffer: buf_t) -> [UInt8] {
+    defer { buf_free(buffer) }
+
+    return Array(UnsafeBufferPointer(start: buffer.ptr, count: Int(buffer.len)))
+}
+
 class SystemParameters {
     var data = [UInt8](repeating: 0, count: Int(LENGTH_SYSTEM_PARAMETERS))
 
@@ -24,9 +31,7 @@ class SystemParameters {
 
         let buffer = system_parameters_create(seed)
 
-        self.data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+        self.data = takeBytes(buffer)
         return self
     }
 }
@@ -60,9 +65,7 @@ class RosterEntryCommitment {
                                                     &system_parameters.data,
                                                     UInt64(system_parameters.data.count),
                                                     seed)
-        self.data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+        self.data = takeBytes(buffer)
     }
 
     func open(phone_number: [UInt8], system_parameters: SystemParameters) -> Bool {
@@ -130,32 +133,24 @@ class SignalIssuer {
 
         let keypair_buffer = issuer_create(&system_parameters.data,
                                             UInt64(system_parameters.data.count), seed)
-        data = keypair_buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(keypair_buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(keypair_buffer.len)))
-        }
+        data = takeBytes(keypair_buffer)
         self.keypair = AlgebraicMACKeypair(withBytes: data)!
 
         let buffer = issuer_new(&system_parameters.data, UInt64(system_parameters.data.count),
                                 &self.keypair.data, UInt64(self.keypair.data.count))
-        self.data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+        self.data = takeBytes(buffer)
     }
 
     init(withKeypair keypair: AlgebraicMACKeypair, system_parameters: SystemParameters) {
         let buffer = issuer_new(&system_parameters.data, UInt64(system_parameters.data.count),
                                 &keypair.data, UInt64(keypair.data.count))
-        self.data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+        self.data = takeBytes(buffer)
         self.keypair = keypair
     }
 
     func get_parameters() -> IssuerParameters? {
         let buffer = issuer_get_issuer_parameters(&self.data, UInt64(self.data.count))
-        let data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+        let data = takeBytes(buffer)
         let issuer_parameters = IssuerParameters(withBytes: data)
 
         return issuer_parameters
@@ -166,9 +161,7 @@ class SignalIssuer {
 
         let buffer = issuer_issue(&self.data, UInt64(self.data.count),
                                   phone_number, UInt64(phone_number.count), seed)
-        let data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+        let data = takeBytes(buffer)
         let issuance = CredentialIssuance(withBytes: data)
 
         return issuance
@@ -177,9 +170,7 @@ class SignalIssuer {
     func verify(presentation: CredentialPresentation) -> VerifiedCredential? {
         let buffer = issuer_verify(&self.data, UInt64(self.data.count),
                                    &presentation.data, UInt64(presentation.data.count))
-         let data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+         let data = takeBytes(buffer)
         let verified = VerifiedCredential(withBytes: data)
 
         return verified
@@ -199,9 +190,7 @@ class User {
                                         &issuer_parameters.data, UInt64(issuer_parameters.data.count),
                                         &issuance.data, UInt64(issuance.data.count))
 
-        self.data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+        self.data = takeBytes(buffer)
     }
 
     func show(roster_entry_commitment: RosterEntryCommitment, seed: [UInt8]) -> CredentialPresentation? {
@@ -209,9 +198,7 @@ class User {
 
         let buffer = user_show(&self.data, UInt64(self.data.count),
                                &roster_entry_commitment.data, UInt64(roster_entry_commitment.data.count), seed)
-        let data = buffer.ptr.withMemoryRebound(to: UInt8.self, capacity: Int(buffer.len)) {
-            Array(UnsafeBufferPointer(start: $0, count: Int(buffer.len)))
-        }
+        let data = takeBytes(buffer)
         let presentation = CredentialPresentation(withBytes: data)
 
         return presentation
-- 
2.43.0


From 9552ee8e135a450073ecaaf5c8cb3f244f0c8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 15/17] fix: the Swift initialisers fail for the wrong number
 of bytes, and issuer parameters use their own length

---
 swift/Credential/Credential.swift | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/swift/Credential/Credential.swift b/swift/Credential/Credential.swift
index c234166..fc71298 100644
--- a/swift/Credential/Credential.swift
+++ b/swift/Credential/Credential.swift
@@ -21,7 +21,7 @@ class SystemParameters {
     var data = [UInt8](repeating: 0, count: Int(LENGTH_SYSTEM_PARAMETERS))
 
     init?(withBytes bytes: [UInt8]) {
-        guard bytes.count == LENGTH_SYSTEM_PARAMETERS else { return }
+        guard bytes.count == LENGTH_SYSTEM_PARAMETERS else { return nil }
 
         self.data = bytes
     }
@@ -40,7 +40,7 @@ class AlgebraicMACKeypair {
     var data = [UInt8](repeating: 0, count: Int(LENGTH_ISSUER_KEYPAIR))
 
     init?(withBytes bytes: [UInt8]) {
-        guard bytes.count == LENGTH_ISSUER_KEYPAIR else { return }
+        guard bytes.count == LENGTH_ISSUER_KEYPAIR else { return nil }
 
         self.data = bytes
     }
@@ -50,7 +50,7 @@ class RosterEntryCommitment {
     var data = [UInt8](repeating: 0, count: Int(LENGTH_ROSTER_ENTRY_COMMITMENT))
 
     init?(withBytes bytes: [UInt8]) {
-        guard bytes.count == LENGTH_ROSTER_ENTRY_COMMITMENT else { return }
+        guard bytes.count == LENGTH_ROSTER_ENTRY_COMMITMENT else { return nil }
 
         self.data = bytes
     }
@@ -88,7 +88,7 @@ class IssuerParameters {
     var data = [UInt8](repeating: 0, count: Int(LENGTH_ISSUER_PARAMETERS))
 
     init?(withBytes bytes: [UInt8]) {
-        guard bytes.count == LENGTH_ISSUER_KEYPAIR else { return }
+        guard bytes.count == LENGTH_ISSUER_PARAMETERS else { return nil }
 
         self.data = bytes
     }
@@ -98,7 +98,7 @@ class CredentialIssuance {
     var data = [UInt8](repeating: 0, count: Int(LENGTH_CREDENTIAL_ISSUANCE))
 
     init?(withBytes bytes: [UInt8]) {
-        guard bytes.count == LENGTH_CREDENTIAL_ISSUANCE else { return }
+        guard bytes.count == LENGTH_CREDENTIAL_ISSUANCE else { return nil }
 
         self.data = bytes
     }
@@ -108,7 +108,7 @@ class CredentialPresentation {
     var data = [UInt8](repeating: 0, count: Int(LENGTH_CREDENTIAL_PRESENTATION))
 
     init?(withBytes bytes: [UInt8]) {
-        guard bytes.count == LENGTH_CREDENTIAL_PRESENTATION else { return }
+        guard bytes.count == LENGTH_CREDENTIAL_PRESENTATION else { return nil }
 
         self.data = bytes
     }
@@ -118,7 +118,7 @@ class VerifiedCredential {
     var data = [UInt8](repeating: 0, count: Int(LENGTH_VERIFIED_CREDENTIAL))
 
     init?(withBytes bytes: [UInt8]) {
-        guard bytes.count == LENGTH_VERIFIED_CREDENTIAL else { return }
+        guard bytes.count == LENGTH_VERIFIED_CREDENTIAL else { return nil }
 
         self.data = bytes
     }
-- 
2.43.0


From 5e0dcd9eb8ee265e6217710c8c32901461120d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:57 +0000
Subject: [PATCH 16/17] fix: do not print characters of phone numbers

---
 signal-credential/src/phone_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 33eaf8a..51e1d29 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -244,7 +244,7 @@ impl From<PhoneNumber> for String {
                 9 => s.push_str("9"),
                 _ => {
                     #[cfg(feature = "std")]
-                    println!("Got weird digit in phone number {:?}", source[i]);
+                    println!("Got weird digit in phone number");
                     continue;
                 },
             }
-- 
2.43.0


From a88f1d3937abb878482cbacf09744c5e93c60182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:53 +0000
Subject: [PATCH 17/17] fix: Swift members fail if the C function fails or
 returns another number of bytes than declared

---
 swift/Credential/Credential.swift | 45 ++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/swift/Credential/Credential.swift b/swift/Credential/Credential.swift
index fc71298..ecbe087 100644
--- a/swift/Credential/Credential.swift
+++ b/swift/Credential/Credential.swift
@@ -11,9 +11,12 @@
 import Foundation
 
 /// Copy the bytes out of a `buf_t` returned from the Rust API, and then release it.
-func takeBytes(_ buffer: buf_t) -> [UInt8] {
+/// Returns `nil` if there are not exactly `length` bytes, as is the case upon errors.
+func takeBytes(_ buffer: buf_t, length: UInt32) -> [UInt8]? {
     defer { buf_free(buffer) }
 
+    guard buffer.len == length else { return nil }
+
     return Array(UnsafeBufferPointer(start: buffer.ptr, count: Int(buffer.len)))
 }
 
@@ -31,7 +34,9 @@ class SystemParameters {
 
         let buffer = system_parameters_create(seed)
 
-        self.data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_SYSTEM_PARAMETERS) else { return nil }
+
+        self.data = data
         return self
     }
 }
@@ -65,7 +70,9 @@ class RosterEntryCommitment {
                                                     &system_parameters.data,
                                                     UInt64(system_parameters.data.count),
                                                     seed)
-        self.data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_ROSTER_ENTRY_COMMITMENT) else { return nil }
+
+        self.data = data
     }
 
     func open(phone_number: [UInt8], system_parameters: SystemParameters) -> Bool {
@@ -133,24 +140,31 @@ class SignalIssuer {
 
         let keypair_buffer = issuer_create(&system_parameters.data,
                                             UInt64(system_parameters.data.count), seed)
-        data = takeBytes(keypair_buffer)
-        self.keypair = AlgebraicMACKeypair(withBytes: data)!
+        guard let keypair_bytes = takeBytes(keypair_buffer, length: LENGTH_ISSUER_KEYPAIR),
+              let keypair = AlgebraicMACKeypair(withBytes: keypair_bytes) else { return nil }
+
+        self.keypair = keypair
 
         let buffer = issuer_new(&system_parameters.data, UInt64(system_parameters.data.count),
                                 &self.keypair.data, UInt64(self.keypair.data.count))
-        self.data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_ISSUER) else { return nil }
+
+        self.data = data
     }
 
-    init(withKeypair keypair: AlgebraicMACKeypair, system_parameters: SystemParameters) {
+    init?(withKeypair keypair: AlgebraicMACKeypair, system_parameters: SystemParameters) {
         let buffer = issuer_new(&system_parameters.data, UInt64(system_parameters.data.count),
                                 &keypair.data, UInt64(keypair.data.count))
-        self.data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_ISSUER) else { return nil }
+
+        self.data = data
         self.keypair = keypair
     }
 
     func get_parameters() -> IssuerParameters? {
         let buffer = issuer_get_issuer_parameters(&self.data, UInt64(self.data.count))
-        let data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_ISSUER_PARAMETERS) else { return nil }
+
         let issuer_parameters = IssuerParameters(withBytes: data)
 
         return issuer_parameters
@@ -161,7 +175,8 @@ class SignalIssuer {
 
         let buffer = issuer_issue(&self.data, UInt64(self.data.count),
                                   phone_number, UInt64(phone_number.count), seed)
-        let data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_CREDENTIAL_ISSUANCE) else { return nil }
+
         let issuance = CredentialIssuance(withBytes: data)
 
         return issuance
@@ -170,7 +185,8 @@ class SignalIssuer {
     func verify(presentation: CredentialPresentation) -> VerifiedCredential? {
         let buffer = issuer_verify(&self.data, UInt64(self.data.count),
                                    &presentation.data, UInt64(presentation.data.count))
-         let data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_VERIFIED_CREDENTIAL) else { return nil }
+
         let verified = VerifiedCredential(withBytes: data)
 
         return verified
@@ -190,7 +206,9 @@ class User {
                                         &issuer_parameters.data, UInt64(issuer_parameters.data.count),
                                         &issuance.data, UInt64(issuance.data.count))
 
-        self.data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_USER) else { return nil }
+
+        self.data = data
     }
 
     func show(roster_entry_commitment: RosterEntryCommitment, seed: [UInt8]) -> CredentialPresentation? {
@@ -198,7 +216,8 @@ class User {
 
         let buffer = user_show(&self.data, UInt64(self.data.count),
                                &roster_entry_commitment.data, UInt64(roster_entry_commitment.data.count), seed)
-        let data = takeBytes(buffer)
+        guard let data = takeBytes(buffer, length: LENGTH_CREDENTIAL_PRESENTATION) else { return nil }
+
         let presentation = CredentialPresentation(withBytes: data)
 
         return presentation
-- 
2.43.0

