//! Stand-in for `ring`, used only in the symbolic build.
//! Contract modelled: `RsaKeyPair::from_pkcs8` accepts the bytes of the key the
//! harness registered and rejects everything else; `sign` succeeds when the
//! output buffer has the modulus length, fails otherwise, and writes an
//! arbitrary signature chosen by the harness.  Every call is recorded.
use std::sync::Mutex;

pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Unspecified;
    impl std::fmt::Display for Unspecified {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("ring::error::Unspecified") }
    }
    impl std::error::Error for Unspecified {}
    #[derive(Clone, Copy, Debug)]
    pub struct KeyRejected(pub(crate) &'static str);
    impl std::fmt::Display for KeyRejected {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) }
    }
    impl std::error::Error for KeyRejected {}
    impl From<KeyRejected> for Unspecified { fn from(_: KeyRejected) -> Self { Unspecified } }
}

pub mod rand {
    pub trait SecureRandom: Send + Sync {}
    #[derive(Clone, Debug, Default)]
    pub struct SystemRandom(());
    impl SystemRandom { pub fn new() -> Self { SystemRandom(()) } }
    impl SecureRandom for SystemRandom {}
}

/// One recorded signing operation.
#[derive(Clone, Debug)]
pub struct SignRecord { pub algorithm: &'static str, pub key_der: Vec<u8>, pub message: Vec<u8> }

#[derive(Default)]
pub struct Env {
    /// DER blobs that are accepted, with the modulus length.
    pub keys: Vec<(Vec<u8>, usize)>,
    /// bytes returned as signature (padded / truncated to the modulus length)
    pub signature: Vec<u8>,
    pub signed: Vec<SignRecord>,
}
pub static ENV: Mutex<Option<Env>> = Mutex::new(None);
pub fn with_env<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    let mut g = ENV.lock().unwrap();
    f(g.get_or_insert_with(Env::default))
}

pub mod digest {
    pub struct Algorithm(pub(crate) &'static str);
    pub static SHA256: Algorithm = Algorithm("SHA256");
    pub static SHA384: Algorithm = Algorithm("SHA384");
    pub static SHA512: Algorithm = Algorithm("SHA512");
}

pub mod signature {
    use super::*;
    pub trait RsaEncoding: Sync + 'static { fn name(&self) -> &'static str; }
    #[allow(non_camel_case_types)]
    pub struct RsaPadding(pub(crate) &'static str);
    impl RsaEncoding for RsaPadding { fn name(&self) -> &'static str { self.0 } }
    pub static RSA_PKCS1_SHA256: RsaPadding = RsaPadding("RSA_PKCS1_SHA256");
    pub static RSA_PKCS1_SHA384: RsaPadding = RsaPadding("RSA_PKCS1_SHA384");
    pub static RSA_PKCS1_SHA512: RsaPadding = RsaPadding("RSA_PKCS1_SHA512");
    pub static RSA_PSS_SHA256: RsaPadding = RsaPadding("RSA_PSS_SHA256");
    pub static RSA_PSS_SHA384: RsaPadding = RsaPadding("RSA_PSS_SHA384");
    pub static RSA_PSS_SHA512: RsaPadding = RsaPadding("RSA_PSS_SHA512");
    pub trait KeyPair { type PublicKey; fn public_key(&self) -> &Self::PublicKey; }
    #[derive(Clone, Debug)]
    pub struct RsaPublicKey { n: usize }
    impl RsaPublicKey { pub fn modulus_len(&self) -> usize { self.n } }
    pub use RsaPublicKey as PublicKey;
    pub struct RsaKeyPair { der: Vec<u8>, public: RsaPublicKey }
    impl KeyPair for RsaKeyPair { type PublicKey = RsaPublicKey; fn public_key(&self) -> &RsaPublicKey { &self.public } }
    impl RsaKeyPair {
        pub fn from_pkcs8(pkcs8: &[u8]) -> Result<Self, error::KeyRejected> {
            with_env(|e| {
                for (k, n) in e.keys.iter() {
                    if k.as_slice() == pkcs8 {
                        return Ok(RsaKeyPair { der: pkcs8.to_vec(), public: RsaPublicKey { n: *n } });
                    }
                }
                Err(error::KeyRejected("InvalidEncoding"))
            })
        }
        pub fn from_der(_der: &[u8]) -> Result<Self, error::KeyRejected> { Err(error::KeyRejected("InvalidEncoding")) }
        pub fn public(&self) -> &RsaPublicKey { &self.public }
        pub fn public_modulus_len(&self) -> usize { self.public.n }
        pub fn sign(
            &self, padding: &'static dyn RsaEncoding, _rng: &dyn rand::SecureRandom, msg: &[u8], signature: &mut [u8],
        ) -> Result<(), error::Unspecified> {
            if signature.len() != self.public.n { return Err(error::Unspecified); }
            with_env(|e| {
                e.signed.push(SignRecord { algorithm: padding.name(), key_der: self.der.clone(), message: msg.to_vec() });
                for (i, b) in signature.iter_mut().enumerate() { *b = e.signature.get(i).copied().unwrap_or(0); }
            });
            Ok(())
        }
    }
}
