//! Stand-in for `ed25519-dalek` 1.0: an ideal deterministic signature scheme over the ideal hash.
//! pk = H8(sk); sig(pk, msg) = H9(pk || msg), twice, with a canonical `s`; a signature verifies iff it equals that value.
//! So: what was signed verifies, nothing else does, and distinct (key, message) pairs never share a signature.
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

pub use ed25519::signature::{self, Signer, Verifier};
pub use ed25519::Signature;
pub type SignatureError = ed25519::signature::Error;

pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;
pub const KEYPAIR_LENGTH: usize = 64;
pub const SIGNATURE_LENGTH: usize = 64;
pub const EXPANDED_SECRET_KEY_LENGTH: usize = 64;

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct PublicKey([u8; 32]);
impl Default for PublicKey {
    /// the encoding of the identity, as in the real crate
    fn default() -> Self {
        let mut b = [0; 32];
        b[0] = 1;
        PublicKey(b)
    }
}
pub struct SecretKey([u8; 32]);
pub struct ExpandedSecretKey([u8; 64], [u8; 32]);
#[derive(Debug)]
pub struct Keypair {
    pub secret: SecretKey,
    pub public: PublicKey,
}

/// The one valid signature of `msg` under `pk`.
fn ideal(pk: &PublicKey, msg: &[u8]) -> [u8; 64] {
    let mut v = Vec::with_capacity(32 + msg.len());
    v.extend_from_slice(&pk.0);
    v.extend_from_slice(msg);
    let mut s = vxhash::hash(9, &v);
    s.copy_within(..32, 32);
    s[62] |= 1; // (never the empty signature)
    s[63] &= 0x0f;
    s
}

impl fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("PublicKey")
    }
}
impl fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SecretKey")
    }
}
impl AsRef<[u8]> for PublicKey {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for SecretKey {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl PublicKey {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    /// Every 32-byte string counts as a key here (curve membership is not modelled).
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, SignatureError> {
        if bytes.len() != 32 {
            return Err(SignatureError::new());
        }
        let mut b = [0; 32];
        b.copy_from_slice(bytes);
        Ok(PublicKey(b))
    }
    pub fn verify_strict(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        self.verify(msg, sig)
    }
}
impl Verifier<Signature> for PublicKey {
    fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        if ideal(self, msg)[..] == sig.to_bytes()[..] {
            Ok(())
        } else {
            Err(SignatureError::new())
        }
    }
}
impl<'a> From<&'a SecretKey> for PublicKey {
    fn from(s: &SecretKey) -> Self {
        let h = vxhash::hash(8, &s.0);
        let mut b = [0; 32];
        b.copy_from_slice(&h[..32]);
        PublicKey(b)
    }
}
impl<'a> From<&'a ExpandedSecretKey> for PublicKey {
    fn from(s: &ExpandedSecretKey) -> Self {
        (&SecretKey(s.1)).into()
    }
}
impl SecretKey {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, SignatureError> {
        if bytes.len() != 32 {
            return Err(SignatureError::new());
        }
        let mut b = [0; 32];
        b.copy_from_slice(bytes);
        Ok(SecretKey(b))
    }
    pub fn generate<T: rand::CryptoRng + rand::RngCore>(rng: &mut T) -> Self {
        let mut b = [0; 32];
        rng.fill_bytes(&mut b);
        SecretKey(b)
    }
}
impl<'a> From<&'a SecretKey> for ExpandedSecretKey {
    fn from(s: &SecretKey) -> Self {
        let mut h = vxhash::hash(1, &s.0);
        h[0] &= 248;
        h[31] &= 63;
        h[31] |= 64;
        // (what the stand-in for the curve takes as the scalar is the discrete logarithm of the public key)
        h[1..3].copy_from_slice(&PublicKey::from(s).0[1..3]);
        ExpandedSecretKey(h, s.0)
    }
}
impl ExpandedSecretKey {
    pub fn to_bytes(&self) -> [u8; 64] {
        self.0
    }
    pub fn sign(&self, msg: &[u8], pk: &PublicKey) -> Signature {
        Signature::from_bytes(&ideal(pk, msg)).unwrap()
    }
}
impl Keypair {
    pub fn to_bytes(&self) -> [u8; 64] {
        let mut b = [0; 64];
        b[..32].copy_from_slice(&self.secret.0);
        b[32..].copy_from_slice(&self.public.0);
        b
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, SignatureError> {
        if bytes.len() != 64 {
            return Err(SignatureError::new());
        }
        Ok(Keypair { secret: SecretKey::from_bytes(&bytes[..32])?, public: PublicKey::from_bytes(&bytes[32..])? })
    }
    pub fn generate<T: rand::CryptoRng + rand::RngCore>(rng: &mut T) -> Self {
        let secret = SecretKey::generate(rng);
        let public = (&secret).into();
        Keypair { secret, public }
    }
    pub fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        self.public.verify(msg, sig)
    }
    pub fn verify_strict(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        self.public.verify(msg, sig)
    }
}
impl Signer<Signature> for Keypair {
    fn try_sign(&self, msg: &[u8]) -> Result<Signature, SignatureError> {
        Signature::from_bytes(&ideal(&self.public, msg))
    }
}
impl Verifier<Signature> for Keypair {
    fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), SignatureError> {
        self.public.verify(msg, sig)
    }
}

macro_rules! ser {
    ($t:ident) => {
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                serde_bytes::Bytes::new(&self.to_bytes()).serialize(s)
            }
        }
        impl<'d> Deserialize<'d> for $t {
            fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
                let b = <serde_bytes::ByteBuf>::deserialize(d)?;
                Self::from_bytes(&b).map_err(D::Error::custom)
            }
        }
    };
}
ser!(PublicKey);
ser!(SecretKey);
ser!(Keypair);
