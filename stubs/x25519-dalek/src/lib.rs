//! Offline stand-in for x25519-dalek 2.0 (the crate is not in the offline registry).
//! The arithmetic is the real thing: curve25519-dalek's Montgomery ladder.
use curve25519_dalek::montgomery::MontgomeryPoint;
use curve25519_dalek::traits::IsIdentity;
use rand_core::{CryptoRng, RngCore};

#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
pub struct PublicKey(pub(crate) MontgomeryPoint);

impl From<[u8; 32]> for PublicKey {
    fn from(bytes: [u8; 32]) -> PublicKey {
        PublicKey(MontgomeryPoint(bytes))
    }
}
impl PublicKey {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0.to_bytes()
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        self.0.as_bytes()
    }
}
impl AsRef<[u8]> for PublicKey {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}

fn random32<R: RngCore + CryptoRng>(mut csprng: R) -> [u8; 32] {
    let mut bytes = [0u8; 32];
    csprng.fill_bytes(&mut bytes);
    bytes
}

pub struct EphemeralSecret(pub(crate) [u8; 32]);
impl EphemeralSecret {
    pub fn diffie_hellman(self, their_public: &PublicKey) -> SharedSecret {
        SharedSecret(their_public.0.mul_clamped(self.0))
    }
    pub fn random_from_rng<T: RngCore + CryptoRng>(csprng: T) -> Self {
        EphemeralSecret(random32(csprng))
    }
}
impl<'a> From<&'a EphemeralSecret> for PublicKey {
    fn from(secret: &'a EphemeralSecret) -> PublicKey {
        PublicKey(MontgomeryPoint::mul_base_clamped(secret.0))
    }
}

#[derive(Clone)]
pub struct StaticSecret([u8; 32]);
impl StaticSecret {
    pub fn diffie_hellman(&self, their_public: &PublicKey) -> SharedSecret {
        SharedSecret(their_public.0.mul_clamped(self.0))
    }
    pub fn random_from_rng<T: RngCore + CryptoRng>(csprng: T) -> Self {
        StaticSecret(random32(csprng))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<[u8; 32]> for StaticSecret {
    fn from(bytes: [u8; 32]) -> StaticSecret {
        StaticSecret(bytes)
    }
}
impl<'a> From<&'a StaticSecret> for PublicKey {
    fn from(secret: &'a StaticSecret) -> PublicKey {
        PublicKey(MontgomeryPoint::mul_base_clamped(secret.0))
    }
}

pub struct SharedSecret(pub(crate) MontgomeryPoint);
impl SharedSecret {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0.to_bytes()
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        self.0.as_bytes()
    }
    pub fn was_contributory(&self) -> bool {
        !self.0.is_identity()
    }
}
impl AsRef<[u8]> for SharedSecret {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}
