//! The x25519-dalek 2.x API surface used by ringrtc, over curve25519-dalek (the real curve code).
use curve25519_dalek::montgomery::MontgomeryPoint;
use curve25519_dalek::traits::IsIdentity;
use rand_core::{CryptoRng, RngCore};

#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
pub struct PublicKey(MontgomeryPoint);
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        PublicKey(MontgomeryPoint(b))
    }
}
impl PublicKey {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0.to_bytes()
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        self.0.as_bytes()
    }
}
impl AsRef<[u8]> for PublicKey {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}

pub struct SharedSecret(MontgomeryPoint);
impl SharedSecret {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0.to_bytes()
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        self.0.as_bytes()
    }
    pub fn was_contributory(&self) -> bool {
        !self.0.is_identity()
    }
}
impl AsRef<[u8]> for SharedSecret {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}

macro_rules! secret {
    ($n:ident) => {
        impl $n {
            pub fn random_from_rng<T: RngCore + CryptoRng>(mut csprng: T) -> Self {
                let mut bytes = [0u8; 32];
                csprng.fill_bytes(&mut bytes);
                $n(bytes)
            }
        }
        impl<'a> From<&'a $n> for PublicKey {
            fn from(s: &'a $n) -> PublicKey {
                PublicKey(MontgomeryPoint::mul_base_clamped(s.0))
            }
        }
    };
}
pub struct EphemeralSecret([u8; 32]);
secret!(EphemeralSecret);
impl EphemeralSecret {
    pub fn diffie_hellman(self, their_public: &PublicKey) -> SharedSecret {
        SharedSecret(their_public.0.mul_clamped(self.0))
    }
}
#[derive(Clone)]
pub struct StaticSecret([u8; 32]);
secret!(StaticSecret);
impl StaticSecret {
    pub fn diffie_hellman(&self, their_public: &PublicKey) -> SharedSecret {
        SharedSecret(their_public.0.mul_clamped(self.0))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<[u8; 32]> for StaticSecret {
    fn from(b: [u8; 32]) -> Self {
        StaticSecret(b)
    }
}
