//! Stand-in for libsignal's zkgroup (a git dependency that is not available offline).
//! It keeps the API and the *behaviour ringrtc depends on* (round trips, validation failures,
//! expirations), with toy keyed constructions in place of the zero-knowledge cryptography.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::time::{Duration, SystemTime};

pub const UUID_LEN: usize = 16;
pub const RANDOMNESS_LEN: usize = 32;
pub type RandomnessBytes = [u8; RANDOMNESS_LEN];

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ZkGroupDeserializationFailure;
impl std::fmt::Display for ZkGroupDeserializationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("deserialization failure")
    }
}
impl std::error::Error for ZkGroupDeserializationFailure {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ZkGroupVerificationFailure;
impl std::fmt::Display for ZkGroupVerificationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("verification failure")
    }
}
impl std::error::Error for ZkGroupVerificationFailure {}

pub fn serialize<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serialize(v).expect("serialize")
}
pub fn deserialize<T: DeserializeOwned>(b: &[u8]) -> Result<T, ZkGroupDeserializationFailure> {
    use bincode::Options;
    bincode::DefaultOptions::new()
        .with_fixint_encoding()
        .with_limit(1 << 20)
        .reject_trailing_bytes()
        .deserialize(b)
        .map_err(|_| ZkGroupDeserializationFailure)
}

fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut d = Sha256::new();
    for p in parts {
        d.update((p.len() as u64).to_le_bytes());
        d.update(p);
    }
    d.finalize().into()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub struct Timestamp(u64);
impl Timestamp {
    pub const fn from_epoch_seconds(s: u64) -> Self {
        Timestamp(s)
    }
    pub const fn epoch_seconds(&self) -> u64 {
        self.0
    }
    pub fn add_seconds(&self, s: u64) -> Self {
        Timestamp(self.0 + s)
    }
}
impl From<Timestamp> for SystemTime {
    fn from(t: Timestamp) -> SystemTime {
        SystemTime::UNIX_EPOCH + Duration::from_secs(t.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct EndorsementPublicKey(pub [u8; 32]);

pub mod call_links {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
    pub struct CallLinkSecretParams {
        key: [u8; 32],
    }
    impl CallLinkSecretParams {
        pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
        pub fn derive_from_root_key(root_key: &[u8]) -> Self {
            let n = root_key.len().min(16);
            Self { key: h(&[b"zkstub-root", &root_key[..n]]) }
        }
        pub fn encrypt_uid(&self, uid: super::Aci) -> groups::UuidCiphertext {
            let pad = h(&[b"zkstub-pad", &self.key]);
            let mut ct = [0u8; 16];
            for i in 0..16 {
                ct[i] = uid.0[i] ^ pad[i];
            }
            let mac = h(&[b"zkstub-mac", &self.key, &ct]);
            groups::UuidCiphertext { ct, mac }
        }
        pub fn decrypt_uid(
            &self,
            c: groups::UuidCiphertext,
        ) -> Result<super::Aci, ZkGroupVerificationFailure> {
            if h(&[b"zkstub-mac", &self.key, &c.ct]) != c.mac {
                return Err(ZkGroupVerificationFailure);
            }
            let pad = h(&[b"zkstub-pad", &self.key]);
            let mut id = [0u8; 16];
            for i in 0..16 {
                id[i] = c.ct[i] ^ pad[i];
            }
            Ok(super::Aci(id))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Aci(pub [u8; 16]);
impl Aci {
    pub fn from_uuid_bytes(b: [u8; 16]) -> Self {
        Aci(b)
    }
    pub fn service_id_binary(&self) -> Vec<u8> {
        self.0.to_vec()
    }
}

pub mod groups {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
    pub struct UuidCiphertext {
        pub(crate) ct: [u8; 16],
        pub(crate) mac: [u8; 32],
    }
    /// The stub endorsement carries what it endorses, so a simulator can check who it is for.
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
    pub struct GroupSendEndorsement {
        pub tag: [u8; 32],
    }
    impl GroupSendEndorsement {
        pub fn combine(it: impl IntoIterator<Item = GroupSendEndorsement>) -> GroupSendEndorsement {
            let mut tag = [0u8; 32];
            for e in it {
                for i in 0..32 {
                    tag[i] ^= e.tag[i];
                }
            }
            GroupSendEndorsement { tag }
        }
        pub fn to_token(&self, p: call_links::CallLinkSecretParams) -> GroupSendToken {
            GroupSendToken { tag: h(&[b"zkstub-token", &self.tag, &serialize(&p)]) }
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
    pub struct GroupSendToken {
        tag: [u8; 32],
    }
    impl GroupSendToken {
        pub fn into_full_token(self, expiration: Timestamp) -> GroupSendFullToken {
            GroupSendFullToken { tag: self.tag, expiration }
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
    pub struct GroupSendFullToken {
        tag: [u8; 32],
        expiration: Timestamp,
    }
    impl GroupSendFullToken {
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
    }
    pub struct ReceivedEndorsement {
        pub decompressed: GroupSendEndorsement,
    }
    #[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
    pub struct GroupSendEndorsementsResponse {
        endorsements: Vec<[u8; 32]>,
        expiration: Timestamp,
        proof: [u8; 32],
    }
    fn proof(
        key: &EndorsementPublicKey,
        expiration: Timestamp,
        members: &[UuidCiphertext],
        e: &[[u8; 32]],
    ) -> [u8; 32] {
        h(&[b"zkstub-proof", &key.0, &serialize(&expiration), &serialize(&members), &serialize(&e)])
    }
    /// What a correct endorsement of `member` is, for this key, expiration and salt.
    impl GroupSendEndorsementsResponse {
        pub fn issue(
            members: &[UuidCiphertext],
            key: &EndorsementPublicKey,
            expiration: Timestamp,
            salt: u64,
        ) -> Self {
            let endorsements: Vec<[u8; 32]> = members
                .iter()
                .map(|m| {
                    h(&[b"zkstub-end", &key.0, &serialize(&expiration), &serialize(m), &salt.to_le_bytes()])
                })
                .collect();
            let proof = proof(key, expiration, members, &endorsements);
            Self { endorsements, expiration, proof }
        }
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
        pub fn tags(&self) -> &[[u8; 32]] {
            &self.endorsements
        }
        pub fn receive_with_ciphertexts(
            self,
            members: impl IntoIterator<Item = UuidCiphertext>,
            now: Timestamp,
            key: &EndorsementPublicKey,
        ) -> Result<Vec<ReceivedEndorsement>, ZkGroupVerificationFailure> {
            let members: Vec<UuidCiphertext> = members.into_iter().collect();
            if self.expiration < now
                || members.len() != self.endorsements.len()
                || proof(key, self.expiration, &members, &self.endorsements) != self.proof
            {
                return Err(ZkGroupVerificationFailure);
            }
            Ok(self
                .endorsements
                .iter()
                .map(|tag| ReceivedEndorsement { decompressed: GroupSendEndorsement { tag: *tag } })
                .collect())
        }
    }
}
