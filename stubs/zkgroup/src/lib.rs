//! Offline stand-in for libsignal's zkgroup (git dependency, not available without network).
//! Deterministic, keyed toy algebra with the same API surface and the same observable contract
//! where ringrtc relies on it: encryption under a root key round-trips, a ciphertext of another
//! key is rejected, endorsements are bound to their ciphertexts, their server key and their
//! (day-aligned) expiration.  No cryptographic strength is claimed or needed.
use std::time::{Duration, SystemTime};

use serde::{Deserialize, Serialize, de::DeserializeOwned};

pub const RANDOMNESS_LEN: usize = 32;
pub type RandomnessBytes = [u8; RANDOMNESS_LEN];
pub const UUID_LEN: usize = 16;
pub type UidBytes = [u8; UUID_LEN];
const DAY: u64 = 86400;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ZkGroupDeserializationFailure;
impl std::fmt::Display for ZkGroupDeserializationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "deserialization failure")
    }
}
impl std::error::Error for ZkGroupDeserializationFailure {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ZkGroupVerificationFailure;
impl std::fmt::Display for ZkGroupVerificationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "verification failure")
    }
}
impl std::error::Error for ZkGroupVerificationFailure {}

pub fn serialize<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serialize(v).expect("serializable")
}
pub fn deserialize<T: DeserializeOwned + Serialize>(b: &[u8]) -> Result<T, ZkGroupDeserializationFailure> {
    let v: T = bincode::deserialize(b).map_err(|_| ZkGroupDeserializationFailure)?;
    if serialize(&v).len() != b.len() {
        return Err(ZkGroupDeserializationFailure);
    }
    Ok(v)
}

fn mix(h: u64, x: u64) -> u64 {
    let mut z = h ^ x.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn hash(parts: &[&[u8]]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0;
    for p in parts {
        h = mix(h, p.len() as u64);
        for b in *p {
            h = mix(h, *b as u64);
        }
    }
    h
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize, Default)]
pub struct Timestamp(u64);
impl Timestamp {
    pub const fn from_epoch_seconds(s: u64) -> Self {
        Timestamp(s)
    }
    pub const fn epoch_seconds(&self) -> u64 {
        self.0
    }
    pub const fn add_seconds(&self, s: u64) -> Self {
        Timestamp(self.0 + s)
    }
    pub const fn sub_seconds(&self, s: u64) -> Self {
        Timestamp(self.0 - s)
    }
}
impl From<Timestamp> for SystemTime {
    fn from(t: Timestamp) -> SystemTime {
        SystemTime::UNIX_EPOCH + Duration::from_secs(t.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct EndorsementPublicKey(u64);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct EndorsementServerRootKeyPair(u64);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct ServerSecretParams {
    endorsement: EndorsementServerRootKeyPair,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct ServerPublicParams {
    endorsement: EndorsementPublicKey,
}
impl ServerSecretParams {
    pub fn generate(r: RandomnessBytes) -> Self {
        Self { endorsement: EndorsementServerRootKeyPair(hash(&[&r])) }
    }
    pub fn get_public_params(&self) -> ServerPublicParams {
        ServerPublicParams { endorsement: EndorsementPublicKey(self.endorsement.0) }
    }
    pub fn get_endorsement_root_key_pair(&self) -> EndorsementServerRootKeyPair {
        self.endorsement
    }
}
impl ServerPublicParams {
    pub fn get_endorsement_public_key(&self) -> EndorsementPublicKey {
        self.endorsement
    }
}
impl AsRef<EndorsementPublicKey> for EndorsementPublicKey {
    fn as_ref(&self) -> &EndorsementPublicKey {
        self
    }
}
impl AsRef<EndorsementPublicKey> for ServerPublicParams {
    fn as_ref(&self) -> &EndorsementPublicKey {
        &self.endorsement
    }
}
impl AsRef<EndorsementServerRootKeyPair> for EndorsementServerRootKeyPair {
    fn as_ref(&self) -> &EndorsementServerRootKeyPair {
        self
    }
}
impl AsRef<EndorsementServerRootKeyPair> for ServerSecretParams {
    fn as_ref(&self) -> &EndorsementServerRootKeyPair {
        &self.endorsement
    }
}

pub mod call_links {
    use super::*;
    use crate::groups::UuidCiphertext;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct UidKeyPair {
        pub a1: u64,
        pub a2: u64,
        pub public_key: u64,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct CallLinkSecretParams {
        uid: UidKeyPair,
    }
    impl AsRef<UidKeyPair> for CallLinkSecretParams {
        fn as_ref(&self) -> &UidKeyPair {
            &self.uid
        }
    }
    impl CallLinkSecretParams {
        pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
        pub fn derive_from_root_key(root_key: &[u8]) -> Self {
            let key = &root_key[..root_key.len().min(Self::ROOT_KEY_MAX_BYTES_FOR_SHO)];
            Self {
                uid: UidKeyPair {
                    a1: hash(&[b"a1", key]),
                    a2: hash(&[b"a2", key]),
                    public_key: hash(&[b"pk", key]),
                },
            }
        }
        fn pad(&self) -> [u8; 16] {
            let mut p = [0; 16];
            p[..8].copy_from_slice(&self.uid.a1.to_le_bytes());
            p[8..].copy_from_slice(&self.uid.a2.to_le_bytes());
            p
        }
        fn tag(&self, body: &[u8; 16]) -> u64 {
            hash(&[&self.uid.public_key.to_le_bytes(), body])
        }
        pub fn encrypt_uid(&self, aci: libsignal_core::Aci) -> UuidCiphertext {
            let mut body = aci.raw_uuid();
            for (b, p) in body.iter_mut().zip(self.pad()) {
                *b ^= p;
            }
            UuidCiphertext { reserved: [0], body, tag: self.tag(&body) }
        }
        pub fn decrypt_uid(&self, c: UuidCiphertext) -> Result<libsignal_core::Aci, ZkGroupVerificationFailure> {
            if c.reserved != [0] || c.tag != self.tag(&c.body) {
                return Err(ZkGroupVerificationFailure);
            }
            let mut body = c.body;
            for (b, p) in body.iter_mut().zip(self.pad()) {
                *b ^= p;
            }
            Ok(libsignal_core::Aci::from_uuid_bytes(body))
        }
        pub(crate) fn token_key(&self) -> u64 {
            self.uid.public_key
        }
    }
}

pub mod groups {
    use super::*;
    use crate::call_links::CallLinkSecretParams;

    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
    pub struct UuidCiphertext {
        pub(crate) reserved: [u8; 1],
        pub(crate) body: [u8; 16],
        pub(crate) tag: u64,
    }
    impl UuidCiphertext {
        fn id(&self) -> u64 {
            hash(&[&self.body, &self.tag.to_le_bytes()])
        }
    }

    pub struct GroupSendDerivedKeyPair {
        key: u64,
        expiration: Timestamp,
    }
    impl GroupSendDerivedKeyPair {
        pub fn for_expiration(expiration: Timestamp, root: impl AsRef<EndorsementServerRootKeyPair>) -> Self {
            Self { key: mix(root.as_ref().0, expiration.0), expiration }
        }
    }

    /// combine() is a commutative sum, as in the real scheme.
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
    pub struct GroupSendEndorsement(u64);
    impl GroupSendEndorsement {
        pub fn combine(it: impl IntoIterator<Item = GroupSendEndorsement>) -> Self {
            GroupSendEndorsement(it.into_iter().fold(0, |a, e| a.wrapping_add(e.0)))
        }
        pub fn to_token(&self, key: CallLinkSecretParams) -> GroupSendToken {
            GroupSendToken(mix(self.0, key.token_key()))
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
    pub struct GroupSendToken(u64);
    impl GroupSendToken {
        pub fn into_full_token(self, expiration: Timestamp) -> GroupSendFullToken {
            GroupSendFullToken { token: self, expiration }
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
    pub struct GroupSendFullToken {
        token: GroupSendToken,
        expiration: Timestamp,
    }
    impl GroupSendFullToken {
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct ReceivedEndorsement {
        pub compressed: GroupSendEndorsement,
        pub decompressed: GroupSendEndorsement,
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsementsResponse {
        reserved: [u8; 1],
        endorsements: Vec<u64>,
        expiration: Timestamp,
        proof: u64,
    }
    impl GroupSendEndorsementsResponse {
        fn proof(endorsements: &[u64], cts: &[UuidCiphertext], key: u64) -> u64 {
            let mut h = key;
            for (e, c) in endorsements.iter().zip(cts) {
                h = mix(mix(h, *e), c.id());
            }
            mix(h, cts.len() as u64)
        }
        pub fn issue(
            cts: impl IntoIterator<Item = UuidCiphertext>,
            key: &GroupSendDerivedKeyPair,
            _randomness: RandomnessBytes,
        ) -> Self {
            let cts: Vec<_> = cts.into_iter().collect();
            let endorsements: Vec<u64> = cts.iter().map(|c| mix(key.key, c.id())).collect();
            let proof = Self::proof(&endorsements, &cts, key.key);
            Self { reserved: [0], endorsements, expiration: key.expiration, proof }
        }
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
        pub fn receive_with_ciphertexts(
            self,
            cts: impl IntoIterator<Item = UuidCiphertext>,
            now: Timestamp,
            public: impl AsRef<EndorsementPublicKey>,
        ) -> Result<Vec<ReceivedEndorsement>, ZkGroupVerificationFailure> {
            let cts: Vec<_> = cts.into_iter().collect();
            if self.expiration.0 % DAY != 0
                || self.expiration.0 < now.0.saturating_add(2 * 3600)
                || self.expiration.0 > now.0.saturating_add(7 * DAY)
                || cts.len() != self.endorsements.len()
            {
                return Err(ZkGroupVerificationFailure);
            }
            let key = mix(public.as_ref().0, self.expiration.0);
            if Self::proof(&self.endorsements, &cts, key) != self.proof {
                return Err(ZkGroupVerificationFailure);
            }
            Ok(self
                .endorsements
                .iter()
                .map(|e| ReceivedEndorsement {
                    compressed: GroupSendEndorsement(*e),
                    decompressed: GroupSendEndorsement(*e),
                })
                .collect())
        }
    }
}
