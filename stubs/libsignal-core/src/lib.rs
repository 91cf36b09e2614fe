//! Offline stand-in for libsignal-core: only the Aci identifier.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Aci([u8; 16]);
impl Aci {
    pub const fn from_uuid_bytes(bytes: [u8; 16]) -> Self {
        Aci(bytes)
    }
    pub fn raw_uuid(&self) -> [u8; 16] {
        self.0
    }
    pub fn service_id_binary(&self) -> Vec<u8> {
        self.0.to_vec()
    }
}
impl From<uuid::Uuid> for Aci {
    fn from(u: uuid::Uuid) -> Self {
        Aci(*u.as_bytes())
    }
}
