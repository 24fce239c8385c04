//! Account data as the RPC node encodes it; here the bytes themselves.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UiAccountEncoding {
    Binary,
    Base58,
    Base64,
    JsonParsed,
    Base64Zstd,
}
#[derive(Clone, Debug)]
pub enum UiAccountData {
    Bytes(Vec<u8>),
    Other,
}
impl UiAccountData {
    pub fn decode(&self) -> Option<Vec<u8>> {
        match self {
            UiAccountData::Bytes(b) => Some(b.clone()),
            UiAccountData::Other => None,
        }
    }
}
#[derive(Clone, Debug)]
pub struct UiAccount {
    pub lamports: u64,
    pub data: UiAccountData,
    pub owner: String,
    pub executable: bool,
    pub rent_epoch: u64,
    pub space: Option<u64>,
}
